"""Reader for the textual LLVM IR that clang emits (the subset clang produces for C++ at -O0 + mem2reg)."""
import re, subprocess, functools

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@!\#$](?:"[^"]*"|[-\w$.]+)?)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<fpx>0x[0-9A-Fa-f]+)
 | (?P<id>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ValueError('lex: ' + s[i:i + 60])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class Ty:
    __slots__ = ('k', 'a', 'n')

    def __init__(s, k, a=None, n=0):
        s.k, s.a, s.n = k, a, n

    def __repr__(s):
        return '%s(%r,%r)' % (s.k, s.a, s.n)


PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'returned', 'noalias', 'nocapture', 'readonly', 'writeonly',
              'readnone', 'immarg', 'inreg', 'nest', 'noreturn', 'nofree', 'swiftself', 'writable', 'dead_on_unwind'}


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'dbg', 'text')

    def __init__(s, op, dst, ty, a, dbg, text):
        s.op, s.dst, s.ty, s.a, s.dbg, s.text = op, dst, ty, a, dbg, text


class Func:
    def __init__(s, name, params, rty):
        s.name, s.params, s.rty = name, params, rty
        s.blocks = {}
        s.order = []
        s.entry = None
        s.dbg = None
        s.nounwind = False
        s.loops = None
        s.live = None

    # ---- CFG helpers
    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

    def loop_heads(s):
        """blocks that are the target of a retreating edge in a depth first traversal"""
        if s.loops is not None:
            return s.loops
        heads = {}
        color = {}
        stack = [(s.entry, iter(s.succs(s.entry)))]
        color[s.entry] = 1
        while stack:
            b, it = stack[-1]
            for c in it:
                if color.get(c, 0) == 0:
                    color[c] = 1
                    stack.append((c, iter(s.succs(c))))
                    break
                elif color[c] == 1:
                    heads.setdefault(c, set()).add(b)
            else:
                color[b] = 2
                stack.pop()
        # natural loop body, to know when an activation of the loop is left
        preds = {}
        for b in s.order:
            for c in s.succs(b):
                preds.setdefault(c, []).append(b)
        res = {}
        for h, tails in heads.items():
            body = {h}
            work = list(tails)
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
            res[h] = body
        s.loops = res
        return res

    def liveness(s):
        """SSA names live at block entry (phi operands count on the edge)"""
        if s.live is not None:
            return s.live
        use, deff, phiuse = {}, {}, {}
        for b in s.order:
            u, d = set(), set()
            for i in s.blocks[b]:
                if i.op == 'phi':
                    for v, p in i.a:
                        if v[0] == 'l':
                            phiuse.setdefault(p, set()).add((b, v[1]))
                    d.add(i.dst)
                    continue
                for o in uses(i):
                    if o not in d:
                        u.add(o)
                if i.dst:
                    d.add(i.dst)
            use[b], deff[b] = u, d
        live = {b: set() for b in s.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.order):
                out = set()
                for c in s.succs(b):
                    out |= live[c] - {i.dst for i in s.blocks[c] if i.op == 'phi'}
                    out |= {v for (t, v) in phiuse.get(b, ()) if t == c}
                n = use[b] | (out - deff[b])
                # phi results are defined at entry: live at entry of their own block
                n |= {i.dst for i in s.blocks[b] if i.op == 'phi'}
                if n != live[b]:
                    live[b] = n
                    ch = True
        s.live = live
        return live


def uses(i):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l':
                out.append(x[1])
            else:
                for y in x:
                    rec(y)
        elif isinstance(x, list):
            for y in x:
                rec(y)
        elif isinstance(x, dict):
            for y in x.values():
                rec(y)
    rec(i.a)
    return out


class Module:
    def __init__(s):
        s.types = {}
        s.funcs = {}
        s.decls = {}
        s.globals = {}
        s.md = {}
        s.attrs = {}

    # ---- layout
    def size(s, t):
        k = t.k
        if k == 'int':
            return 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
        if k == 'ptr':
            return 8
        if k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return t.n * s.size(t.a)
        if k == 'named':
            return s.size(s.types[t.a])
        if k == 'struct':
            return s.layout(t)[1]
        if k == 'x86_fp80':
            return 16
        raise ValueError('size ' + repr(t))

    def align(s, t):
        k = t.k
        if k == 'arr':
            return s.align(t.a)
        if k == 'named':
            return s.align(s.types[t.a])
        if k == 'struct':
            if t.n:
                return 1
            return max([s.align(x) for x in t.a] or [1])
        return s.size(t)

    def layout(s, t):
        offs = []
        o = 0
        for x in t.a:
            a = 1 if t.n else s.align(x)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += s.size(x)
        a = s.align(t)
        o = (o + a - 1) // a * a
        return offs, o

    def strip(s, t):
        while t.k == 'named':
            t = s.types[t.a]
        return t

    def where(s, dbg):
        """source position of a debug location: (file, line, function)"""
        if dbg is None:
            return ('?', 0, '?')
        m = s.md.get(dbg, '')
        line = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: (!\d+)', m)
        f, fn = '?', '?'
        cur = sc.group(1) if sc else None
        for _ in range(50):
            if cur is None:
                break
            t = s.md.get(cur, '')
            if 'DISubprogram' in t and fn == '?':
                mm = re.search(r'name: "([^"]*)"', t)
                fn = mm.group(1) if mm else '?'
            mf = re.search(r'file: (!\d+)', t)
            if mf and f == '?':
                mm = re.search(r'filename: "([^"]*)"', s.md.get(mf.group(1), ''))
                f = mm.group(1) if mm else '?'
            if fn != '?' and f != '?':
                break
            sc = re.search(r'scope: (!\d+)', t)
            cur = sc.group(1) if sc else None
        return (f, int(line.group(1)) if line else 0, fn)


class P:
    """token cursor"""

    def __init__(s, mod, t):
        s.m, s.t, s.i = mod, t, 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1]

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def need(s, x):
        if not s.eat(x):
            raise ValueError('expected %s at %s' % (x, s.t[max(0, s.i - 5):s.i + 8]))

    def type(s):
        t = s.next()
        if t == 'ptr':
            r = Ty('ptr')
            if s.peek() == 'addrspace':
                s.next(); s.need('('); s.next(); s.need(')')
        elif t == 'void':
            r = Ty('void')
        elif t[0] == 'i' and t[1:].isdigit():
            r = Ty('int', None, int(t[1:]))
        elif t in ('double', 'float', 'x86_fp80', 'label', 'metadata', 'token'):
            r = Ty(t)
        elif t[0] == '%':
            r = Ty('named', t)
        elif t == '[':
            n = int(s.next()); s.need('x'); e = s.type(); s.need(']')
            r = Ty('arr', e, n)
        elif t == '{':
            el = []
            if not s.eat('}'):
                while True:
                    el.append(s.type())
                    if s.eat('}'):
                        break
                    s.need(',')
            r = Ty('struct', tuple(el), 0)
        elif t == '<':
            if s.peek() == '{':
                s.next()
                el = []
                if not s.eat('}'):
                    while True:
                        el.append(s.type())
                        if s.eat('}'):
                            break
                        s.need(',')
                s.need('>')
                r = Ty('struct', tuple(el), 1)
            else:
                n = int(s.next()); s.need('x'); e = s.type(); s.need('>')
                r = Ty('vec', e, n)
        elif t == 'opaque':
            r = Ty('struct', (), 0)
        else:
            raise ValueError('type ' + t)
        while s.peek() == '(':   # function type, appears in calls of varargs functions
            d = 0
            while True:
                x = s.next()
                d += x == '('
                d -= x == ')'
                if d == 0:
                    break
            r = Ty('func', r)
        while s.eat('*'):
            r = Ty('ptr')
        return r

    def attrs(s):
        out = []
        while True:
            t = s.peek()
            if t is None:
                return out
            if t in PARAM_ATTR:
                out.append(s.next())
            elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'memory', 'range', 'initializes', 'byref', 'elementtype'):
                s.next()
                out.append(t)
                if s.peek() == '(':
                    d = 0
                    while True:
                        x = s.next()
                        d += x == '('
                        d -= x == ')'
                        if d == 0:
                            break
                elif t == 'align':
                    s.next()
            else:
                return out

    def value(s, ty=None):
        t = s.next()
        if t[0] == '%':
            return ('l', t)
        if t[0] == '@':
            return ('g', t)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'true':
            return ('i', 1)
        if t == 'false':
            return ('i', 0)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if t[0].isdigit() or t[0] == '-':
            if '.' in t or 'e' in t:
                return ('fp', t)
            v = int(t)
            if ty is not None and ty.k == 'int' and ty.n == 1:
                v = v & 1
            return ('i', v)
        if t == 'getelementptr':
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            s.need('(')
            bt = s.type(); s.need(',')
            s.type(); b = s.value()
            idx = []
            while s.eat(','):
                if s.peek() == 'inrange':
                    s.next()
                    if s.eat('('):
                        while not s.eat(')'):
                            s.next()
                it = s.type(); idx.append((it, s.value(it)))
            s.need(')')
            off, dyn = gep(s.m, bt, idx)
            assert not dyn
            return ('cgep', b, off)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc'):
            s.need('('); ft = s.type(); v = s.value(ft); s.need('to'); s.type(); s.need(')')
            return v
        if t == 'blockaddress':
            raise ValueError('blockaddress')
        if t == '{' or t == '[' or t == '<':
            cl = {'{': '}', '[': ']', '<': '>'}[t]
            el = []
            if t == '<' and s.peek() == '{':
                s.next()
                cl = '}'
            if not s.eat(cl):
                while True:
                    et = s.type(); el.append((et, s.value(et)))
                    if s.eat(cl):
                        break
                    s.need(',')
            if t == '<':
                s.eat('>')
            return ('agg', el)
        if t[0] == 'c' or t[0] == '"':
            return ('str', t)
        raise ValueError('value ' + t)

    def tv(s):
        t = s.type()
        s.attrs()
        if t.k == 'metadata':
            # skip metadata operand
            d = 0
            while True:
                p = s.peek()
                if p is None or (d == 0 and p in (',', ')')):
                    break
                d += p in '(' and 1 or 0
                d -= p in ')' and 1 or 0
                s.next()
            return (t, ('undef',))
        return (t, s.value(t))


def gep(m, bt, idx):
    off = 0
    dyn = []
    t = bt
    for n, (it, v) in enumerate(idx):
        if n == 0:
            sz = m.size(t)
        else:
            u = m.strip(t)
            if u.k == 'struct':
                assert v[0] == 'i'
                off += m.layout(u)[0][v[1]]
                t = u.a[v[1]]
                continue
            assert u.k in ('arr', 'vec'), u
            t = u.a
            sz = m.size(t)
        if v[0] == 'i':
            off += sz * v[1]
        elif v[0] == 'zero':
            pass
        else:
            dyn.append((sz, v))
    return off, dyn


ARITH = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'}


def parse_call(p, kind):
    # after 'call' / 'invoke' keyword
    while p.peek() in ('fastcc', 'ccc', 'coldcc') or p.peek() in PARAM_ATTR or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
        if p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        else:
            p.attrs()
    ty = p.type()
    if ty.k == 'func':
        ty = ty.a
    p.attrs()
    callee = p.value()
    p.need('(')
    args = []
    if not p.eat(')'):
        while True:
            args.append(p.tv())
            if p.eat(')'):
                break
            p.need(',')
    at = []
    while p.peek() is not None and p.peek() not in ('to', ',', '['):
        at.append(p.next())
    return ty, callee, args, at


def parse_instr(m, line):
    text = line
    dbg = None
    k = line.find(', !dbg !')
    if k >= 0:
        mm = re.match(r', !dbg (!\d+)', line[k:])
        dbg = mm.group(1)
        line = line[:k]
    # drop trailing metadata such as , !srcloc !3
    line = re.sub(r', ![a-zA-Z_.]+ !\d+', '', line)
    p = P(m, toks(line))
    dst = None
    if p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in ARITH:
        exact = False
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            exact |= p.next() == 'exact'
        ty = p.type(); a = p.value(ty); p.need(','); b = p.value(ty)
        return Instr('bin', dst, ty, (op, a, b, exact), dbg, text)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ft = p.type(); v = p.value(ft)
        tt = ft
        if p.eat('to'):
            tt = p.type()
        return Instr('cast', dst, tt, (op, ft, v), dbg, text)
    if op == 'alloca':
        t = p.type()
        n = None
        while p.eat(','):
            if p.peek() == 'align':
                p.next(); p.next()
            else:
                n = p.tv()
        return Instr('alloca', dst, t, (n,), dbg, text)
    if op == 'load':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type(); p.need(','); p.type(); a = p.value()
        return Instr('load', dst, t, (a,), dbg, text)
    if op == 'store':
        if p.peek() in ('volatile', 'atomic'):
            p.next()
        t, v = p.tv(); p.need(','); p.type(); a = p.value()
        return Instr('store', None, t, (v, a), dbg, text)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type(); p.need(','); p.type(); b = p.value()
        idx = []
        while p.eat(','):
            it = p.type(); idx.append((it, p.value(it)))
        off, dyn = gep(m, bt, idx)
        return Instr('gep', dst, Ty('ptr'), (b, off, tuple(dyn)), dbg, text)
    if op == 'icmp':
        pred = p.next()
        if pred == 'samesign':
            pred = p.next()
        t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return Instr('icmp', dst, t, (pred, a, b), dbg, text)
    if op == 'select':
        p.type(); c = p.value(Ty('int', None, 1)); p.need(','); t, a = p.tv(); p.need(','); t2, b = p.tv()
        return Instr('select', dst, t, (c, a, b), dbg, text)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.need('[')
            v = p.value(t); p.need(','); b = p.next(); p.need(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        return Instr('phi', dst, t, inc, dbg, text)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr('br', None, None, (p.next(),), dbg, text)
        t, c = p.tv(); p.need(','); p.need('label'); a = p.next(); p.need(','); p.need('label'); b = p.next()
        return Instr('br', None, None, (c, a, b), dbg, text)
    if op == 'switch':
        t, v = p.tv(); p.need(','); p.need('label'); d = p.next(); p.need('[')
        cs = []
        while not p.eat(']'):
            ct, cv = p.tv(); p.need(','); p.need('label'); cs.append((cv[1], p.next()))
        return Instr('switch', None, t, (v, d, cs), dbg, text)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return Instr('ret', None, t, (None,), dbg, text)
        return Instr('ret', None, t, (p.value(t),), dbg, text)
    if op == 'call':
        ty, callee, args, at = parse_call(p, op)
        return Instr('call', dst, ty, {'callee': callee, 'args': args, 'attrs': at}, dbg, text)
    if op == 'invoke':
        ty, callee, args, at = parse_call(p, op)
        p.need('to'); p.need('label'); n = p.next(); p.need('unwind'); p.need('label'); u = p.next()
        return Instr('invoke', dst, ty, {'callee': callee, 'args': args, 'attrs': at, 'normal': n, 'unwind': u}, dbg, text)
    if op == 'landingpad':
        t = p.type()
        return Instr('landingpad', dst, t, (' '.join(p.t[p.i:]),), dbg, text)
    if op == 'resume':
        t, v = p.tv()
        return Instr('resume', None, t, (v,), dbg, text)
    if op == 'unreachable':
        return Instr('unreachable', None, None, (), dbg, text)
    if op == 'extractvalue':
        t, v = p.tv()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Instr('extractvalue', dst, t, (v, tuple(ix)), dbg, text)
    if op == 'insertvalue':
        t, v = p.tv(); p.need(','); et, e = p.tv()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        return Instr('insertvalue', dst, t, (v, e, tuple(ix)), dbg, text)
    if op == 'fence':
        return Instr('nop', None, None, (), dbg, text)
    return Instr('unknown', dst, None, (op,), dbg, text)


DEF = re.compile(r'^define\b')


def parse_module(txt):
    m = Module()
    lines = txt.split('\n')
    # pass 1: types, metadata, attributes
    joined = []
    i = 0
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            n, b = ln.split(' = type ', 1)
            m.types[n] = b
        elif ln.startswith('!'):
            mm = re.match(r'(![\w.]+) = (.*)', ln)
            if mm:
                m.md[mm.group(1)] = mm.group(2)
        elif ln.startswith('attributes '):
            mm = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
            m.attrs[mm.group(1)] = mm.group(2)
    for n in list(m.types):
        m.types[n] = P(m, toks(m.types[n])).type()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('@'):
            n = ln.split(' = ', 1)[0]
            m.globals[n] = ln.split(' = ', 1)[1]
        elif ln.startswith('declare'):
            mm = re.search(r'(@(?:"[^"]*"|[\w$.]+))\(', ln)
            m.decls[mm.group(1)] = any('nounwind' in m.attrs.get(a, '') for a in re.findall(r'#\d+', ln))
        elif ln.startswith('define'):
            mm = re.search(r'(@(?:"[^"]*"|[\w$.]+))\(', ln)
            name = mm.group(1)
            pt = toks(ln[mm.end() - 1:ln.rindex('{')])
            p = P(m, pt)
            p.need('(')
            params = []
            if not p.eat(')'):
                while True:
                    if p.peek() == '...':
                        p.next()
                    else:
                        t = p.type(); p.attrs(); params.append((t, p.next()))
                    if p.eat(')'):
                        break
                    p.need(',')
            f = Func(name, params, None)
            md = re.search(r'!dbg (!\d+)', ln)
            f.dbg = md.group(1) if md else None
            f.nounwind = any('nounwind' in m.attrs.get(a, '') for a in re.findall(r' (#\d+)', ln))
            i += 1
            nparams = len([1 for t, n in params])
            cur = '%' + str(nparams) if not (i < len(lines) and re.match(r'^[\w$."-]+:', lines[i])) else None
            body = None
            if cur is not None:
                f.entry = cur
                body = f.blocks[cur] = []
                f.order.append(cur)
            while lines[i] != '}':
                l = lines[i]
                s = l.strip()
                i += 1
                if not s or s.startswith(';'):
                    continue
                mm = re.match(r'^("[^"]*"|[\w$.-]+):', l)
                if mm:
                    cur = '%' + mm.group(1)
                    if f.entry is None:
                        f.entry = cur
                    body = f.blocks[cur] = []
                    f.order.append(cur)
                    continue
                # multi-line landingpad / switch / invoke
                if s.startswith('switch') or ' switch ' in s:
                    while ']' not in s:
                        s += ' ' + lines[i].strip()
                        i += 1
                if 'invoke ' in s and ' unwind label' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
                if 'landingpad' in s:
                    while lines[i].strip().startswith(('cleanup', 'catch', 'filter')):
                        s += ' ' + lines[i].strip()
                        i += 1
                body.append(s)
            m.funcs[name] = f
        i += 1
    return m


def materialise(m, f):
    """parse the body of one function on demand"""
    if getattr(f, 'done', False):
        return
    for b in f.order:
        f.blocks[b] = [parse_instr(m, s) for s in f.blocks[b]]
    # implicit numbering of unnamed entry block is already handled; drop unreachable blocks
    seen = {f.entry}
    w = [f.entry]
    while w:
        x = w.pop()
        for c in f.succs(x):
            if c not in seen:
                seen.add(c)
                w.append(c)
    f.order = [b for b in f.order if b in seen]
    f.done = True


def global_init(m, name):
    """typed initialiser of a constant global, or None"""
    t = m.globals.get(name)
    if t is None:
        return None
    mm = re.search(r'\b(constant|global)\s', t)
    if not mm:
        return None
    head = t[:mm.start()]
    if 'external' in head:
        return None
    p = P(m, toks(t[mm.end():]))
    ty = p.type()
    try:
        v = p.value(ty)
    except Exception:
        return None
    return ty, v, mm.group(1) == 'constant'


def compile_ir(src, flags, out, clang='/usr/bin/clang++-18', opt='/usr/bin/opt'):
    import os
    if not os.path.exists(opt):
        opt = '/usr/lib/llvm-18/bin/opt'
    cmd = [clang, '-std=gnu++11', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
           '-fno-access-control', '-fno-discard-value-names', '-S', '-emit-llvm'] + flags + [src, '-o', out + '.0.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    r = subprocess.run([opt, '-S', '-passes=mem2reg', out + '.0.ll', '-o', out], capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    return None
