"""Shared and weak pointers: reference counting specification."""
from .lin import L, ZERO, ONE, lin, sym
from .engine import P, NULL, Bad, Unk, Dead, Obj, isconst, Engine
from .spec import *
from .vecspec import normal, X, Lay

ESZ = Engine.ESZ
DRV = {}
MAXC = L(1 << 60)


def drv(name, scope, need=None):
    def deco(f):
        DRV[name] = (f, scope, need)
        return f
    return deco


def setup(mk, fn):
    """control block as left by the library's own functions after taking 3 strong and 5 weak references"""
    eng = mk()
    c = Ctx(eng)
    st = c.state()
    ps = [c.param(st, 'p%d' % i, c.gsize('sz_S')) for i in range(3)]
    ws = [c.param(st, 'w%d' % i, c.gsize('sz_W')) for i in range(5)]
    e = c.err(st)
    a = c.alloc(st, 'a', L(77))
    res = []
    eng.ends = []

    def post(s2, ret, thrown):
        eng.ends.append(s2)
        if not thrown and not errval(s2, e):
            res.append(s2)
    eng.enter(st, '@' + fn, ps + ws + [e, a])
    eng.run(fn, [st], post)
    for s2 in res:
        y = Lay()
        hs = [r for r, o in s2.mem.items() if o.kind == 'heap']
        if len(hs) != 1:
            continue
        h = s2.mem[hs[0]]
        if len(h.elems) != 1:
            continue
        y.block = h.copy()
        y.eoff = list(h.elems)[0]
        y.use = y.weak = y.bias = None
        y.al = [k for k, (z, v) in h.cells.items() if v == L(77)]
        for k, (z, v) in sorted(h.cells.items()):
            if v == L(3) and y.use is None:
                y.use = k
            elif v in (L(5), L(6)) and y.weak is None:
                y.weak = k
                y.bias = v.c - 5

        def cells(o):
            ref = [(k, v.off.c) for k, (z, v) in o.cells.items() if isinstance(v, P) and v.reg == hs[0]]
            return ref
        sc, wc = cells(s2.mem[ps[0].reg]), cells(s2.mem[ws[0].reg])
        if len(sc) != 2 or len(wc) != 2 or y.use is None or y.weak is None:
            continue
        y.sp, y.wp = None, None
        y.sp = [k for k, o in sc if o == max(o for _, o in sc)][0]
        y.sr = [k for k, o in sc if k != y.sp][0]
        y.voff = max(o for _, o in sc)
        y.wp = [k for k, o in wc if o == max(o for _, o in wc)][0]
        y.wr = [k for k, o in wc if k != y.wp][0]
        y.roff = min(o for _, o in sc)
        return y, eng
    return None, eng


def discover(mk):
    y, eng = setup(mk, 's_setup')
    if y is None:
        return None, eng
    lay = Lay()
    lay.E = y
    lay.D, e2 = setup(mk, 'd_setup')
    lay.N, e3 = setup(mk, 'n_setup')
    if lay.D is None or lay.N is None:
        return None, e2 if lay.D is None else e3
    # embedded weak pointer and successor of the self-referring object
    return lay, eng


LAYKEY = 'sp'
LAYKEYS = ('eoff', 'use', 'weak', 'bias', 'al', 'sp', 'sr', 'voff', 'wp', 'wr', 'roff')


def lay_save(lay, mk):
    d = {}
    for k in 'EDN':
        y = getattr(lay, k)
        d[k] = lay_json(y, LAYKEYS)
        d[k]['cells'] = sorted(y.block.cells)
        d[k]['bsize'] = y.block.size
    c = Ctx(mk())
    d['size'] = [c.gsize('sz_S'), c.gsize('sz_W')]
    return d


def fallback(mk, ref, eng0):
    c = Ctx(mk())
    if ref is None or [c.gsize('sz_S'), c.gsize('sz_W')] != ref['size']:
        return None
    lay = Lay()
    for k, fn in (('E', 's_setup'), ('D', 'd_setup'), ('N', 'n_setup')):
        y, eng = setup(mk, fn)
        if y is None:
            for objs in [list(s2.mem.values()) for s2 in eng.ends] + [eng.released]:
                for o in objs:
                    if o.kind == 'heap' and set(o.elems) <= {ref[k]['eoff']} and set(o.cells) >= set(ref[k]['cells']) and \
                            o.size == ref[k]['bsize'] and all(o.cells[i][1] == L(77) for i in ref[k]['al']):
                        y = Lay()
                        y.__dict__.update(ref[k])
                        y.block = o.copy()
                        y.block.cells = {i: o.cells[i] for i in ref[k]['cells']}
                        y.al = ref[k]['al']
        if y is None:
            return None
        setattr(lay, k, y)
    return lay


class Blk:
    """a control block with u strong and w weak references"""

    def __init__(s, st, y, name, u, w, aid, dead=False):
        s.y, s.name, s.u, s.w, s.aid, s.dead = y, name, u, w, aid, dead
        o = y.block.copy()
        o.alloc = (aid,) + tuple(o.alloc[1:])
        for k in y.al:
            o.cells[k] = (8, aid)
        for k, v in ((y.use, u), (y.weak, w if dead else w + y.bias)):
            z = y.block.cells[k][0]
            o.cells[k] = (z, v)
            st.assume(L(limit(z)) - v)
        o.elems = {} if dead else {y.eoff: ('$' + name, ZERO)}
        s.reg = st.new(o, name)

    def val(s):
        return P(s.reg, L(s.y.voff))

    def ref(s):
        return P(s.reg, L(s.y.roff))


def put(st, reg, base, y, kind, b, conv=0):
    o = st.mem[reg]
    pk, rk = (y.sp, y.sr) if kind == 's' else (y.wp, y.wr)
    o.cells[base + pk] = (8, NULL if b is None else P(b.reg, L(b.y.voff + conv)))
    o.cells[base + rk] = (8, NULL if b is None else b.ref())


def target(st, reg, base, y, kind, blocks, what, conv=0):
    """block a smart pointer refers to"""
    o = st.obj(reg)
    pk, rk = (y.sp, y.sr) if kind == 's' else (y.wp, y.wr)
    c1, c2 = o.pc(base + pk), o.pc(base + rk)
    if c1 is None or c2 is None or not isinstance(c1[1], P) or not isinstance(c2[1], P):
        raise Bad('rep', '%s is left indeterminate' % what)
    v, r = c1[1], c2[1]
    if r.reg is None:
        if v.reg is not None:
            raise Bad('rep', '%s refers to an object it has no share in' % what)
        return None
    for b in blocks:
        if r == b.ref():
            if v == b.val() or v == P(b.reg, L(b.y.voff + conv)):
                return b
            raise Bad('rep', '%s has a reference count of one object and the address of another' % what)
    raise Bad('rep', '%s refers to an unknown control block' % what)


class SC:
    def __init__(s, c, lay, mode):
        s.c, s.lay, s.mode = c, lay, mode


def make(c, lay, mode):
    return SC(c, lay, mode)


def check_block(st, b, du, dw, embedded=None):
    """b now has u+du strong and w+dw weak references"""
    u, w = b.u + du, b.w + dw
    y = b.y
    if not st.decide(u) or not st.decide(w):
        raise Unk('specification')
    alive = st.decide(u - 1) and not b.dead
    o = st.mem.get(b.reg)
    if not alive and not st.decide(w - 1):
        if o is not None:
            raise Bad('block', 'the control block is not released although the last reference is gone')
        return
    if o is None:
        raise Bad('block', 'the control block is released while references to it exist')
    e = o.elems.get(y.eoff)
    if alive and e is None:
        raise Bad('life', 'the object is destroyed while it is still shared')
    if not alive and e is not None:
        raise Bad('life', 'the object is not destroyed although its last owner is gone')
    if alive and e[0] != '$' + b.name:
        raise Bad('sem', 'the shared object is modified')
    uc, wc = o.nc(y.use), o.nc(y.weak)
    if uc is None or wc is None or not isinstance(uc[1], L) or not isinstance(wc[1], L):
        raise Bad('rep', 'reference counts are indeterminate')
    if not st.decide_eq(uc[1] - (u if alive else ZERO)):
        raise Bad('count', 'the number of owners is %r, expected %r' % (uc[1], u))
    if not st.decide_eq(wc[1] - (w + y.bias if alive else w)):
        raise Bad('count', 'the number of weak references is %r, expected %r' % (wc[1], w))


def counts(st, name, own, weak):
    """symbolic counts of a block, of which own strong and weak references are among the parameters"""
    u, w = sym(name + '.u'), sym(name + '.w')
    st.assume(u - max(own, 0))
    st.assume(MAXC - u)
    st.assume(w - weak)
    st.assume(MAXC - w)
    return u, w


def sop(name, params, after, ret=None, y='E', scope='count', conv=(), err=None, raw=(), gone=(), cond=None):
    """params: list of (name, kind 's'|'w'); generates every aliasing and emptiness combination.
    after(before: dict) -> dict of targets (or list of alternatives);"""
    @drv(name, scope)
    def _(k):
        lay = k.lay
        live = [p for p in params if p[0] not in raw]

        def combos(i):
            if i == len(live):
                yield {}
                return
            for rest in combos(i + 1):
                n, kd = live[i]
                opts = ['A', None]
                if i > 0:
                    opts = ['A', 'B', None] if conv == () else ['B', None]
                if kd == 'w':
                    opts = opts + [x + '!' for x in opts if x]
                for x in opts:
                    d = dict(rest)
                    d[n] = x
                    yield d
        for cb in combos(0):
            used = {v.rstrip('!') for v in cb.values() if v}
            bad = False
            for x in used:
                dead = [v for v in cb.values() if v == x + '!']
                if dead and any(v == x and dict(params)[n] == 's' for n, v in cb.items()):
                    bad = True
                if dead and any(v == x for v in cb.values()):
                    bad = True
            if bad or (cond and not cond(cb)):
                continue
            yield from one(k, cb)

    def one(k, cb):
        lay = k.lay
        st = k.c.state()
        kinds = dict(params)
        blocks = {}
        for x in sorted({v.rstrip('!') for v in cb.values() if v}):
            dead = any(v == x + '!' for v in cb.values())
            ns = sum(1 for n, v in cb.items() if v == x and kinds[n] == 's')
            nw = sum(1 for n, v in cb.items() if v and v.rstrip('!') == x and kinds[n] == 'w')
            isconv = any(v == x and n in conv for n, v in cb.items())
            yy = lay.D if isconv else getattr(lay, y)
            if dead:
                u, w = ZERO, sym(x + '.w')
                st.assume(w - nw)
                st.assume(MAXC - w)
            else:
                u, w = counts(st, x, max(ns, 1), nw)
            blocks[x] = Blk(st, yy, x, u, w, sym('al' + x), dead)
        args = []
        before = {}
        for n, kd in params:
            p = k.c.param(st, n, k.c.gsize('sz_S' if kd == 's' else 'sz_W'))
            args.append(p)
            if n in raw:
                continue
            b = blocks[cb[n].rstrip('!')] if cb[n] else None
            put(st, p.reg, 0, getattr(lay, y), kd, b)
            before[n] = b

        def post(st, ret_, th):
            normal(th)
            alts = after(dict(before))
            if not isinstance(alts, list):
                alts = [alts]
            got = {}
            for n, kd in params:
                if n not in gone:
                    got[n] = target(st, ('o', n), 0, getattr(lay, y), kd, blocks.values(), n, lay.D.eoff - lay.D.voff)
            if got not in alts:
                raise Bad('sem', 'after the operation %s' % ', '.join('%s refers to %s, expected %s' % (n, b and b.name, alts[0][n] and alts[0][n].name)
                                                                      for n, b in got.items() if b is not alts[0].get(n)))
            for b in blocks.values():
                du = dw = 0
                for n, kd in params:
                    d = (1 if got.get(n) is b else 0) - (1 if before.get(n) is b else 0)
                    if kd == 's':
                        du += d
                    else:
                        dw += d
                check_block(st, b, du, dw)
            if any(o.kind == 'heap' and r not in [b.reg for b in blocks.values()] for r, o in st.mem.items()):
                raise Bad('block', 'a block is leaked')
            if conv:
                # address must be converted, not copied
                for n, kd in params:
                    if n not in conv and got.get(n) is not None and got[n].y is lay.D:
                        v = st.obj(('o', n)).cells[lay.E.sp][1]
                        if v != P(got[n].reg, L(lay.D.eoff)):
                            raise Bad('sem', 'conversion to a base class yields a wrong address')
            if ret:
                ret(k, st, ret_, before, blocks)
        yield st, args, post


def need(v, cond, msg):
    if not cond:
        raise Bad(v, msg)


S1, S2 = [('p', 's')], [('p', 's'), ('o', 's')]
W1, W2 = [('w', 'w')], [('w', 'w'), ('o', 'w')]
keep = lambda b: b
sop('s_ctor', S1, lambda b: {'p': None}, raw=('p',))
sop('s_ctor_null', S1, lambda b: {'p': None}, raw=('p',))
sop('s_ctor_copy', S2, lambda b: {'p': b['o'], 'o': b['o']}, raw=('p',))
sop('s_ctor_conv', S2, lambda b: {'p': b['o'], 'o': b['o']}, raw=('p',), conv=('o',))
sop('s_ctor_move', S2, lambda b: {'p': b['o'], 'o': None}, raw=('p',))
sop('s_dtor', S1, lambda b: {}, gone=('p',))
sop('s_assign', S2, lambda b: {'p': b['o'], 'o': b['o']})
sop('s_assign_conv', S2, lambda b: {'p': b['o'], 'o': b['o']}, conv=('o',))
sop('s_assign_move', S2, lambda b: {'p': b['o'], 'o': None})
sop('s_assign_move_conv', S2, lambda b: {'p': b['o'], 'o': None}, conv=('o',))
sop('s_assign_null', S1, lambda b: {'p': None})
sop('s_reset', S1, lambda b: {'p': None})
sop('s_swap', S2, lambda b: {'p': b['o'], 'o': b['p']})


def r_val(k, st, ret, before, blocks):
    b = before['p']
    need('sem', isinstance(ret, P) and (ret.reg is None if b is None else ret == b.val()), 'a wrong address is returned')


def r_use(name):
    def f(k, st, ret, before, blocks):
        b = before[name]
        u = ZERO if b is None or b.dead else b.u
        need('count', isinstance(ret, L) and st.decide_eq(ret - u), 'use_count is wrong')
    return f


def r_bool(f, name='p'):
    def g(k, st, ret, before, blocks):
        b = before[name]
        u = ZERO if b is None or b.dead else b.u
        need('count', isinstance(ret, L) and st.decide_eq(ret - 1) == f(st, u), 'a wrong answer is returned')
    return g


ne = lambda cb: cb['p'] is not None
sop('s_get', S1, keep, r_val)
sop('s_deref', S1, keep, r_val, cond=ne)
sop('s_arrow', S1, keep, r_val, cond=ne)
sop('s_use_count', S1, keep, r_use('p'))
sop('s_unique', S1, keep, r_bool(lambda st, u: st.decide_eq(u - 1)))
sop('s_bool', S1, keep, r_bool(lambda st, u: st.decide(u - 1)))
sop('w_ctor', W1, lambda b: {'w': None}, raw=('w',))
sop('w_ctor_move', W2, lambda b: {'w': b['o'], 'o': None}, raw=('w',))
sop('w_ctor_copy', W2, lambda b: {'w': b['o'], 'o': b['o']}, raw=('w',))
sop('w_ctor_shared', [('w', 'w'), ('p', 's')], lambda b: {'w': b['p'], 'p': b['p']}, raw=('w',))
sop('w_dtor', W1, lambda b: {}, gone=('w',))
sop('w_reset', W1, lambda b: {'w': None})
sop('w_assign', W2, lambda b: {'w': b['o'], 'o': b['o']})
sop('w_assign_move', W2, lambda b: {'w': b['o'], 'o': None})
sop('w_assign_shared', [('w', 'w'), ('p', 's')], lambda b: {'w': b['p'], 'p': b['p']})
sop('w_expired', W1, keep, r_bool(lambda st, u: not st.decide(u - 1), 'w'))
sop('w_use_count', W1, keep, r_use('w'))
sop('w_lock', [('w', 'w'), ('p', 's')], lambda b: {'w': b['w'], 'p': None if b['w'] is None or b['w'].dead else b['w']}, raw=('p',))


def selfop(name, kd, drvname):
    """both arguments are the same object"""
    @drv2(drvname)
    def _(k):
        for x in ('A', None) if kd == 's' else ('A', 'A!', None):
            st = k.c.state()
            y = k.lay.E
            b = None
            if x:
                if x.endswith('!'):
                    u, w = ZERO, sym('A.w')
                    st.assume(w - 1)
                    st.assume(MAXC - w)
                else:
                    u, w = counts(st, 'A', 1, 1 if kd == 'w' else 0)
                b = Blk(st, y, 'A', u, w, sym('alA'), x.endswith('!'))
            p = k.c.param(st, 'p', k.c.gsize('sz_S' if kd == 's' else 'sz_W'))
            put(st, p.reg, 0, y, kd, b)

            def post(st, ret, th, b=b, p=p):
                normal(th)
                bl = [b] if b else []
                t = target(st, p.reg, 0, k.lay.E, kd, bl, 'p')
                if t is not b and not ('move' in name and t is None):
                    raise Bad('sem', 'self-assignment loses the reference')
                if b:
                    d = 0 if t is b else -1
                    check_block(st, b, d if kd == 's' else 0, d if kd == 'w' else 0)
            yield st, [p, p], post


_more = {}


def drv2(name):
    def deco(f):
        old = DRV[name][0]

        def both(k):
            yield from old(k)
            yield from f(k)
        DRV[name] = (both,) + DRV[name][1:]
        return f
    return deco


selfop('assign', 's', 's_assign')
selfop('assign move', 's', 's_assign_move')
selfop('swap', 's', 's_swap')
selfop('assign', 'w', 'w_assign')
selfop('assign move', 'w', 'w_assign_move')


# ---- creation ---------------------------------------------------------------------------------------------------
def mkdrv(name, args, val, alloc=True, over=False):
    @drv(name, 'make')
    def _(k):
        for x in (('A', None) if over else (None,)):
            st = k.c.state()
            y = k.lay.E
            p = k.c.param(st, 'p', k.c.gsize('sz_S'))
            b = None
            if over:
                if x:
                    u, w = counts(st, 'A', 1, 0)
                    b = Blk(st, y, 'A', u, w, sym('alA'))
                put(st, p.reg, 0, y, 's', b)
            e = k.c.err(st)
            al = [k.c.alloc(st, 'al', sym('a'))] if alloc else []
            extra, intact = args(k, st)

            def post(st, ret, th, b=b, p=p, e=e, intact=intact):
                normal(th)
                args_intact(st, intact)
                bad = check_err(st, e, ('self4',))
                hs = [r for r, o in st.mem.items() if o.kind == 'heap' and (b is None or r != b.reg)]
                o = st.obj(p.reg)
                c1, c2 = o.pc(y.sp), o.pc(y.sr)
                if c1 is None or c2 is None or not isinstance(c1[1], P) or not isinstance(c2[1], P):
                    raise Bad('rep', 'the returned pointer is indeterminate')
                if bad:
                    if c1[1].reg is not None or c2[1].reg is not None:
                        raise Bad('fail', 'a failed creation returns a pointer that is not empty')
                    if hs:
                        raise Bad('block', 'a failed creation loses a block')
                else:
                    if len(hs) != 1:
                        raise Bad('block', 'blocks are lost by the creation')
                    h = st.mem[hs[0]]
                    if alloc and not st.decide_eq(h.alloc[0] - sym('a')):
                        raise Bad('block', 'the control block comes from another allocator than the given one')
                    if c1[1] != P(hs[0], L(y.voff)) or c2[1] != P(hs[0], L(y.roff)):
                        raise Bad('rep', 'the returned pointer does not refer to the created object')
                    if h.elems.get(y.eoff) is None or h.elems[y.eoff][0] != val:
                        raise Bad('sem', 'the created object has value %r, expected %s' % (h.elems.get(y.eoff), val))
                    if h.cells[y.use][1] != ONE or h.cells[y.weak][1] != L(y.bias):
                        raise Bad('count', 'a new object starts with wrong reference counts')
                if b:
                    check_block(st, b, -1, 0)
            yield st, [p, e] + al + extra, post


def _mx(k, st):
    x = k.c.elem(st, 'x', X)
    return [x], [(x, X)]


mkdrv('s_make', _mx, '$x')
mkdrv('s_make_arg', lambda k, st: ([sym('arg')], []), '$argarg')
mkdrv('s_make_none', lambda k, st: ([], []), '$default')
mkdrv('s_make_default_alloc', _mx, '$x', alloc=False)
mkdrv('s_make_over', _mx, '$x', over=True)


# ---- objects that hold references themselves ----------------------------------------------------------------------
def nd(k):
    y = k.lay.N
    # members of the node, relative to the start of the value: element, weak self, strong next
    base_w = y.voff + ESZ
    base_s = base_w + k.c.gsize('sz_W')
    return y, base_w, base_s


def ndop(name, params, final, nonempty=()):
    """p -> A, A.self -> A or empty, A.next -> B or empty"""
    @drv(name, 'count')
    def _(k):
        y, bw, bs = nd(k)
        opts = []
        for pa in ('A', None):
            for slf in (True, False):
                for nx in ('B', None):
                    for po in (['A', 'C', None] if len(params) > 1 and params[1][1] == 'live' else [None]):
                        if pa is None and (slf or nx) and po != 'A':
                            continue
                        if pa is None and 'p' in nonempty:
                            continue
                        opts.append((pa, slf, nx, po))
        for pa, slf, nx, po in opts:
            st = k.c.state()
            blocks = {}
            nA = int(pa == 'A') + int(po == 'A')
            if nA:
                u, w = counts(st, 'A', nA, int(slf))
                A = blocks['A'] = Blk(st, y, 'A', u, w, sym('alA'))
            if nx and nA:
                u, w = counts(st, 'B', 1, 0)
                B = blocks['B'] = Blk(st, y, 'B', u, w, sym('alB'))
                put(st, B.reg, bw, y, 'w', None)
                put(st, B.reg, bs, y, 's', None)
            if po == 'C':
                u, w = counts(st, 'C', 1, 0)
                C = blocks['C'] = Blk(st, y, 'C', u, w, sym('alC'))
                put(st, C.reg, bw, y, 'w', None)
                put(st, C.reg, bs, y, 's', None)
            if nA:
                put(st, A.reg, bw, y, 'w', A if slf else None)
                put(st, A.reg, bs, y, 's', blocks.get('B') if nx else None)
            args = []
            for n, kd in params:
                p = k.c.param(st, n, k.c.gsize('sz_S'))
                args.append(p)
                if kd == 'live':
                    put(st, p.reg, 0, y, 's', blocks.get(pa if n == 'p' else po))
            before = {'p': blocks.get(pa), 'o': blocks.get(po), 'self': blocks.get('A') if slf and nA else None, 'next': blocks.get('B') if nx and nA else None}

            def post(st, ret, th, before=before, blocks=blocks, nA=nA):
                normal(th)
                fin = final(dict(before))
                bl = list(blocks.values())
                for n, kd in params:
                    if n in fin:
                        t = target(st, ('o', n), 0, y, 's', bl, n)
                        if t is not fin[n]:
                            raise Bad('sem', 'after the operation %s refers to %s, expected %s' % (n, t and t.name, fin[n] and fin[n].name))
                A = blocks.get('A')
                du = {b: 0 for b in bl}
                dw = {b: 0 for b in bl}
                for n in ('p', 'o'):
                    if before[n]:
                        du[before[n]] -= 1
                    if fin.get(n):
                        du[fin[n]] += 1
                if A:
                    # members of A, as they were replaced by the operation
                    ns, nn = fin.get('self', before['self']), fin.get('next', before['next'])
                    if before['self']:
                        dw[before['self']] -= 1
                    if before['next']:
                        du[before['next']] -= 1
                    if st.decide(A.u + du[A] - 1):
                        if ns:
                            dw[ns] += 1
                        if nn:
                            du[nn] += 1
                        t = target(st, A.reg, bw, y, 'w', bl, 'the weak member')
                        t2 = target(st, A.reg, bs, y, 's', bl, 'the strong member')
                        if t is not ns or t2 is not nn:
                            raise Bad('sem', 'a member of the shared object refers to a wrong object')
                for b in bl:
                    check_block(st, b, du[b], dw[b])
            yield st, args, post


P1, P2 = [('p', 'live')], [('p', 'live'), ('o', 'live')]
ndop('n_dtor', P1, lambda b: {})
ndop('n_reset', P1, lambda b: {'p': None})
ndop('n_assign', P2, lambda b: {'p': b['o'], 'o': b['o']})
ndop('n_assign_move', P2, lambda b: {'p': b['o'], 'o': None})
ndop('n_advance', P1, lambda b: {'p': b['next']}, ('p',))
ndop('n_advance_move', P1, lambda b: {'p': b['next'], 'next': None}, ('p',))
ndop('n_set_self', P1, lambda b: {'p': b['p'], 'self': b['p']}, ('p',))
ndop('n_drop_self', P1, lambda b: {'p': b['p'], 'self': None}, ('p',))
ndop('n_lock_self', [('p', 'live'), ('o', 'raw')], lambda b: {'p': b['p'], 'o': b['self']}, ('p',))
