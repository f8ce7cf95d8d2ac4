"""Abstract interpreter over LLVM IR: shape / typestate / ownership domain with linear facts.

A state is a symbolic heap (flat objects, element arrays made of segments, chunks of linked nodes) plus a
conjunction of linear facts.  Loops are closed by subsumption and widening, so a finished run is a fixpoint that
covers every input size; states that never went through widening are kept apart ("exact"), and only those may turn a
failed obligation into a reported violation."""
import time
from math import gcd
from .lin import L, Facts, sym, lin, ZERO, ONE, tight
from . import ir

W64 = 1 << 64


class Fork(Exception):
    def __init__(s, alts):
        s.alts = alts


class Dead(Exception):
    pass


class Bad(Exception):
    """a definite breach of an obligation in this state"""
    def __init__(s, cat, msg):
        Exception.__init__(s, cat + ': ' + msg)
        s.cat, s.msg = cat, msg


class Unk(Exception):
    """the domain cannot follow this construct"""


class _T:
    def __init__(s, n):
        s.n = n

    def __repr__(s):
        return s.n


TOP = _T('TOP')
UNINIT = _T('UNINIT')
LZ = _T('LZ')      # link whose target is described by an unopened chunk; resolved when it is read


class P:
    __slots__ = ('reg', 'off')

    def __init__(s, reg, off=ZERO):
        s.reg, s.off = reg, off

    def __eq__(s, o):
        return isinstance(o, P) and s.reg == o.reg and s.off == o.off

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        return hash((s.reg, s.off))

    def __repr__(s):
        if s.reg is None:
            return 'null' + ('' if s.off == ZERO else '+%r' % s.off)
        return '&%s%s' % (rname(s.reg), '' if s.off == ZERO else '+%r' % s.off)


def rname(r):
    if r is None:
        return 'null'
    if r[0] == 'n':
        return '%s[%r]' % (r[1], r[2])
    return str(r[1])


NULL = P(None)


class Agg:
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = tuple(v)

    def __eq__(s, o):
        return isinstance(o, Agg) and s.v == o.v

    def __hash__(s):
        return hash(s.v)

    def __repr__(s):
        return 'Agg%r' % (s.v,)


def mapv(v, fl):
    if isinstance(v, L):
        return fl(v)
    if isinstance(v, P):
        return P(mapr(v.reg, fl), fl(v.off))
    if isinstance(v, Agg):
        return Agg([mapv(x, fl) for x in v.v])
    return v


def mapr(r, fl):
    if r is not None and r[0] == 'n':
        return ('n', r[1], fl(r[2]))
    return r


class Obj:
    """cells: off -> (size, value); elems: off -> (src, idx); segs: [(lo, hi, None | (src, base))]"""
    __slots__ = ('kind', 'size', 'cells', 'elems', 'segs', 'esz', 'alloc', 'name', 'depth', 'zero')

    def __init__(s, kind, size, name='', depth=0):
        s.kind, s.size, s.name, s.depth = kind, size, name, depth
        s.cells = {}
        s.elems = {}
        s.segs = None
        s.esz = None
        s.alloc = None
        s.zero = False

    def pc(s, off):
        """cell holding a pointer; zero filled memory reads as a null pointer"""
        c = s.cells.get(off)
        if c is None and s.zero or c is not None and c[0] == 8 and isinstance(c[1], L) and c[1] == ZERO:
            return (8, NULL)
        return c

    def nc(s, off, size=8):
        """cell holding a number"""
        c = s.cells.get(off)
        if c is None:
            if s.zero:
                return (size, ZERO)
            c = s.cells.get(off & ~7)
            if c is not None and c[0] == 8 and isinstance(c[1], L) and c[1] == ZERO:
                return (size, ZERO)
            return None
        if isinstance(c[1], P) and c[1] == NULL or c[0] == 8 and size < 8 and isinstance(c[1], L) and c[1] == ZERO:
            return (size, ZERO)
        return c

    def copy(s):
        o = Obj(s.kind, s.size, s.name, s.depth)
        o.cells = dict(s.cells)
        o.elems = dict(s.elems)
        o.segs = s.segs
        o.esz = s.esz
        o.alloc = s.alloc
        o.zero = s.zero
        return o

    def map(s, fl):
        o = Obj(s.kind, fl(s.size) if isinstance(s.size, L) else s.size, s.name, s.depth)
        o.cells = {k: (z, mapv(v, fl)) for k, (z, v) in sorted(s.cells.items())}
        o.elems = {k: (a, fl(b)) for k, (a, b) in sorted(s.elems.items())}
        if s.segs is not None:
            o.segs = tuple((fl(a), fl(b), None if c is None else (c[0], fl(c[1]))) for a, b, c in s.segs)
        o.esz = s.esz
        o.alloc = None if s.alloc is None else tuple(fl(x) if isinstance(x, L) else x for x in s.alloc)
        o.zero = s.zero
        return o

    def __repr__(s):
        return 'Obj(%s %s cells=%r elems=%r segs=%r alloc=%r)' % (s.kind, s.name, s.cells, s.elems, s.segs, s.alloc)


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'call', 'exc', 'prev', 'hook')

    def __init__(s, fn, regs, call):
        s.fn, s.regs, s.call = fn, regs, call
        s.blk = fn.entry
        s.ip = 0
        s.exc = None
        s.prev = None
        s.hook = None

    def copy(s):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.ip, f.regs, f.call, f.exc, f.prev, f.hook = \
            s.fn, s.blk, s.ip, dict(s.regs), s.call, s.exc, s.prev, s.hook
        return f


class State:
    def __init__(s):
        s.frames = []
        s.mem = {}
        s.chunks = ()
        s.facts = Facts()
        s.sub = {}
        s.ghost = {}
        s.order = {}
        s.ctr = [0]
        s.ch = []
        s.chi = 0
        s.wide = False
        s.vis = {}
        s.fams = {}
        s.trace = ()

    def clone(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.chunks = s.chunks
        n.facts = s.facts
        n.sub = s.sub
        n.ghost = dict(s.ghost)
        n.order = s.order
        n.ctr = list(s.ctr)
        n.ch = list(s.ch)
        n.chi = 0
        n.wide = s.wide
        n.vis = dict(s.vis)
        n.fams = dict(s.fams)
        n.trace = s.trace
        return n

    def snap(s):
        return (list(s.frames), dict(s.mem), s.chunks, s.facts, s.sub, dict(s.ghost), s.order, s.ctr[0],
                s.fams, s.frames[-1].blk if s.frames else None, s.frames[-1].ip if s.frames else 0)

    def restore(s, t):
        (s.frames, s.mem, s.chunks, s.facts, s.sub, s.ghost, s.order, s.ctr[0], s.fams, b, i) = t
        if s.frames:
            s.frames[-1].blk = b
            s.frames[-1].ip = i
        s.chi = 0

    # ---- facts -------------------------------------------------------------------------------------------------
    def fresh(s, p='~'):
        s.ctr[0] += 1
        return sym('%s%03d' % (p, s.ctr[0]))

    def norm_ptr(s, p):
        return mapv(p, s.norm)

    def norm(s, l):
        if s.sub:
            return l.sub(s.sub)
        return l

    def assume(s, l):
        l = tight(s.norm(lin(l)))
        if not l.t:
            if l.c < 0:
                raise Dead()
            return
        if s.facts.entails(l):
            return
        if s.facts.entails(-l - 1):
            raise Dead()
        eq = s.facts.entails(-l)
        s.facts = s.facts.add(l)
        if eq:
            s.solve(l)

    def solve(s, l):
        """l == 0 is known: eliminate one symbol, newest flexible first"""
        best = None
        for k, v in l.t:
            if abs(v) == 1:
                r = (k.startswith('~'), k)
                if best is None or r > best[0]:
                    best = (r, k, v)
        if best is None:
            return
        _, k, v = best
        e = L(l.c, tuple(x for x in l.t if x[0] != k)) * (-v)
        s.substitute(k, e)

    def substitute(s, k, e):
        m = {k: e}
        fl = lambda x: x.sub(m)
        s.facts = s.facts.subst(m)
        if any(not f.t and f.c < 0 for f in s.facts.s):
            raise Dead()
        ns = {a: b.sub(m) for a, b in s.sub.items()}
        ns[k] = e
        s.sub = ns
        s.mapall(fl)

    def assume_eq(s, l):
        l = s.norm(lin(l))
        if not l.t:
            if l.c:
                raise Dead()
            return
        if s.facts.entails(l - 1) or s.facts.entails(-l - 1):
            raise Dead()
        best = any(abs(v) == 1 for _, v in l.t)
        if best:
            s.solve(l)
        else:
            s.facts = s.facts.add(l).add(-l)
        if not s.facts.feasible():
            raise Dead()

    def mapall(s, fl):
        fr = []
        for f in s.frames:
            g = f.copy()
            g.regs = {k: mapv(v, fl) for k, v in f.regs.items()}
            fr.append(g)
        s.frames = fr
        s.mem = {mapr(r, fl): o.map(fl) for r, o in s.mem.items()}
        s.chunks = tuple(c.map(fl) for c in s.chunks)
        s.ghost = {k: mapg(v, fl) for k, v in s.ghost.items()}

    def holds(s, l):
        return s.facts.entails(s.norm(lin(l)))

    def decide(s, l):
        """l >= 0 ?"""
        l = tight(s.norm(lin(l)))
        if s.facts.entails(l):
            return True
        if s.facts.entails(-l - 1):
            return False
        raise Fork([('f', (l,)), ('f', (-l - 1,))])

    def decide_eq(s, l):
        l = s.norm(lin(l))
        if not l.t:
            return l.c == 0
        fa = s.facts
        if fa.entails(l - 1) or fa.entails(-l - 1):
            return False
        if fa.entails(l) and fa.entails(-l):
            return True
        alts = [('e', l)]
        alts.append(('f', (l - 1,)))
        alts.append(('f', (-l - 1,)))
        raise Fork(alts)

    def is_eq(s, l):
        l = s.norm(lin(l))
        if not l.t:
            return l.c == 0
        return s.facts.entails(l) and s.facts.entails(-l)

    def choose(s, opts):
        if s.chi < len(s.ch):
            r = s.ch[s.chi]
            s.chi += 1
            return r
        raise Fork([('c', o) for o in opts])

    def apply(s, alt):
        if alt[0] == 'c':
            s.ch = s.ch + [alt[1]]
        elif alt[0] == 'e':
            s.assume_eq(alt[1])
        elif alt[0] == 'fn':
            alt[1](s)
        else:
            for l in alt[1]:
                s.assume(l)

    # ---- memory ------------------------------------------------------------------------------------------------
    def new(s, obj, name=None):
        if name is None:
            s.ctr[0] += 1
            name = '%s#%d' % (obj.kind[0], s.ctr[0])
        r = ('o', name)
        s.mem[r] = obj
        return r

    def where(s, reg):
        """(key, None) of the object that holds a region, or (normalised region, chunk) while it is still summarised"""
        if reg is None:
            raise Bad('ub', 'access through a null pointer')
        if reg in s.mem:
            return reg, None
        if reg[0] == 'n':
            idx = s.norm(reg[2])
            r2 = ('n', reg[1], idx)
            if r2 in s.mem:
                return r2, None
            for c in s.chunks:
                if c.names(s, reg[1], idx):
                    return r2, c
            for r in list(s.mem):
                if r[0] == 'n' and r[1] == reg[1] and s.decide_eq(r[2] - idx):
                    r3 = ('n', r[1], s.norm(r[2]))
                    return (r3, None) if r3 in s.mem else s.where(('n', reg[1], s.norm(idx)))
            for c in s.chunks:
                if c.owns(s, reg[1], idx):
                    return r2, c
            raise Bad('ub', 'access to a node that is not part of the structure any more (%s)' % rname(reg))
        if reg[0] == 'g':
            o = s.eng.global_obj(s, reg)
            if o is not None:
                s.mem[reg] = o
                return reg, None
            raise Unk('global ' + rname(reg))
        if reg[0] == 'f':
            raise Unk('data access to code')
        raise Bad('ub', 'access to memory that has been released or left its scope (%s)' % rname(reg))

    def key(s, reg):
        """resolve a region to the object that holds it, materialising nodes out of chunks"""
        for _ in range(20):
            k, c = s.where(reg)
            if c is None:
                return k
            c.focus(s, k[1], k[2])
            reg = ('n', k[1], s.norm(k[2]))
        raise Unk('node cannot be materialised')

    def obj(s, reg):
        return s.mem[s.key(reg)]

    def ptr(s, v):
        if isinstance(v, P):
            return v
        if v is UNINIT:
            raise Bad('ub', 'use of an uninitialised value')
        if isinstance(v, L) and s.norm(v) == ZERO:
            return NULL
        raise Unk('pointer expected, got %r' % (v,))

    def bounds(s, o, off, size):
        if not s.decide(off):
            raise Bad('ub', 'access in front of an object')
        if not s.decide(lin(o.size) - off - size):
            raise Bad('ub', 'access past the end of an object')

    def load(s, p, size, isptr):
        p = s.ptr(p)
        k, ch = s.where(p.reg)
        if ch is not None:
            v = ch.peek(s, k, s.norm(p.off), size)
            if v is not None:
                return v
            k = s.key(k)
        p = P(k, s.norm(p.off))
        o = s.mem[k]
        s.bounds(o, p.off, size)
        if o.segs is not None:
            raise Unk('scalar read inside an element array')
        if not p.off.const:
            raise Unk('symbolic offset')
        off = p.off.c
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            if c[1] is LZ:
                return s.eng.hooks.force(s, k, off)
            if isptr and isinstance(c[1], L) and c[1] == ZERO:
                return NULL
            return c[1]
        hit = [(a, z, v) for a, (z, v) in o.cells.items() if a < off + size and off < a + z]
        if hit:
            if all(isinstance(v, L) and v == ZERO for a, z, v in hit) and (
                    o.zero or sum(min(a + z, off + size) - max(a, off) for a, z, v in hit) == size):
                return NULL if isptr else ZERO
            return TOP
        for a in o.elems:
            if a < off + size and off < a + s.eng.ESZ:
                raise Unk('scalar read inside an element')
        if o.zero:
            return NULL if isptr else ZERO
        return UNINIT

    def store(s, p, size, v):
        p = s.ptr(p)
        k, ch = s.where(p.reg)
        off = s.norm(p.off)
        if ch is not None:
            if ch.poke(s, k, off, size, v):
                return
            k = s.key(k)
        o = s.mem[k]
        s.bounds(o, off, size)
        if o.kind == 'const':
            raise Bad('ub', 'write to a read-only object')
        if o.segs is not None:
            raise Unk('scalar write inside an element array')
        if not off.const:
            raise Unk('symbolic offset')
        off = off.c
        o = o.copy()
        for a in list(o.cells):
            z, x = o.cells[a]
            if a < off + size and off < a + z and (a != off or z > size):
                if a != off or x is not LZ:
                    del o.cells[a]
                    if isinstance(x, L) and x == ZERO:
                        if a < off:
                            o.cells[a] = (off - a, ZERO)
                        if off + size < a + z:
                            o.cells[off + size] = (a + z - off - size, ZERO)
        for a in o.elems:
            if a < off + size and off < a + s.eng.ESZ:
                raise Unk('scalar write inside an element')
        c = o.cells.get(off)
        if c is not None and c[1] is LZ:
            s.eng.hooks.force(s, k, off)
            o = s.mem[k].copy()
        o.cells[off] = (size, v)
        s.mem[k] = o

    # ---- elements ----------------------------------------------------------------------------------------------
    def eloc(s, p):
        p = s.ptr(p)
        k, ch = s.where(p.reg)
        off = s.norm(p.off)
        if ch is not None:
            if ch.elem_off is not None and off == L(ch.elem_off):
                return (k, off.c)
            k = s.key(k)
        o = s.mem[k]
        if o.segs is not None:
            i = off.div(o.esz)
            if i is None:
                raise Bad('ub', 'misaligned element address')
            if not s.decide(i):
                raise Bad('ub', 'element in front of the storage')
            if not s.decide(s.norm(lin(o.alloc[1])) - i - 1):
                raise Bad('ub', 'element past the end of the storage')
            return (k, i)
        if not off.const:
            raise Unk('symbolic offset')
        s.bounds(o, off, s.eng.ESZ)
        return (k, off.c)

    def eget(s, loc):
        k, i = loc
        k, ch = s.where(k)
        if ch is not None:
            if ch.elem_off is not None and i == ch.elem_off:
                return ch.elem(k)
            k = s.key(k)
        o = s.mem[k]
        if o.segs is None:
            return o.elems.get(i)
        i = s.norm(i)
        for lo, hi, c in o.segs:
            if s.decide(hi - i - 1):
                if c is None:
                    return None
                return (c[0], ZERO if isconst(c[0]) else c[1] + i)
        raise Bad('ub', 'element past the end of the storage')

    def eset(s, loc, v):
        k, i = loc
        k = s.key(k)
        o = s.mem[k]
        if o.segs is None:
            o = o.copy()
            if v is None:
                o.elems.pop(i, None)
            else:
                for a in list(o.cells):
                    if a < i + s.eng.ESZ and i < a + o.cells[a][0]:
                        del o.cells[a]
                o.elems[i] = v
            s.mem[k] = o
            return
        i = s.norm(i)
        out = []
        done = False
        for lo, hi, c in o.segs:
            if not done and s.decide(hi - i - 1):
                nc = None if v is None else (v[0], ZERO if isconst(v[0]) else v[1] - i)
                out += [(lo, i, c), (i, i + 1, nc), (i + 1, hi, c)]
                done = True
            else:
                out.append((lo, hi, c))
        o = o.copy()
        o.segs = s.tidy(out)
        s.mem[k] = o

    def tidy(s, segs):
        out = []
        for lo, hi, c in segs:
            lo, hi = s.norm(lo), s.norm(hi)
            if lo == hi or s.facts.entails(lo - hi):
                continue
            if c is not None:
                c = (c[0], s.norm(c[1]))
            if out and (out[-1][2] == c or c and out[-1][2] and not isconst(c[0]) and out[-1][2][0] == c[0]
                        and s.is_eq(out[-1][2][1] - c[1])):
                out[-1] = (out[-1][0], hi, c)
            else:
                out.append((lo, hi, c))
        return tuple(out)

    def word(s, reg, lo, hi):
        """contents of elements [lo, hi) as pieces (src, from, to) with None for raw memory"""
        o = s.obj(reg)
        out = []
        for a, b, c in o.segs:
            if not s.decide(b - lo - 1):
                continue
            if not s.decide(hi - a - 1):
                break
            x = a if s.decide(a - lo) else lo
            y = b if s.decide(hi - b) else hi
            if not s.decide(y - x - 1):
                continue
            if c is None:
                out.append((None, x, y))
            else:
                out.append((c[0], c[1] + x, c[1] + y) if not isconst(c[0]) else (c[0], ZERO, y - x))
        return out


def isconst(src):
    return src[0] in '$!'


def mapg(v, fl):
    if isinstance(v, L):
        return fl(v)
    if isinstance(v, P):
        return mapv(v, fl)
    if isinstance(v, tuple):
        return tuple(mapg(x, fl) for x in v)
    if isinstance(v, Agg):
        return mapv(v, fl)
    return v


class Violation:
    def __init__(s, cat, msg, where, stack, wide, model, facts, drv, dump=''):
        s.cat, s.msg, s.where, s.stack, s.wide, s.model, s.facts, s.drv = cat, msg, where, stack, wide, model, facts, drv
        s.dump = dump

    def d(s):
        return dict(category=s.cat, message=s.msg, where=s.where, stack=s.stack, exact=not s.wide, witness=s.model,
                    driver=s.drv)


class Engine:
    ESZ = 24
    MAXSTEPS = 6000000

    def __init__(s, mod, hooks, peel=2, tlimit=300, deb=None):
        s.m = mod
        s.hooks = hooks
        s.peel = peel
        s.total = s.exact = False
        s.tlimit = tlimit
        s.viol = []
        s.asizes = set()
        s.released = []
        s.unk = []
        s.steps = getattr(s, "steps", 0)
        s.finals = 0
        s.nstates = 0
        s.funcs = set()
        s.sites = set()
        s.loops = set()

        s.widened = 0
        s.deb = deb
        s.table = {}
        s.drv = ''

    # ---- globals -----------------------------------------------------------------------------------------------
    def global_obj(s, st, reg):
        gi = ir.global_init(s.m, reg[1])
        if gi is None:
            return None
        ty, v, const = gi
        o = Obj('const' if const else 'global', s.m.size(ty), reg[1])
        s.init_cells(o, 0, ty, v)
        return o

    def init_cells(s, o, off, ty, v):
        ty = s.m.strip(ty)
        if v[0] in ('zero', 'undef'):
            o.zero = True
            return
        if v[0] == 'agg':
            if ty.k == 'arr':
                es = s.m.size(ty.a)
                for i, x in enumerate(v[1]):
                    x = x[-1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], ir.Ty) else x
                    s.init_cells(o, off + i * es, ty.a, x)
            else:
                offs = s.m.layout(ty)
                offs = offs[0] if isinstance(offs, tuple) else offs
                for (fo, ft), x in zip(zip(offs, ty.a), v[1]):
                    x = x[-1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], ir.Ty) else x
                    s.init_cells(o, off + fo, ft, x)
            return
        try:
            o.cells[off] = (s.m.size(ty), s.constval(v))
        except Unk:
            pass

    # ---- values ------------------------------------------------------------------------------------------------
    def constval(s, v):
        k = v[0]
        if k == 'i':
            return L(v[1])
        if k == 'null':
            return NULL
        if k == 'zero':
            return ZERO
        if k == 'undef':
            return UNINIT
        if k == 'g':
            if v[1] in s.m.funcs or v[1] in s.m.decls:
                return P(('f', v[1]))
            return P(('g', v[1]))
        if k == 'cgep':
            b = s.constval(v[1])
            return P(b.reg, b.off + v[2])
        if k == 'agg':
            return Agg([s.constval(x[1]) for x in v[1]])
        raise Unk('constant %r' % (v,))

    def val(s, st, v):
        if v[0] == 'l':
            try:
                return st.frames[-1].regs[v[1]]
            except KeyError:
                raise Unk('register %s without value' % v[1])
        return s.constval(v)

    def int(s, st, v):
        x = s.val(st, v)
        if isinstance(x, L):
            return x
        if x is UNINIT:
            raise Bad('ub', 'use of an uninitialised value')
        if x is TOP:
            raise Unk('unknown integer')
        return x

    # ---- main loop ---------------------------------------------------------------------------------------------
    def enter(s, st, fname, args):
        f = s.m.funcs[fname]
        ir.materialise(s.m, f)
        regs = {n: a for (t, n), a in zip(f.params, args)}
        fr = Frame(f, regs, None)
        st.frames.append(fr)
        s.funcs.add(fname)

    def run(s, drv, init, post):
        """init: list of states with the driver frame entered; post(st, ret, thrown) raises Bad"""
        s.drv = drv
        s.post = post
        if not s.total or not getattr(s, 't0', 0):
            s.t0 = time.time()
        s.work = list(init)
        for st in s.work:
            st.eng = s
        s.steps = getattr(s, "steps", 0)
        s.wwork = []
        while s.work or s.wwork and not s.exact:
            st = s.work.pop() if s.work else s.wwork.pop()
            s.nstates += 1
            s.explore(st)
            if time.time() - s.t0 > s.tlimit or s.steps > s.MAXSTEPS:
                s.unk.append(('resource limit', ''))
                break

    def explore(s, st):
        wide = st.wide
        while True:
            if st.wide and not wide:
                s.wwork.append(st)
                return
            s.steps += 1
            snap = st.snap()
            try:
                done = s.step(st)
            except Fork as f:
                st.restore(snap)
                for a in f.alts:
                    c = st.clone()
                    c.eng = s
                    try:
                        c.apply(a)
                    except Dead:
                        continue
                    (s.wwork if c.wide else s.work).append(c)
                return
            except Dead:
                return
            except Bad as b:
                s.record(st, b)
                return
            except Unk as u:
                s.unk.append((str(u), s.locate(st)[0]))
                if s.deb:
                    s.deb('UNK %s @ %s' % (u, s.locate(st)))
                return
            st.ch = []
            st.chi = 0
            if done:
                return
            if s.steps > s.MAXSTEPS:
                return

    def locate(s, st):
        stack = []
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            i = b[min(f.ip, len(b) - 1)]
            w = s.m.where(i.dbg) if i.dbg else None
            if w:
                stack.append('%s:%d %s' % (w[0], w[1], w[2]))
        own = [x for x in stack if '/nestl/' in x and '/drv/' not in x]
        return (own[0] if own else (stack[0] if stack else '?')), stack

    def record(s, st, b):
        w, stack = s.locate(st)
        if not stack and st.ghost.get('last'):
            w, stack = st.ghost['last']
        model = st.facts.model() if not st.wide else {}
        if model is None:
            if not st.facts.feasible():
                return
            s.unk.append(('no integer witness for ' + str(b), w))
            return
        wide = st.wide
        if not wide and s.hooks.realise is not None:
            known = sum(1 for v in s.viol if not v.wide and v.cat == b.cat)
            s.tries = getattr(s, 'tries', 0) + 1
            if known < 2 and s.tries < 60:
                try:
                    model = s.hooks.realise(st)
                except (Unk, Bad):
                    model = None
            else:
                model = None
            if model is None:
                wide = True
                model = {}
        v = Violation(b.cat, b.msg, w, stack, wide, model, sorted(map(repr, st.facts.s)), s.drv)
        v.dump = s.dump(st)
        s.viol.append(v)
        if s.deb:
            s.deb('BAD %s wide=%s at %s model=%s' % (b, st.wide, w, model))

    def dump(s, st):
        o = ['facts ' + ', '.join(sorted(map(repr, st.facts.s))), 'sub %r' % st.sub, 'ghost %r' % st.ghost]
        for r, x in st.mem.items():
            if x.kind != 'const':
                o.append('  %s: %r' % (rname(r), x))
        for c in st.chunks:
            o.append('  %r' % (c,))
        return '\n'.join(o)

    # ---- one instruction ---------------------------------------------------------------------------------------
    def step(s, st):
        if not st.frames:
            return s.finish(st)
        fr = st.frames[-1]
        i = fr.fn.blocks[fr.blk][fr.ip]
        op = i.op
        if op == 'call' or op == 'invoke':
            return s.call(st, fr, i)
        if op == 'br':
            if len(i.a) == 1:
                return s.jump(st, i.a[0])
            c = s.int(st, i.a[0])
            if not c.const:
                c = ZERO if st.decide_eq(c) else ONE
            return s.jump(st, i.a[1] if c.c else i.a[2])
        if op == 'ret':
            v = None if i.a[0] is None else s.val(st, i.a[0])
            return s.ret(st, v)
        if op == 'switch':
            v = s.int(st, i.a[0])
            for cv, b in i.a[2]:
                if st.decide_eq(v - cv):
                    return s.jump(st, b)
            return s.jump(st, i.a[1])
        if op == 'resume':
            return s.unwind(st)
        if op == 'unreachable':
            raise Dead()
        v = s.compute(st, fr, i)
        fr = st.frames[-1]
        if i.dst:
            fr.regs[i.dst] = v
        fr.ip += 1
        return False

    def members(s, ty):
        ty = s.m.strip(ty)
        if ty.k == 'struct':
            return list(zip(s.m.layout(ty)[0], ty.a))
        if ty.k == 'arr':
            z = s.m.size(ty.a)
            return [(z * j, ty.a) for j in range(ty.n)]
        return None

    def fetch(s, st, p, ty):
        ms = s.members(ty)
        if ms is None:
            return st.load(p, s.m.size(ty), s.m.strip(ty).k == 'ptr')
        return Agg([s.fetch(st, P(p.reg, p.off + o), t) for o, t in ms])

    def put(s, st, p, ty, v):
        ms = s.members(ty)
        if ms is None:
            st.store(p, s.m.size(ty), v)
            return
        p = st.ptr(p)
        if not isinstance(v, Agg):
            v = Agg([v if v is UNINIT or v is TOP else (NULL if s.m.strip(t).k == 'ptr' else ZERO) for o, t in ms])
        for (o, t), x in zip(ms, v.v):
            s.put(st, P(p.reg, p.off + o), t, x)

    def compute(s, st, fr, i):
        op = i.op
        if op == 'load':
            return s.fetch(st, st.ptr(s.val(st, i.a[0])), i.ty)
        if op == 'store':
            s.put(st, s.val(st, i.a[1]), i.ty, s.val(st, i.a[0]))
            return None
        if op == 'gep':
            b = st.ptr(s.val(st, i.a[0]))
            off = b.off + i.a[1]
            for sc, v in i.a[2]:
                x = s.int(st, v)
                if not isinstance(x, L):
                    raise Unk('pointer index')
                off = off + x * sc
            return P(b.reg, off)
        if op == 'alloca':
            o = Obj('stack', s.m.size(i.ty), i.dst, len(st.frames))
            return P(st.new(o))
        if op == 'icmp':
            return s.icmp(st, i)
        if op == 'bin':
            return s.binop(st, i)
        if op == 'cast':
            return s.cast(st, i)
        if op == 'select':
            c = s.int(st, i.a[0])
            if not c.const:
                c = ZERO if st.decide_eq(c) else ONE
            return s.val(st, i.a[1] if c.c else i.a[2])
        if op == 'extractvalue':
            v = s.val(st, i.a[0])
            for x in i.a[1]:
                if not isinstance(v, Agg):
                    raise Unk('extractvalue')
                v = v.v[x]
            return v
        if op == 'insertvalue':
            v = s.val(st, i.a[0])
            e = s.val(st, i.a[1])
            ix = i.a[2]
            if len(ix) != 1:
                raise Unk('insertvalue')
            n = len(s.m.strip(i.ty).a) if s.m.strip(i.ty).k == 'struct' else s.m.strip(i.ty).n
            l = list(v.v) if isinstance(v, Agg) else [UNINIT] * n
            l[ix[0]] = e
            return Agg(l)
        if op == 'landingpad':
            return s.landingpad(st, fr, i)
        if op == 'nop':
            return None
        if op == 'freeze':
            return s.val(st, i.a[0])
        raise Unk('instruction ' + i.text[:60])

    def u(s, st, x):
        """value as unsigned 64 bit"""
        if x.const:
            return L(x.c % W64)
        if st.decide(x):
            return x
        return x + W64

    def icmp(s, st, i):
        pred, a, b = i.a
        a = s.int(st, a)
        b = s.int(st, b)
        if isinstance(a, L) and isinstance(b, L):
            if pred in ('eq', 'ne'):
                r = st.decide_eq(a - b) or (a.const != b.const and st.decide_eq(s.u(st, a) - s.u(st, b)))
                return L(int(r == (pred == 'eq')))
            if pred[0] == 'u':
                a, b = s.u(st, a), s.u(st, b)
            k = pred[1:]
            r = {'lt': lambda: st.decide(b - a - 1), 'le': lambda: st.decide(b - a), 'gt': lambda: st.decide(a - b - 1),
                 'ge': lambda: st.decide(a - b)}[k]()
            return L(int(r))
        if isinstance(a, L) and a == ZERO:
            a = NULL
        if isinstance(b, L) and b == ZERO:
            b = NULL
        if not (isinstance(a, P) and isinstance(b, P)):
            raise Unk('comparison of %r and %r' % (a, b))
        if pred in ('eq', 'ne'):
            return L(int(s.ptr_eq(st, a, b) == (pred == 'eq')))
        k = pred[1:]
        same = s.same_reg(st, a.reg, b.reg)
        if same:
            d = b.off - a.off
        elif a.reg is None:
            d = ONE
        elif b.reg is None:
            d = L(-1)
        else:
            key = tuple(sorted([repr(a.reg), repr(b.reg)]))
            o = st.order.get(key)
            if o is None:
                o = st.choose([True, False])
                st.order = dict(st.order)
                st.order[key] = o
            d = ONE if o == (repr(a.reg) == key[0]) else L(-1)
        r = {'lt': lambda: st.decide(d - 1), 'le': lambda: st.decide(d), 'gt': lambda: st.decide(-d - 1),
             'ge': lambda: st.decide(-d)}[k]()
        return L(int(r))

    def same_reg(s, st, r1, r2):
        if r1 == r2:
            return True
        if r1 is not None and r2 is not None and r1[0] == 'n' and r2[0] == 'n' and r1[1] == r2[1]:
            return st.decide_eq(r1[2] - r2[2])
        return False

    def ptr_eq(s, st, a, b):
        if not s.same_reg(st, a.reg, b.reg):
            return False
        return st.decide_eq(a.off - b.off)

    def binop(s, st, i):
        op, a, b = i.a[0], i.a[1], i.a[2]
        a = s.int(st, a)
        b = s.int(st, b)
        if isinstance(a, P) or isinstance(b, P):
            if op == 'sub' and isinstance(a, P) and isinstance(b, P):
                if s.same_reg(st, a.reg, b.reg):
                    return st.norm(a.off - b.off)
                raise Bad('ub', 'difference of pointers into different objects')
            if op == 'add' and isinstance(a, P) and isinstance(b, L):
                return P(a.reg, a.off + b)
            if op == 'add' and isinstance(b, P) and isinstance(a, L):
                return P(b.reg, b.off + a)
            if op == 'sub' and isinstance(a, P) and isinstance(b, L):
                return P(a.reg, a.off - b)
            raise Unk('pointer arithmetic ' + op)
        if op == 'add':
            return s.narrow(st, a + b, i.ty.n)
        if op == 'sub':
            return s.narrow(st, a - b, i.ty.n)
        if op == 'mul':
            if b.const:
                r = a * b.c
            elif a.const:
                r = b * a.c
            else:
                raise Unk('non-linear')
            if i.ty.n == 64 and not r.const and not st.facts.entails(L(W64 - 1) - r):
                # possible wrap-around
                if not st.decide(L(W64 - 1) - r):
                    q = st.fresh()
                    st.assume(q - 1)
                    r = r - q * W64
                    st.assume(r)
                    st.assume(L(W64 - 1) - r)
                    return r
            return r
        if op in ('udiv', 'sdiv'):
            if not b.const or b.c == 0:
                raise Unk('division')
            k = b.c
            if a.const:
                x = a.c % W64 if op == 'udiv' else a.c
                k = k % W64 if op == 'udiv' else k
                q = abs(x) // abs(k)
                return L(q if (x < 0) == (k < 0) else -q)
            e = a.div(k)
            if e is not None:
                return e
            if not st.decide(a):
                raise Unk('division of a negative value')
            q = st.fresh()
            st.assume(q)
            st.assume(a - q * k)
            st.assume(q * k + (k - 1) - a)
            return q
        if op in ('urem', 'srem'):
            if not b.const or b.c == 0:
                raise Unk('remainder')
            if a.const:
                return L(abs(a.c) % abs(b.c) * (1 if a.c >= 0 else -1))
            if not st.decide(a):
                raise Unk('remainder of a negative value')
            q = st.fresh()
            st.assume(q)
            st.assume(a - q * b.c)
            st.assume(q * b.c + (b.c - 1) - a)
            return a - q * b.c
        if op == 'shl' and b.const:
            return a * (1 << b.c)
        if op in ('lshr', 'ashr') and b.const:
            e = a.div(1 << b.c)
            if e is not None and (op == 'ashr' or st.decide(a)):
                return e
            if a.const and a.c >= 0:
                return L(a.c >> b.c)
            if not st.decide(a):
                raise Unk('shift of a negative value')
            q = st.fresh()
            k = 1 << b.c
            st.assume(q)
            st.assume(a - q * k)
            st.assume(q * k + (k - 1) - a)
            return q
        if a.const and b.const:
            x, y = a.c, b.c
            if op == 'and':
                return L(x & y)
            if op == 'or':
                return L(x | y)
            if op == 'xor':
                r = x ^ y
                if i.ty.n == 1:
                    r &= 1
                return L(r)
        if op == 'and' and b.const and b.c in (1, 3, 7, 15) and a.t:
            q = st.fresh()
            k = b.c + 1
            st.assume(a - q * k)
            st.assume(q * k + (k - 1) - a)
            return a - q * k
        if op == 'and' and b.const and b.c == -1:
            return a
        if op in ('and', 'or') and i.ty.n == 1:
            x = not st.decide_eq(a)
            y = not st.decide_eq(b)
            return L(int((x and y) if op == 'and' else (x or y)))
        if op == 'xor' and b.const and b.c == -1:
            return -a - 1
        if op == 'xor' and i.ty.n == 1:
            return ONE - a if b.const and b.c else a
        raise Unk('operation ' + op)

    def cast(s, st, i):
        k, v = i.a[0], s.val(st, i.a[2])
        if v is UNINIT:
            return UNINIT
        if v is TOP:
            return TOP
        if k in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze'):
            return v
        if k == 'zext':
            if isinstance(v, L) and v.const:
                src = i.a[1].n or 64
                return L(v.c % (1 << src))
            src = i.a[1].n or 64
            if isinstance(v, L) and src in (8, 16, 32) and not st.decide(v):
                return v + (1 << src)
            return v
        if k == 'sext':
            if isinstance(v, L) and v.const and i.a[1].n == 1:
                return L(-(v.c & 1))
            src = i.a[1].n or 64
            if isinstance(v, L) and not v.const and src in (8, 16, 32) and not st.decide(L((1 << (src - 1)) - 1) - v):
                return v - (1 << src)
            return v
        if k == 'trunc':
            if isinstance(v, L) and v.const:
                n = i.ty.n
                x = v.c % (1 << n)
                if n > 1 and x >= 1 << (n - 1):
                    x -= 1 << n
                return L(x)
            return s.narrow(st, v, i.ty.n) if isinstance(v, L) else v
        raise Unk('cast ' + k)

    def narrow(s, st, v, n):
        """the value of the low n bits, as a signed number"""
        if n == 1:
            if st.facts.entails(v) and st.facts.entails(ONE - v):
                return v
            if st.decide(v) and st.decide(ONE - v):
                return v
            raise Unk('truth value of a number')
        if n not in (8, 16, 32):
            return v
        half = 1 << (n - 1)
        if st.decide(v + half) and st.decide(L(half - 1) - v):
            return v
        if st.decide(v - half) and st.decide(L(2 * half - 1) - v):
            return v - 2 * half
        q = st.fresh()
        r = v - q * (2 * half)
        st.assume(r + half)
        st.assume(L(half - 1) - r)
        return r

    # ---- control -----------------------------------------------------------------------------------------------
    def jump(s, st, b):
        fr = st.frames[-1]
        body = fr.fn.blocks[b]
        new = {}
        n = 0
        for j in body:
            if j.op != 'phi':
                break
            n += 1
            for v, src in j.a:
                if src == fr.blk:
                    new[j.dst] = s.val(st, v)
                    break
        fr.regs.update(new)
        prev = fr.blk
        fr.prev = prev
        fr.blk = b
        fr.ip = n
        lh = fr.fn.loop_heads()
        if b in lh:
            return s.head(st, b, prev not in lh[b])
        return False

    def ret(s, st, v):
        fr = st.frames[-1]
        s.leave(st)
        if not st.frames:
            st.ghost['ret'] = v
            st.ghost['thrown'] = False
            return False
        c = st.frames[-1]
        i = fr.call
        if i.dst:
            c.regs[i.dst] = v if v is not None else UNINIT
        if i.op == 'invoke':
            return s.jump(st, i.a['normal'])
        c.ip += 1
        return False

    def leave(s, st):
        d = len(st.frames)
        for r in list(st.mem):
            o = st.mem[r]
            if o.kind == 'stack' and o.depth == d:
                if o.elems:
                    raise Bad('life', 'a local element is never destroyed')
                del st.mem[r]
        if d == 1:
            st.ghost['last'] = s.locate(st)
        st.frames.pop()
        if st.vis:
            st.vis = {k: v for k, v in st.vis.items() if len(k) < d}

    def throw(s, st, exc):
        st.ghost['exc'] = exc
        return s.unwind(st, first=True)

    def unwind(s, st, first=False):
        """leave frames until an invoke accepts the exception"""
        fr = st.frames[-1]
        i = fr.fn.blocks[fr.blk][fr.ip]
        if first and i.op == 'invoke':
            return s.jump(st, i.a['unwind'])
        while True:
            fr = st.frames[-1]
            if fr.fn.nounwind:
                raise Bad('exc', 'an exception leaves a function that promises not to throw')
            call = fr.call
            s.leave(st)
            if not st.frames:
                st.ghost['ret'] = None
                st.ghost['thrown'] = True
                return False
            if call.op == 'invoke':
                return s.jump(st, call.a['unwind'])

    def landingpad(s, st, fr, i):
        txt = i.a[0]
        exc = st.ghost.get('exc')
        sel = 0
        n = 0
        hit = False
        toks = txt.split()
        for k, t in enumerate(toks):
            if t == 'catch':
                n += 1
                ti = toks[k + 2]
                if not hit and (ti == 'null' or s.exc_match(exc, ti)):
                    hit = True
                    sel = n
                    fr.exc = ti
        if not hit and 'cleanup' not in toks:
            raise Unk('landing pad without a matching clause')
        return Agg([P(('o', 'exception')), L(0) if not hit else (ONE if fr.exc == 'null' else s.typeid(fr.exc))])

    def typeid(s, name):
        return L(1000 + sorted(s.m.globals).index(name)) if name in s.m.globals else L(1)

    BASES = {}

    def exc_match(s, exc, ti):
        if exc is None or exc[0] is None:
            return False
        n = exc[0]
        seen = set()
        while n and n not in seen:
            if n == ti:
                return True
            seen.add(n)
            n = s.hooks.bases.get(n)
        return False

    def call(s, st, fr, i):
        cal = i.a['callee']
        if cal[0] == 'g':
            name = cal[1]
        else:
            v = s.val(st, cal)
            if v is UNINIT:
                raise Bad('ub', 'call through an uninitialised pointer')
            if isinstance(v, P) and v.reg is not None and v.reg[0] == 'f':
                name = v.reg[1]
            elif isinstance(v, P) and v.reg is None:
                raise Bad('ub', 'call through a null pointer')
            else:
                raise Unk('indirect call %r' % (v,))
        args = [None if a[1][0] in ('md', 'meta') else s.val(st, a[1]) for a in i.a['args']]
        h = s.hooks.get(name)
        if h is not None:
            s.sites.add((fr.fn.name, fr.blk, fr.ip))
            r = h(s, st, args, i)
            if isinstance(r, tuple) and r and r[0] == 'throw':
                return s.throw(st, r[1])
            if isinstance(r, tuple) and r and r[0] == 'enter':
                return False
            fr = st.frames[-1]
            if i.dst:
                fr.regs[i.dst] = r
            if i.op == 'invoke':
                return s.jump(st, i.a['normal'])
            fr.ip += 1
            return False
        f = s.m.funcs.get(name)
        if f is None:
            raise Unk('call to ' + name)
        c = s.hooks.contract(s, st, name, args, i)
        if c is not None:
            fr = st.frames[-1]
            if i.dst:
                fr.regs[i.dst] = c[0]
            if i.op == 'invoke':
                return s.jump(st, i.a['normal'])
            fr.ip += 1
            return False
        if len(st.frames) > 60:
            raise Unk('call depth')
        ir.materialise(s.m, f)
        s.funcs.add(name)
        n = Frame(f, {pn: a for (t, pn), a in zip(f.params, args)}, i)
        st.frames.append(n)
        if f.entry in f.loop_heads():
            return s.head(st, f.entry, True)
        return False

    def finish(s, st):
        st.chi = 0
        s.post(st, st.ghost.get('ret'), st.ghost.get('thrown'))
        s.finals += 1
        return True

    # ---- loops -------------------------------------------------------------------------------------------------
    def head(s, st, b, entering):
        fr = st.frames[-1]
        lv = fr.fn.liveness()[b]
        keep = set(lv)
        for j in fr.fn.blocks[b]:
            if j.op != 'phi':
                break
            keep.add(j.dst)
        fr.regs = {k: v for k, v in fr.regs.items() if k in keep}
        key = tuple((f.fn.name, f.blk, f.ip) for f in st.frames)
        heavy = not entering and st.vis.get(key, (0, ()))[0] >= s.peel
        if heavy and not st.wide and getattr(s.hooks, 'heavy', None):
            # before anything is summarised: has the loop come back to the very same state?
            s.fold(st, False)
            rec = HeadState(Canon(st), st)
            for g in st.vis[key][1]:
                if not g.wide and g.skel == rec.skel and g.leaves == rec.leaves and g.facts.s == st.facts.s:
                    raise Bad('ub', 'a loop does not make progress, the operation never ends')
        s.fold(st, heavy)
        s.loops.add((fr.fn.name, b))
        can = Canon(st)
        rec = HeadState(can, st)
        if entering:
            hist = ()
            cnt = 0
        else:
            cnt, hist = st.vis.get(key, (0, ()))
            cnt += 1
        for g in hist:
            if not g.wide and not st.wide and g.skel == rec.skel and g.leaves == rec.leaves and g.facts.s == st.facts.s:
                raise Bad('ub', 'a loop does not make progress, the operation never ends')
        tab = s.table.setdefault(key, [])
        for g in tab:
            if (st.wide or not g.wide) and g.skel == rec.skel and s.subsumes(g, rec, st):
                return True
        if entering or cnt <= s.peel:
            tab.append(rec)
            st.vis[key] = (cnt, hist + (rec,))
            return False
        if cnt > s.peel + 14:
            raise Unk('loop without a stable invariant')
        for h in reversed(hist):
            if h.skel == rec.skel:
                s.join(h, can, st)
                s.widened += 1
                break
        else:
            tab.append(rec)
            st.vis[key] = (cnt, hist + (rec,))
            return False
        st.wide = True
        s.fold(st, True)
        can = Canon(st)
        rec = HeadState(can, st)
        for g in tab:
            if g.skel == rec.skel and s.subsumes(g, rec, st):
                return True
        tab.append(rec)
        st.vis[key] = (cnt, hist + (rec,))
        return False

    def fold(s, st, heavy=False):
        for r in list(st.mem):
            o = st.mem[r]
            if o.segs is not None:
                t = st.tidy(o.segs)
                if t != o.segs:
                    o = o.copy()
                    o.segs = t
                    st.mem[r] = o
        s.hooks.fold(s, st, heavy or st.wide)

    def match(s, g, leaves, st):
        """values of the flexible symbols of g that turn its leaves into the given ones, or None"""
        flex = g.flex
        env = {}
        pend = list(zip(g.leaves, leaves))
        ch = True
        while pend and ch:
            ch = False
            rest = []
            for a, b in pend:
                a2 = a.sub(env) if env else a
                un = [(k, v) for k, v in a2.t if k in flex and k not in env]
                if not un:
                    d = st.norm(lin_unmark(a2)) - b
                    if not st.is_eq(d):
                        return None
                    ch = True
                    continue
                if len(un) == 1:
                    k, v = un[0]
                    e = (b - lin_unmark(L(a2.c, tuple(x for x in a2.t if x[0] != k))))
                    e = st.norm(e).div(v)
                    if e is None:
                        return None
                    env[k] = mark(e)
                    ch = True
                    continue
                rest.append((a, b))
            pend = rest
        if pend:
            # several unknowns in one leaf: keep the newest symbol for the solution, identity for the others
            for a, b in pend:
                a2 = a.sub(env)
                un = sorted(k for k, v in a2.t if k in flex and k not in env)
                for k in un[:-1]:
                    env[k] = mark(sym(k))
                if un:
                    a2 = a.sub(env)
                    k = un[-1]
                    e = st.norm(b - lin_unmark(L(a2.c, tuple(x for x in a2.t if x[0] != k)))).div(a2.coef(k))
                    if e is None:
                        return None
                    env[k] = mark(e)
            for a, b in pend:
                if not st.is_eq(lin_unmark(a.sub(env)) - b):
                    return None
        for f in g.facts.s:
            for k, _ in f.t:
                if k in flex and k not in env:
                    env[k] = mark(sym(k))
        return env

    def subsumes(s, g, rec, st):
        """is every concrete state of rec described by g?"""
        if g.order != rec.order:
            return False
        env = s.match(g, rec.leaves, st)
        if env is None:
            return False
        for f in g.facts.s:
            if not st.holds(lin_unmark(f.sub(env))):
                return False
        for k, e in g.sub.items():
            if k[0] != '~' and not st.is_eq(sym(k) - lin_unmark(e.sub(env))):
                return False
        return True

    def join(s, h, can, st):
        """replace st by a common generalisation of its ancestor h and itself: the affine hull of both leaf vectors
        (Karr), restricted by the difference bounds and the facts that hold in both"""
        A = h.leaves
        B = can.leaves
        n = len(A)
        rec = HeadState(can, st)
        zero = {k: ZERO for k in h.flex | rec.flex}
        A0 = [a.sub(zero) for a in A]
        dirs = []
        for k in sorted(h.flex):
            v = tuple(a.coef(k) for a in A)
            if any(v):
                dirs.append(v)
        for k in sorted(rec.flex):
            v = tuple(b.coef(k) for b in B)
            if any(v):
                dirs.append(v)
        D = [b.sub(zero) - st.norm(a) for a, b in zip(A0, B)]
        D = [d.sub(zero) for d in D]
        for k in sorted({k for d in D for k in d.syms()}):
            dirs.append(tuple(d.coef(k) for d in D))
        v = tuple(d.c for d in D)
        if any(v):
            dirs.append(v)
        basis = reduce_basis(dirs)
        syms = [st.fresh() for _ in basis]
        new = list(A0)
        for (piv, vec), t in zip(basis, syms):
            for i in range(n):
                if vec[i]:
                    new[i] = new[i] + t * vec[i]
        ts = {t.t[0][0] for t in syms}
        # value of the new symbols at both ends
        atA, atB = {}, {}
        for (piv, vec), t in zip(basis, syms):
            k = t.t[0][0]
            da, db = (A[piv] - A0[piv]).div(vec[piv]), (B[piv] - st.norm(A0[piv])).div(vec[piv])
            if da is None or db is None:
                raise Unk('no integral invariant')
            atA[k], atB[k] = da, db
        g = HeadState(can, st)
        g.leaves = new
        g.flex = ts
        cands = []
        # facts of either side, when their symbols are functions of the leaves
        dimA = len(reduce_basis([tuple(a.coef(k) for a in A) for k in sorted(h.flex)]))
        grown = True
        for side in (h, rec) if not h.wide else (h,):
            env = s.invert(side, new)
            for f in sorted(side.facts.s, key=repr):
                if all(k[0] != '~' or k in env for k, _ in f.t):
                    cands.append(f.sub(env))
        # difference bounds between leaves of the same kind
        terms = []
        if not grown:
            can_tags = []
        else:
            can_tags = can.tags
        rig = sorted({k for f in h.facts.s for k in f.syms() if k[0] != '~'})
        for l, tag in list(zip(new, can_tags)) + [(ZERO, 'e'), (ZERO, 'i')] + [(sym(k), t) for k in rig for t in 'ei']:
            if grown and tag in 'ei' and (l, tag) not in terms:
                terms.append((l, tag))
        for x, t1 in terms:
            for y, t2 in terms:
                if t1 == t2 and x is not y:
                    d = tight(x - y)
                    if d.t and any(k in ts for k, _ in d.t):
                        cands.append(d - 1)
                        cands.append(d)
                        if len(x.t) == 1 and x.t[0][0] in rig or len(y.t) == 1 and y.t[0][0] in rig:
                            cands.append(d + 1)
        # order of the inputs: what follows from it may only be implied by facts that are dropped
        for x in rig:
            for y in rig:
                if x != y:
                    cands += [sym(x) - sym(y) - 1, sym(x) - sym(y)]
        can.rebuild(st, new)
        cands += s.hooks.extra_candidates(st)
        facts = Facts(frozenset())
        seen = set()
        for c in cands:
            c = tight(c)
            if not c.t or c in seen:
                continue
            seen.add(c)
            if h.facts.entails(tight(c.sub(atA))) and st.facts.entails(tight(st.norm(c.sub(atB)))):
                if not facts.entails(c):
                    facts = facts.add(c)
        st.facts = facts
        st.sub = {k: e for k, e in h.sub.items() if k[0] != '~'}
        for k, e in list(st.sub.items()):
            if any(x[0] == '~' for x in e.syms()):
                raise Unk('parameter tied to a loop variable')

    def invert(s, side, new):
        """flexible symbols of a state as functions of its leaves, expressed with the new leaves"""
        env = {}
        pend = list(zip(side.leaves, new))
        ch = True
        while ch:
            ch = False
            for a, b in pend:
                a2 = a
                un = [k for k, v in a.t if k in side.flex and k not in env]
                if len(un) == 1:
                    v = a.coef(un[0])
                    rest = L(a.c, tuple(x for x in a.t if x[0] != un[0])).sub(env)
                    e = (b - rest).div(v)
                    if e is not None:
                        env[un[0]] = e
                        ch = True
        return env

    # ------------------------------------------------------------------------------------------------------------


def mark(e):
    return L(e.c, tuple(('\x00' + k, v) for k, v in e.t))


def lin_unmark(e):
    return L(e.c, tuple(sorted((k.lstrip('\x00'), v) for k, v in e.t))) if any(k[0] == '\x00' for k, _ in e.t) and \
        len({k.lstrip('\x00') for k, _ in e.t}) == len(e.t) else _unmark_slow(e)


def _unmark_slow(e):
    r = L(e.c)
    for k, v in e.t:
        r = r + L(0, ((k.lstrip('\x00'), v),))
    return r


def reduce_basis(dirs):
    """integer echelon basis: [(pivot, vector)], pivots preferably with entry 1 and absent from the other vectors"""
    rows = []
    todo = []
    for d in dirs:
        g = 0
        for x in d:
            g = gcd(g, x)
        if g:
            todo.append(tuple(x // g for x in d))
    for d in todo:
        for piv, r in rows:
            if d[piv]:
                a, b = d[piv], r[piv]
                d = tuple(x * b - y * a for x, y in zip(d, r))
        g = 0
        for x in d:
            g = gcd(g, x)
        if not g:
            continue
        d = tuple(x // g for x in d)
        piv = min((abs(x), i) for i, x in enumerate(d) if x)[1]
        if d[piv] < 0:
            d = tuple(-x for x in d)
        nr = []
        for p, r in rows:
            if r[piv]:
                a, b = r[piv], d[piv]
                r = tuple(x * b - y * a for x, y in zip(r, d))
                g = 0
                for x in r:
                    g = gcd(g, x)
                r = tuple(x // g for x in r)
                if r[p] < 0:
                    r = tuple(-x for x in r)
            nr.append((p, r))
        rows = nr + [(piv, d)]
    return rows


def prim(d):
    """primitive direction of a difference"""
    if d.const:
        return ONE
    g = abs(d.c)
    for _, v in d.t:
        g = gcd(g, v)
    return d.div(g)


def ratio(d, rep):
    """d == r * rep for an integer r"""
    if rep.const:
        return d.c if d.const and rep.c == 1 else None
    if d.const or len(d.t) != len(rep.t):
        return None
    a, b = d.t[0][1], rep.t[0][1]
    if d.t[0][0] != rep.t[0][0] or a % b:
        return None
    r = a // b
    return r if rep * r == d else None


class HeadState:
    __slots__ = ('skel', 'leaves', 'facts', 'sub', 'flex', 'wide', 'order')

    def __init__(s, can, st):
        s.skel = can.skel
        s.leaves = can.leaves
        s.facts = st.facts
        s.sub = st.sub
        s.wide = st.wide
        f = set()
        for l in s.leaves:
            f.update(k for k in l.syms() if k[0] == '~')
        for l in st.facts.s:
            f.update(k for k in l.syms() if k[0] == '~')
        s.flex = f
        s.order = tuple(sorted(can.order.items()))


class Canon:
    """canonical skeleton of a state plus its ordered linear leaves"""

    def __init__(s, st):
        s.leaves = []
        s.tags = []
        s.scales = []
        s.names = {}
        s.todo = []
        s.st = st
        sk = []
        for f in st.frames:
            sk.append((f.fn.name, f.blk, f.ip, tuple((k, s.v(f.regs[k])) for k in sorted(f.regs))))
        g = []
        for k in sorted(st.ghost):
            if k[0] != '_':
                g.append((k, s.g(st.ghost[k])))
        sk.append(tuple(g))
        s.objs = []
        pm = sorted(r for r in st.mem if r[0] == 'o' and st.mem[r].kind == 'param')
        for r in pm:
            s.r(r)
        s.drain(sk)
        rest = sorted((r for r in st.mem if r not in s.done and r[0] == 'o' and st.mem[r].kind != 'const'), key=repr)
        for r in rest:
            s.r(r)
            s.drain(sk)
        # remaining explicit nodes
        for r in sorted((r for r in st.mem if r not in s.done and r[0] == 'n'), key=repr):
            s.nodeobj(r, sk)
        s.chunkorder = sorted(range(len(st.chunks)), key=lambda i: st.chunks[i].sortkey())
        for i in s.chunkorder:
            sk.append(st.chunks[i].canon(s))
        s.drain(sk)
        s.skel = tuple(sk)
        s.order = {}
        for (a, b), o in st.order.items():
            na, nb = s.ren(a), s.ren(b)
            if na is not None and nb is not None:
                if na > nb:
                    na, nb, o = nb, na, not o
                s.order[(na, nb)] = o

    done = ()

    def ren(s, rp):
        for r, n in s.names.items():
            if repr(r) == rp:
                return n
        return None

    def l(s, x, tag='e', scale=1):
        if scale != 1:
            d = x.div(scale)
            if d is None:
                scale = 1
                tag = 'o'
            else:
                x = d
        s.leaves.append(x)
        s.tags.append(tag)
        s.scales.append(scale)
        return '#' if scale == 1 else '#%d' % scale

    def r(s, reg):
        if reg is None:
            return 'null'
        if reg[0] == 'n':
            n = ('n', reg[1], s.st.eng.hooks.alias(s.st, reg), s.l(reg[2]))
            if reg in s.st.mem and reg not in s.names:
                s.names[reg] = 'N'
                s.todo.append(reg)
            return n
        if reg[0] in 'gf':
            return reg
        if reg not in s.names:
            if reg not in s.st.mem:
                s.names[reg] = 'dangling'
            else:
                o = s.st.mem[reg]
                s.names[reg] = reg[1] if o.kind in ('param', 'const', 'global') else '%s%d' % (o.kind[0], len(s.names))
                s.todo.append(reg)
        return s.names[reg]

    def v(s, v):
        if isinstance(v, L):
            return s.l(v, 'i')
        if isinstance(v, P):
            r = s.r(v.reg)
            if v.reg is None:
                return ('p', r, 0)
            o = s.st.mem.get(v.reg)
            arr = o is not None and o.segs is not None
            return ('p', r, s.l(v.off, 'e' if arr else 'o', o.esz if arr else 1))
        if isinstance(v, Agg):
            return ('a',) + tuple(s.v(x) for x in v.v)
        return repr(v)

    def g(s, v):
        if isinstance(v, (L, P, Agg)):
            return s.v(v)
        if isinstance(v, tuple):
            return tuple(s.g(x) for x in v)
        return v

    def drain(s, sk):
        if s.done == ():
            s.done = set()
        while s.todo:
            r = s.todo.pop(0)
            if r in s.done:
                continue
            if r[0] == 'n':
                s.nodeobj(r, sk)
            else:
                s.done.add(r)
                sk.append(s.o(r, s.st.mem[r]))
                s.objs.append(r)

    def nodeobj(s, r, sk):
        if s.done == ():
            s.done = set()
        s.done.add(r)
        s.objs.append(r)
        sk.append(('node', r[1], s.l(r[2]), s.o(r, s.st.mem[r])))

    def o(s, r, o):
        return (s.names.get(r, 'N'), o.kind, o.name if o.kind in ('stack', 'heap') else '', s.l(lin(o.size), 'e', o.esz or 1) if o.segs is not None or isinstance(o.size, L) else o.size,
                tuple((k, z, s.v(v)) for k, (z, v) in sorted(o.cells.items())),
                tuple((k, a, s.l(b) if not isconst(a) else 0) for k, (a, b) in sorted(o.elems.items())),
                None if o.segs is None else tuple((s.l(a), s.l(b), None if c is None else (c[0], s.l(c[1]) if not isconst(c[0]) else 0))
                                                  for a, b, c in o.segs),
                None if o.alloc is None else tuple(s.l(x) if isinstance(x, L) else x for x in o.alloc), o.zero, o.depth)

    # rebuild: same traversal, leaves replaced by position
    def rebuild(s, st, new):
        it = iter([x * k for x, k in zip(new, s.scales)])
        fl = lambda x: next(it)
        for f in st.frames:
            f.regs = {k: mapv2(f.regs[k], fl) for k in sorted(f.regs)}
        for k in sorted(st.ghost):
            if k[0] != '_':
                st.ghost[k] = mapg2(st.ghost[k], fl)
        mem = dict(st.mem)
        for r in s.objs:
            o = st.mem[r]
            del mem[r]
            r2 = r
            if r[0] == 'n':
                r2 = ('n', r[1], fl(r[2]))
            n = Obj(o.kind, None, o.name, o.depth)
            n.size = fl(lin(o.size)) if o.segs is not None or isinstance(o.size, L) else o.size
            n.cells = {k: (z, mapv2(v, fl)) for k, (z, v) in sorted(o.cells.items())}
            n.elems = {k: (a, fl(b) if not isconst(a) else b) for k, (a, b) in sorted(o.elems.items())}
            if o.segs is not None:
                n.segs = tuple((fl(a), fl(b), None if c is None else (c[0], fl(c[1]) if not isconst(c[0]) else c[1])) for a, b, c in o.segs)
            n.esz = o.esz
            n.alloc = None if o.alloc is None else tuple(fl(x) if isinstance(x, L) else x for x in o.alloc)
            n.zero = o.zero
            mem[r2] = n
        st.mem = mem
        ch = list(st.chunks)
        for i in s.chunkorder:
            ch[i] = ch[i].rebuild(fl)
        st.chunks = tuple(ch)
        try:
            next(it)
        except StopIteration:
            return
        raise Unk('canonical form mismatch')


def mapv2(v, fl):
    if isinstance(v, L):
        return fl(v)
    if isinstance(v, P):
        if v.reg is None:
            return v
        return P(mapr(v.reg, fl), fl(v.off))
    if isinstance(v, Agg):
        return Agg([mapv2(x, fl) for x in v.v])
    return v


def mapg2(v, fl):
    if isinstance(v, (L, P, Agg)):
        return mapv2(v, fl)
    if isinstance(v, tuple):
        return tuple(mapg2(x, fl) for x in v)
    return v
