"""Specification helpers: initial states, contents as words, invariants."""
from .lin import L, ZERO, ONE, lin, sym
from .engine import State, Obj, P, NULL, Bad, Unk, Dead, isconst, UNINIT, TOP


def piece(src, lo, hi):
    return (src, lin(lo), lin(hi))


def one(v):
    return (v[0], v[1], v[1] + 1) if not isconst(v[0]) else (v[0], ZERO, ONE)


def rep(src, n):
    return (src, ZERO, lin(n))


def word_eq(st, a, b):
    a, b = list(a), list(b)
    while True:
        while a and not st.decide(a[0][2] - a[0][1] - 1):
            a.pop(0)
        while b and not st.decide(b[0][2] - b[0][1] - 1):
            b.pop(0)
        if not a or not b:
            return not a and not b
        x, y = a[0], b[0]
        if x[0] != y[0]:
            return False
        if not (x[0] is None or isconst(x[0])) and not st.decide_eq(x[1] - y[1]):
            return False
        lx, ly = x[2] - x[1], y[2] - y[1]
        if st.decide(lx - ly):
            b.pop(0)
            a[0] = (x[0], x[1] + ly, x[2])
        else:
            a.pop(0)
            b[0] = (y[0], y[1] + lx, y[2])


def take_prefix(st, w, p):
    """w = (prefix of the single piece p) + rest: returns rest"""
    w = list(w)
    src, lo, hi = p
    while w:
        x = w[0]
        if not st.decide(x[2] - x[1] - 1):
            w.pop(0)
            continue
        if not st.decide(hi - lo - 1):
            return w
        if x[0] != src or (not isconst(src) and not st.decide_eq(x[1] - lo)):
            return w
        lx = x[2] - x[1]
        if st.decide(hi - lo - lx):
            w.pop(0)
            lo = lo + lx
        else:
            n = hi - lo
            w[0] = (x[0], x[1] + n, x[2])
            return w
    return w


def is_split_prefix(st, w, parts):
    """w = prefix of parts[0] . prefix of parts[1] ... where each may be cut short"""
    for p in parts:
        w = take_prefix(st, w, p)
    return all(not st.decide(x[2] - x[1] - 1) for x in w)


def wlen(w):
    n = ZERO
    for _, a, b in w:
        n = n + (b - a)
    return n


def shw(w):
    return ' '.join('%s[%r..%r)' % (('raw' if a is None else a), b, c) for a, b, c in w) or 'empty'


class Ctx:
    """one run: creates parameters and remembers them"""

    def __init__(s, eng):
        s.eng = eng
        s.m = eng.m

    def state(s):
        st = State()
        st.eng = s.eng
        return st

    def gsize(s, name):
        from . import ir
        gi = ir.global_init(s.m, '@' + name)
        return gi[1][1]

    def param(s, st, name, size):
        o = Obj('param', size, name)
        return P(st.new(o, name))

    def err(s, st, name='err'):
        p = s.param(st, name, s.gsize('sz_Err'))
        st.store(p, 8, ZERO)
        return p

    def elem(s, st, name, val):
        p = s.param(st, name, s.eng.ESZ)
        st.mem[p.reg].elems[0] = val
        return p

    def array(s, st, name, src, n):
        """constant array of n elements owned by the caller"""
        o = Obj('param', n * s.eng.ESZ, name)
        o.segs = ((ZERO, n, (src, ZERO)),)
        o.esz = s.eng.ESZ
        o.alloc = (L(-7), n, s.eng.ESZ)
        return P(st.new(o, name))

    def alloc(s, st, name, aid):
        p = s.param(st, name, s.gsize('sz_A'))
        st.store(p, 8, aid)
        return p


def errval(st, p):
    v = st.load(p, 8, False)
    if not isinstance(v, L):
        raise Bad('err', 'the error object is left indeterminate')
    return not st.decide_eq(v)


def check_err(st, p, allowed=()):
    """error reported exactly when a failure happened; allowed: failures the operation may detect itself"""
    e = errval(st, p)
    f = st.ghost.get('fail')
    if f and not e:
        raise Bad('err', 'a failure (%s) is not reported: the error object is clear after the operation' % f)
    if e and not f:
        raise Bad('err', 'an error is reported although nothing failed')
    if f and f.startswith('self') and f not in allowed:
        raise Bad('err', 'the operation reports an error of its own for a valid request')
    return e


def no_leak(st, keep=()):
    for r, o in st.mem.items():
        if o.kind == 'heap' and r not in keep:
            raise Bad('block', 'a block obtained from the allocator is never returned (no owner after the operation)')
        if o.kind == 'exc':
            raise Bad('exc', 'exception object is leaked')


def args_intact(st, items):
    """constant argument elements keep their value"""
    for p, v in items:
        l = st.eloc(p)
        x = st.eget(l)
        if x is None:
            raise Bad('life', 'an argument owned by the caller is destroyed')
        if x[0] != v[0] or (not isconst(v[0]) and not st.decide_eq(x[1] - v[1])):
            raise Bad('sem', 'an argument owned by the caller is modified')


# ---- reference layouts -----------------------------------------------------------------------------------------------
def lay_json(lay, keys):
    return {k: getattr(lay, k) for k in keys}


def limit(width):
    """largest value of a counter of that many bytes; nobody takes 2^31 references, so wide ones never overflow"""
    return (1 << (8 * width - 1)) - 1 - (64 if width >= 4 else 0)


def same_cells(got, want):
    return sorted(got) == sorted(want)
