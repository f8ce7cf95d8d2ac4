"""Doubly linked list: shape domain (segments of nodes) and specifications of the list operations."""
import functools
from .lin import L, ZERO, ONE, lin, sym
from .engine import P, NULL, Bad, Unk, Dead, Obj, isconst, Engine, mapv, mapr, mapv2, UNINIT, mapg, TOP
from .spec import *
from .vecspec import normal, fresh_check, X, Lay

ESZ = Engine.ESZ
DRV = {}
SORT_MAX = 9
MAXN = L(1 << 56)


def drv(name, scope, need=None):
    def deco(f):
        DRV[name] = (f, scope, need)
        return f
    return deco


# ---- shape domain -----------------------------------------------------------------------------------------------
def plan(name, mode, tier):
    global SORT_MAX
    if name.startswith('l_sort'):
        SORT_MAX = 20 if tier == 'thorough' else 9
        SORT_BIG[:] = [40, 130, 4100] if tier == 'thorough' else [40, 600]
        return [(SORT_BIG[-1] + 10, 600 if tier == 'thorough' else 100, True)]
    return None


SORT_BIG = []


def fam_elem(fam, idx):
    src = fam[2:] if fam.startswith('f:') else fam
    return (src, ZERO if isconst(src) else idx)


class Seg:
    """nodes ('n', fam, i), lo <= i < hi, linked in order; `before` is prev of the first, `after` is next of the last"""

    def __init__(s, lay, fam, lo, hi, before, after, aid):
        s.lay, s.fam, s.lo, s.hi, s.before, s.after, s.aid = lay, fam, lo, hi, before, after, aid

    def __repr__(s):
        return 'Seg(%s [%r,%r) %r..%r a=%r)' % (s.fam, s.lo, s.hi, s.before, s.after, s.aid)

    def map(s, fl):
        return Seg(s.lay, s.fam, fl(s.lo), fl(s.hi), mapv(s.before, fl), mapv(s.after, fl), fl(s.aid))

    def sortkey(s):
        return s.fam

    def canon(s, c):
        return ('seg', s.fam, c.l(s.lo), c.l(s.hi), c.v(s.before), c.v(s.after), c.l(s.aid, 'o'))

    def rebuild(s, fl):
        return Seg(s.lay, s.fam, fl(s.lo), fl(s.hi), mapv2(s.before, fl), mapv2(s.after, fl), fl(s.aid))

    elem_off = None

    def names(s, st, fam, idx):
        return False

    def peek(s, st, k, off, size):
        return None

    def poke(s, st, k, off, size, v):
        return False

    def ptr(s, i):
        return P(('n', s.fam, i), L(s.lay.noff))

    def owns(s, st, fam, idx):
        return fam == s.fam and st.decide(idx - s.lo) and st.decide(s.hi - idx - 1)

    def focus(s, st, fam, i):
        first = st.decide_eq(i - s.lo)
        last = st.decide_eq(s.hi - 1 - i)
        if first and last:
            pass
        # decisions may have rewritten the chunks: find this one again
        me = [c for c in st.chunks if isinstance(c, Seg) and c.fam == s.fam and c.lo == st.norm(s.lo) and c.hi == st.norm(s.hi)]
        if len(me) != 1:
            raise Unk('list segment lost')
        me = me[0]
        i = st.norm(i)
        rest = [c for c in st.chunks if c is not me]
        o = node_obj(me.lay, fam_elem(me.fam, i), me.before if first else me.ptr(i - 1), me.after if last else me.ptr(i + 1), me.aid)
        if not first:
            rest.append(Seg(me.lay, me.fam, me.lo, i, me.before, me.ptr(i), me.aid))
        if not last:
            rest.append(Seg(me.lay, me.fam, i + 1, me.hi, me.ptr(i), me.after, me.aid))
        st.chunks = tuple(rest)
        st.mem[('n', me.fam, i)] = o


def node_obj(lay, elem, prev, nxt, aid):
    o = Obj('heap', lay.nsize, '')
    o.alloc = (aid, ONE, lay.nsize)
    o.cells = {lay.next: (8, nxt), lay.prev: (8, prev)}
    o.elems = {lay.eoff: elem}
    return o


def same_ptr(st, a, b):
    if not (isinstance(a, P) and isinstance(b, P)):
        return False
    if a.reg is None or b.reg is None:
        return a.reg is None and b.reg is None
    if a.reg[0] == 'n' and b.reg[0] == 'n':
        if a.reg[1] != b.reg[1] or not st.is_eq(a.reg[2] - b.reg[2]):
            return False
    elif a.reg != b.reg:
        return False
    return st.is_eq(a.off - b.off)


def rename(st, old, new):
    def rv(v):
        if isinstance(v, P):
            return P(new, v.off) if v.reg == old else v
        return v

    def rg(v):
        if isinstance(v, tuple):
            if v == old:
                return new
            return tuple(rg(x) for x in v)
        return rv(v)
    for f in st.frames:
        f.regs = {k: rv(v) for k, v in f.regs.items()}
    mem = {}
    for r, o in st.mem.items():
        if any(isinstance(v, P) and v.reg == old for z, v in o.cells.values()):
            o = o.copy()
            o.cells = {k: (z, rv(v)) for k, (z, v) in o.cells.items()}
        mem[new if r == old else r] = o
    st.mem = mem
    ch = []
    for c in st.chunks:
        ch.append(Seg(c.lay, c.fam, c.lo, c.hi, rv(c.before), rv(c.after), c.aid) if isinstance(c, Seg) else c.rename(rv))
    st.chunks = tuple(ch)
    st.ghost = {k: rg(v) for k, v in st.ghost.items()}


def plain(lay, o):
    """explicit node in regular state?"""
    return (o.kind == 'heap' and o.alloc is not None and o.alloc[2] == lay.nsize and o.alloc[1] == ONE and o.segs is None
            and set(o.cells) == {lay.next, lay.prev} and set(o.elems) == {lay.eoff}
            and all(isinstance(v, P) and v.reg is not None for z, v in o.cells.values()))


def free_name(st, fam, idx):
    for r in st.mem:
        if r[0] == 'n' and r[1] == fam and not (st.holds(r[2] - idx - 1) or st.holds(idx - r[2] - 1)):
            return False
    for c in st.chunks:
        if isinstance(c, Seg) and c.fam == fam and not (st.holds(c.lo - idx - 1) or st.holds(idx - c.hi)):
            return False
    return True


def fold(lay, st):
    ch = True
    while ch:
        ch = False
        for r in sorted((r for r in st.mem if r[0] == 'o'), key=lambda r: (len(r[1]), r[1])):
            o = st.mem[r]
            if not plain(lay, o):
                continue
            v = o.elems[lay.eoff]
            fam = 'f:' + v[0]
            if v[0][0] == '!':
                continue
            idx = None
            if isconst(v[0]):
                pv, nx = o.cells[lay.prev][1].reg, o.cells[lay.next][1].reg
                if pv[0] == 'n' and pv[1] == fam:
                    idx = pv[2] + 1
                elif nx[0] == 'n' and nx[1] == fam:
                    idx = nx[2] - 1
                elif not any(x[0] == 'n' and x[1] == fam for x in st.mem) and not any(getattr(c, 'fam', '') == fam for c in st.chunks):
                    idx = ZERO
            else:
                idx = v[1]
            if idx is None or not free_name(st, fam, idx):
                continue
            rename(st, r, ('n', fam, idx))
            ch = True
            break
    segs = []
    for r in sorted((r for r in st.mem if r[0] == 'n'), key=repr):
        o = st.mem[r]
        if plain(lay, o):
            e = fam_elem(r[1], r[2])
            v = o.elems[lay.eoff]
            if v[0] == e[0] and (isconst(v[0]) or st.is_eq(v[1] - e[1])):
                segs.append((r, Seg(lay, r[1], r[2], r[2] + 1, o.cells[lay.prev][1], o.cells[lay.next][1], o.alloc[0])))
    for r, c in segs:
        del st.mem[r]
    cs = [c for c in st.chunks] + [c for r, c in segs]
    ch = True
    while ch:
        ch = False
        for a in cs:
            for b in cs:
                if a is b or not isinstance(a, Seg) or not isinstance(b, Seg) or a.fam != b.fam:
                    continue
                if st.is_eq(a.hi - b.lo) and st.is_eq(a.aid - b.aid) and same_ptr(st, a.after, b.ptr(b.lo)) and same_ptr(st, b.before, a.ptr(a.hi - 1)):
                    cs = [c for c in cs if c is not a and c is not b]
                    cs.append(Seg(lay, a.fam, a.lo, b.hi, a.before, b.after, a.aid))
                    ch = True
                    break
            if ch:
                break

    def cmp(a, b):
        if a.sortkey() != b.sortkey():
            return -1 if a.sortkey() < b.sortkey() else 1
        if isinstance(a, Seg) and isinstance(b, Seg):
            if st.holds(b.lo - a.hi):
                return -1
            if st.holds(a.lo - b.hi):
                return 1
        return 0
    cs.sort(key=functools.cmp_to_key(cmp))
    st.chunks = tuple(cs)


# ---- merging ------------------------------------------------------------------------------------------------------
# The order of two sorted lists S and T is given by two ascending functions of j: T[j] is greater than exactly the elements
# S[0, b(j)) and smaller than exactly the elements from S[c(j)]; the stable merge puts T[j] right before S[c(j)].
# M[0, i+j) are the nodes known to hold the merge of S[0, i) and T[0, j); ghost `mrg` is (i, j, b(j), c(j)).
def m_len(st):
    return [st.norm(sym(x)) if x else ZERO for x in st.ghost['_mlen']]


def m_cands(lay, st):
    if 'mrg' not in st.ghost:
        return []
    i, j, b, c = st.ghost['mrg']
    n, m = m_len(st)
    out = [c - i, c - i - 1, i - c, n - c, n - i, n - i - 1, m - j, m - j - 1, c - b, b, i, j]
    for q in m_refs(st, 'M') + [x.hi for x in st.chunks if isinstance(x, Seg) and x.fam == 'M']:
        for e in range(3):
            out += [q - i - j + e, i + j - q - e]
    for fam, a in (('S', i), ('T', j)):
        for q in m_refs(st, fam) + [x.lo for x in st.chunks if isinstance(x, Seg) and x.fam == fam]:
            for e in (-1, 0, 1):
                out += [q - a + e, a - q - e]
    return out


def m_next(st, g):
    """the numbers of the next element of T"""
    n = m_len(st)[0]
    b, c = st.fresh(), st.fresh()
    for l in (b - g[2], c - g[3], c - b, n - c):
        st.assume(l)
    return b, c


def m_less(st, x, y):
    g = st.ghost['mrg']
    S, T = x[0] == 'S', x[0] == 'T'
    if x[0] == y[0]:
        if x[0] in ('S', 'T') and st.decide(x[1] - y[1]):
            return ZERO
        raise Unk('order of two elements of one list')
    if {x[0], y[0]} != {'S', 'T'}:
        raise Unk('order of an element that has been merged already')
    j, i = (x[1], y[1]) if T else (y[1], x[1])
    ent = [(g[1], g[2], g[3])] + list(st.ghost.get('mrgx', ()))
    for jj, b, c in ent:
        if st.decide_eq(j - jj):
            break
    else:
        top = ent[-1]
        if st.wide or not st.holds(j - top[0] - 1):
            raise Unk('order of an element out of turn')
        b, c = m_next(st, (None, None, top[1], top[2]))
        st.ghost['mrgx'] = st.ghost.get('mrgx', ()) + ((j, b, c),)
    return L(int(st.decide(i - c))) if T else L(int(st.decide(b - i - 1)))


def m_advance(st, g, k):
    """T[j, j+k) joins the merge"""
    x = [e for e in st.ghost.get('mrgx', ()) if st.holds(e[0] - g[1] - k)]
    if x and st.is_eq(x[0][0] - g[1] - k):
        st.ghost['mrgx'] = tuple(x[1:])
        return (g[0], g[1] + k, x[0][1], x[0][2])
    if st.ghost.get('mrgx'):
        st.ghost['mrgx'] = tuple(x)
    b, c = m_next(st, g)
    return (g[0], g[1] + k, b, c)


def m_fold(lay, st):
    if 'mrg' not in st.ghost:
        return
    while m_fold1(lay, st):
        pass


def m_fold1(lay, st):
    i, j, b, c = g = st.ghost['mrg']
    head = st.ghost['_mhead']
    n, m = m_len(st)
    k = i + j
    at = head if st.is_eq(k) else P(('n', 'M', k - 1), L(lay.noff))
    segs = [x for x in st.chunks if isinstance(x, Seg) and x.fam in ('S', 'T') and same_ptr(st, x.before, at)]
    if len(segs) != 1:
        return False
    s = segs[0]
    if s.fam == 'S':
        if not st.is_eq(s.lo - i):
            return False
        if st.holds(c - s.hi):
            hi = s.hi
        else:
            qs = [q for q in m_refs(st, 'S') if st.holds(c - q) and st.holds(q - s.lo - 1) and st.holds(s.hi - 1 - q)]
            if not qs:
                return False
            hi = qs[0]
            for q in qs:
                if st.holds(q - hi):
                    hi = q
    else:
        if not st.is_eq(s.lo - j):
            return False
        if st.is_eq(i - n) and st.holds(c - n):
            hi = s.hi
        elif st.is_eq(c - i):
            hi = s.lo + 1
            if not st.is_eq(s.hi - hi) and not st.holds(s.hi - hi - 1):
                return False
        else:
            return False
    sh = k - s.lo
    # every known node name of the family is inside or outside of the run
    for q in m_refs(st, s.fam):
        if not (st.holds(s.lo - 1 - q) or st.holds(q - hi) or (st.holds(q - s.lo) and st.holds(hi - 1 - q))):
            return False

    def rr(r):
        if isinstance(r, tuple) and len(r) == 3 and r[0] == 'n' and r[1] == s.fam and st.holds(r[2] - s.lo) and st.holds(hi - 1 - r[2]):
            return ('n', 'M', r[2] + sh)
        return r

    def rv(v):
        return P(rr(v.reg), v.off) if isinstance(v, P) and v.reg is not None else v
    cs = [x for x in st.chunks if x is not s]
    whole = st.is_eq(s.hi - hi)
    cs.append(Seg(lay, s.fam, s.lo, hi, s.before, s.after if whole else s.ptr(hi), s.aid))
    new = cs[-1]
    if not whole:
        cs.append(Seg(lay, s.fam, hi, s.hi, s.ptr(hi - 1), s.after, s.aid))
    out = []
    for x in cs:
        if isinstance(x, Seg):
            x2 = Seg(lay, x.fam, x.lo, x.hi, rv(x.before), rv(x.after), x.aid)
            if x is new:
                x2.fam, x2.lo, x2.hi = 'M', x.lo + sh, x.hi + sh
            x = x2
        out.append(x)
    st.chunks = tuple(out)
    for f in st.frames:
        f.regs = {a: rv(v) for a, v in f.regs.items()}
    for r, o in list(st.mem.items()):
        if any(isinstance(v, P) and rv(v) is not v for z, v in o.cells.values()):
            o = o.copy()
            o.cells = {a: (z, rv(v)) for a, (z, v) in o.cells.items()}
            st.mem[r] = o
    ln = hi - s.lo
    if s.fam == 'S':
        st.ghost['mrg'] = (i + ln, j, b, c)
    else:
        st.ghost['mrg'] = m_advance(st, g, ln)
    fold(lay, st)
    return True


def m_refs(st, fam):
    out = []

    def add(v):
        if isinstance(v, P) and v.reg is not None and v.reg[0] == 'n' and v.reg[1] == fam and v.reg[2] not in out:
            out.append(v.reg[2])
    for f in st.frames:
        for v in f.regs.values():
            add(v)
    for r, o in st.mem.items():
        if r[0] == 'n' and r[1] == fam and r[2] not in out:
            out.append(r[2])
        for z, v in o.cells.values():
            add(v)
    for x in st.chunks:
        if isinstance(x, Seg):
            add(x.before)
            add(x.after)
    return out


def m_check(st, w):
    """the word is the stable merge of S and T"""
    n, m = m_len(st)
    g = st.ghost['mrg']
    i = j = ZERO
    bad = Bad('sem', 'the result is %s, not the merge of the two lists in order' % shw(w))
    k = ZERO
    while w and w[0][0] == 'M':
        if not st.decide_eq(w[0][1] - k):
            raise bad
        k = w[0][2]
        w = w[1:]
    if not st.decide_eq(k - g[0] - g[1]):
        raise bad
    i, j = g[0], g[1]
    run = []
    for f, a, b in w:
        if run and run[-1][0] == f and st.decide_eq(run[-1][2] - a):
            run[-1] = (f, run[-1][1], b)
        else:
            run.append((f, a, b))
    for f, a, b in run:
        if f not in ('S', 'T') or not st.decide_eq(a - (i if f == 'S' else j)):
            raise bad
        cur = g if st.decide_eq(j - g[1]) else None
        if f == 'S':
            if not st.decide_eq(j - m):
                if cur is None or not st.decide(cur[3] - b):
                    raise bad
            i = b
            continue
        k = 0
        while st.decide(b - j - 1):
            if cur is None:
                raise bad
            if st.decide_eq(i - n):
                if not st.decide(cur[3] - n):
                    raise bad
                if not st.decide_eq(b - m):
                    raise bad
                j = b
                break
            if not st.decide_eq(cur[3] - i):
                raise bad
            k += 1
            if k > 3:
                raise Unk('long run')
            g = cur = m_advance(st, cur, ONE)
            j = j + 1
    if not st.decide_eq(i - n) or not st.decide_eq(j - m):
        raise bad


# ---- sorting ------------------------------------------------------------------------------------------------------
# Merging is verified on its own; sorting is analysed with its specification.  R[a, b) are the nodes of S[a, b) in stable
# sorted order; ghost `_sort` lists the complete runs.
def s_run(st, lay, p, what):
    w, seen, aid = read(st, lay, p, what, False)
    w = [x for x in w if st.decide(x[2] - x[1] - 1)]
    if not w:
        return None, seen
    run = [w[0]]
    for x in w[1:]:
        if x[0] == run[0][0] and st.decide_eq(x[1] - run[0][2]):
            run[0] = (x[0], run[0][1], x[2])
        else:
            raise Bad('sem', 'sorting merges %s, which is not sorted' % shw(w))
    f, a, b = run[0]
    if f == 'S' and st.decide_eq(b - a - 1):
        return (a, b), seen
    if f == 'R' and any(st.is_eq(x - a) and st.is_eq(y - b) for x, y in st.ghost['_sort']):
        return (a, b), seen
    raise Bad('sem', 'sorting merges %s, which is not sorted' % shw(w))


def s_merge(lay, st, args):
    p, q = args[0], args[1]
    if not (isinstance(p, P) and isinstance(q, P) and p.off.const and q.off.const):
        return None
    if p.reg == q.reg and p.off == q.off:
        raise Bad('ub', 'a list is merged with itself')
    x, n1 = s_run(st, lay, p, 'a partly sorted list')
    y, n2 = s_run(st, lay, q, 'a partly sorted list')
    if y is None:
        return (None,)
    if x is None:
        new = y
    elif st.decide_eq(x[1] - y[0]):
        new = (x[0], y[1])
    elif st.decide_eq(y[1] - x[0]):
        raise Bad('sem', 'sorting merges later elements before earlier ones: equal elements change their order')
    else:
        raise Unk('merge of parts that are not neighbours')
    gone = n1 + n2
    aid = None
    names = []
    for k in gone:
        if isinstance(k, Seg):
            aid = k.aid
            names.append((k.fam, k.lo, k.hi))
        else:
            aid = st.mem[k].alloc[0]
            names.append((k[1], k[2], k[2] + 1) if k[0] == 'n' else k)
            del st.mem[k]
    st.chunks = tuple(c for c in st.chunks if not any(c is k for k in gone))

    def stale(v):
        if isinstance(v, P) and v.reg is not None:
            if v.reg in names:
                return TOP
            if v.reg[0] == 'n' and any(len(m) == 3 and m[0] == v.reg[1] and not (st.holds(v.reg[2] - m[2]) or st.holds(m[1] - 1 - v.reg[2])) for m in names):
                return TOP
        return v
    for f in st.frames:
        f.regs = {a: stale(v) for a, v in f.regs.items()}
    for r, o in list(st.mem.items()):
        if any(isinstance(v, P) and stale(v) is not v for z, v in o.cells.values()):
            o = o.copy()
            o.cells = {a: (z, stale(v)) for a, (z, v) in o.cells.items()}
            st.mem[r] = o
    h1, h2 = P(p.reg, L(lay.hoff + p.off.c)), P(q.reg, L(lay.hoff + q.off.c))
    seg = Seg(lay, 'R', new[0], new[1], h1, h1, aid)
    st.chunks += (seg,)
    for hd, a, b in ((h1, seg.ptr(new[0]), seg.ptr(new[1] - 1)), (h2, h2, h2)):
        o = st.mem[hd.reg].copy()
        at = hd.off.c - lay.hoff
        o.cells[lay.hn + at] = (8, a)
        o.cells[lay.hp + at] = (8, b)
        st.mem[hd.reg] = o
    st.ghost['_sort'] = tuple(r for r in st.ghost['_sort'] if not (st.is_eq(r[0] - new[0]) or st.is_eq(r[1] - new[1]))) + (new,)
    return (None,)


# ---- layout -----------------------------------------------------------------------------------------------------
def discover(mk):
    eng = mk()
    c = Ctx(eng)
    st = c.state()
    l = c.param(st, 'l', c.gsize('sz_C'))
    e = c.err(st)
    a = c.alloc(st, 'a', L(77))
    x = c.elem(st, 'x', ('$x', ZERO))
    y = c.elem(st, 'y', ('$y', ZERO))
    it = c.param(st, 'it', c.gsize('sz_T'))
    res = []

    def post(s2, ret, thrown):
        if thrown:
            raise Bad('exc', 'an exception leaves a nothrow operation')
        if not check_err(s2, e):
            res.append(s2)
    eng.enter(st, '@l_setup', [l, e, a, x, y, it])
    eng.run('l_setup', [st], post)
    for s2 in res:
        y_ = Lay()
        nx = [r for r, o in s2.mem.items() if o.kind == 'heap' and [v for v in o.elems.values()] == [('$x', ZERO)]]
        ny = [r for r, o in s2.mem.items() if o.kind == 'heap' and [v for v in o.elems.values()] == [('$y', ZERO)]]
        if len(nx) != 1 or len(ny) != 1:
            continue
        nx, ny = nx[0], ny[0]
        y_.nsize = s2.mem[nx].alloc[2]
        y_.eoff = list(s2.mem[nx].elems)[0]
        y_.a = y_.hn = y_.hp = y_.next = y_.prev = None
        for off, (z, v) in s2.mem[l.reg].cells.items():
            if isinstance(v, L) and v == L(77):
                y_.a = off
            elif isinstance(v, P) and v.reg == nx:
                y_.hn = off
                y_.noff = v.off.c
            elif isinstance(v, P) and v.reg == ny:
                y_.hp = off
        for off, (z, v) in s2.mem[nx].cells.items():
            if isinstance(v, P) and v.reg == ny:
                y_.next = off
            elif isinstance(v, P) and v.reg == l.reg:
                y_.prev = off
                y_.hoff = v.off.c
        if None in (y_.a, y_.hn, y_.hp, y_.next, y_.prev):
            continue
        ic = sorted(s2.mem[it.reg].cells.items())
        if len(ic) != 1 or not isinstance(ic[0][1][1], P) or ic[0][1][1].reg != nx:
            continue
        y_.it = ic[0][0]
        y_.itoff = ic[0][1][1].off.c
        return y_, eng
    return None, eng


LAYKEY = 'list'
LAYKEYS = ('nsize', 'eoff', 'a', 'hn', 'hp', 'next', 'prev', 'noff', 'hoff', 'it', 'itoff')


def lay_save(lay, mk):
    d = lay_json(lay, LAYKEYS)
    d['size'] = Ctx(mk()).gsize('sz_C')
    return d


def fallback(mk, ref, eng0):
    eng = mk()
    c = Ctx(eng)
    if ref is None or c.gsize('sz_C') != ref['size'] or eng0 is None or eng0.asizes - {ref['nsize']}:
        return None
    st = c.state()
    l = c.param(st, 'l', c.gsize('sz_C'))
    a = c.alloc(st, 'a', L(77))
    out = []
    eng.enter(st, '@l_ctor', [l, a])
    eng.run('l_ctor', [st], lambda s2, ret, th: out.append(s2))
    if len(out) != 1:
        return None
    cells = out[0].mem[l.reg].cells
    head = P(l.reg, L(ref['hoff']))
    if sorted(cells) != sorted([ref['a'], ref['hn'], ref['hp']]) or cells[ref['a']][1] != L(77) or \
            any(cells[ref[k]][1] != head for k in ('hn', 'hp')):
        return None
    lay = Lay()
    lay.__dict__.update(ref)
    return lay


class Lst:
    def __init__(s, k, st, name, src, n, aid):
        s.name, s.src, s.n, s.aid = name, src, n, aid
        lay = s.lay = k.lay
        s.p = k.c.param(st, name, k.c.gsize('sz_C'))
        o = st.mem[s.p.reg]
        o.cells[lay.a] = (8, aid)
        s.head = P(s.p.reg, L(lay.hoff))
        if n == ZERO:
            o.cells[lay.hn] = (8, s.head)
            o.cells[lay.hp] = (8, s.head)
        else:
            st.assume(n - 1)
            st.assume(MAXN - n)
            o.cells[lay.hn] = (8, P(('n', src, ZERO), L(lay.noff)))
            o.cells[lay.hp] = (8, P(('n', src, n - 1), L(lay.noff)))
            st.chunks = st.chunks + (Seg(lay, src, ZERO, n, s.head, s.head, aid),)

    def word(s):
        return [piece(s.src, 0, s.n)]

    def at(s, i):
        """pointer for an iterator at position i (None: end)"""
        return s.head if i is None else P(('n', s.src, i), L(s.lay.noff))


def read(st, lay, p, what='the list', own=True):
    """representation invariant; returns word with node names [(src, lo, hi)], set of nodes seen, allocator"""
    at = p.off.c
    head = P(p.reg, L(lay.hoff + at))
    o = st.obj(p.reg)

    def cell(o, off, w):
        c = o.pc(off)
        if c is None or not isinstance(c[1], P) or c[1].reg is None:
            raise Bad('rep', '%s: %s is not a valid link' % (what, w))
        return c[1]
    aid = o.nc(lay.a + at)
    if aid is None or not isinstance(aid[1], L):
        raise Bad('rep', '%s is left without an allocator' % what)
    aid = aid[1]
    w = []
    seen = []
    cur, prev = cell(o, lay.hn + at, 'first'), head
    n = 0
    while True:
        n += 1
        if n > 40:
            raise Bad('rep', '%s: the chain of nodes does not come back to its head' % what)
        if cur.reg == head.reg:
            if not st.is_eq(cur.off - head.off):
                raise Bad('rep', '%s: wrong link to the head' % what)
            break
        if cur.reg[0] == 'n':
            r = ('n', cur.reg[1], st.norm(cur.reg[2]))
            hit = None
            for q in list(st.mem):
                if q[0] == 'n' and q[1] == r[1] and st.decide_eq(q[2] - r[2]):
                    hit = q
            if hit is None:
                for c in st.chunks:
                    if isinstance(c, Seg) and c.fam == r[1] and st.decide(r[2] - c.lo) and st.decide(c.hi - 1 - r[2]):
                        hit = c
                        break
            if hit is None:
                raise Bad('rep', '%s links to a node that is not allocated any more' % what)
            if isinstance(hit, Seg):
                if not st.decide_eq(hit.lo - r[2]):
                    raise Bad('rep', '%s: link into the middle of a chain' % what)
                if own and not st.decide_eq(hit.aid - aid):
                    raise Bad('block', '%s owns nodes of another allocator' % what)
                if not st.is_eq(cur.off - L(lay.noff)) or not eqp(st, hit.before, prev):
                    raise Bad('rep', '%s: backward link does not match the forward link' % what)
                if any(x is hit for x in seen):
                    raise Bad('rep', '%s: a node is linked twice' % what)
                seen.append(hit)
                e = fam_elem(hit.fam, hit.lo)
                w.append((e[0], e[1], e[1] + (hit.hi - hit.lo)))
                prev = hit.ptr(hit.hi - 1)
                cur = hit.after
                continue
            key = hit
        else:
            key = cur.reg
            if key not in st.mem:
                raise Bad('rep', '%s links to a node that is not allocated any more' % what)
        o = st.mem[key]
        if o.kind != 'heap' or o.alloc is None:
            raise Bad('rep', '%s links to something that is not a node' % what)
        if key in seen:
            raise Bad('rep', '%s: a node is linked twice' % what)
        seen.append(key)
        if own and not st.decide_eq(o.alloc[0] - aid):
            raise Bad('block', '%s owns nodes of another allocator' % what)
        e = o.elems.get(lay.eoff)
        if e is None:
            raise Bad('life', '%s contains a node without a living element' % what)
        if not st.is_eq(cur.off - L(lay.noff)) or not eqp(st, cell(o, lay.prev, 'previous node'), prev):
            raise Bad('rep', '%s: backward link does not match the forward link' % what)
        w.append((e[0], e[1], e[1] + 1))
        prev = P(key, L(lay.noff))
        cur = cell(o, lay.next, 'next node')
    if not eqp(st, cell(st.obj(p.reg), lay.hp + at, 'last'), prev):
        raise Bad('rep', '%s: the last node is not the end of the chain' % what)
    return w, seen, aid


def eqp(st, a, b):
    if a.reg is None or b.reg is None:
        return a.reg is None and b.reg is None
    if a.reg[0] == 'n' and b.reg[0] == 'n':
        if a.reg[1] != b.reg[1] or not st.decide_eq(a.reg[2] - b.reg[2]):
            return False
    elif a.reg != b.reg:
        return False
    return st.decide_eq(a.off - b.off)


def leaks(st, seen):
    ids = [x for x in seen if isinstance(x, tuple)]
    for c in st.chunks:
        if not any(c is x for x in seen):
            if isinstance(c, Seg) and not st.decide(c.hi - c.lo - 1):
                continue
            raise Bad('block', 'nodes are lost: neither linked nor returned to the allocator')
    for r, o in st.mem.items():
        if o.kind == 'heap' and r not in ids:
            raise Bad('block', 'a node is lost: neither linked nor returned to the allocator')
        if o.kind == 'exc':
            raise Bad('exc', 'exception object is leaked')


def make(c, lay, mode):
    k = LC(c, lay, mode)
    c.eng.hooks.folders = [lambda eng, st: fold(lay, st), lambda eng, st: m_fold(lay, st)]
    h = c.eng.hooks
    h.extra_candidates = lambda st: m_cands(lay, st)
    plain_less = h.get('@__v_less')

    def less(eng, st, a, i):
        if 'mrg' not in st.ghost:
            return plain_less(eng, st, a, i)
        x, y = h.src(st, a[0], 'comparison of')[1], h.src(st, a[1], 'comparison of')[1]
        return m_less(st, x, y)
    h.t['@__v_less'] = less
    h.contract = lambda eng, st, name, args, i: s_merge(lay, st, args) if '_sort' in st.ghost and '5merge' in name and len(args) > 1 else None
    return k


class LC:
    def __init__(s, c, lay, mode):
        s.c, s.lay, s.mode = c, lay, mode

    def variants(s, name='l', src='S', alloc='a'):
        for full in (True, False):
            st = s.c.state()
            yield st, s.lst(st, name, src, alloc, full)

    def lst(s, st, name, src, alloc, full=True):
        return Lst(s, st, name, src, sym(name + '.n') if full else ZERO, sym(alloc))

    def pairs(s):
        for f1 in (True, False):
            for f2 in (True, False):
                st = s.c.state()
                l = s.lst(st, 'l', 'S', 'a', f1)
                o = s.lst(st, 'o', 'T', 'b', f2)
                yield st, l, o

    def it(s, st, name, ptr, const=True):
        p = s.c.param(st, name, s.c.gsize('sz_K' if const else 'sz_T'))
        st.mem[p.reg].cells[s.lay.it] = (8, P(ptr.reg, ptr.off - s.lay.noff + s.lay.itoff) if ptr.reg[0] == 'n' else ptr)
        return p

    def out(s, st, name='out', const=False):
        return s.c.param(st, name, s.c.gsize('sz_K' if const else 'sz_T'))

    def positions(s, st, l, name='p', strict=False):
        """yields (state, iterator pointer, index)"""
        if l.n != ZERO:
            s1 = st.clone()
            p = sym(name)
            s1.assume(p)
            s1.assume(l.n - 1 - p)
            yield s1, l.at(p), p
        if not strict:
            yield st.clone(), l.at(None), l.n

    def read_it(s, st, p):
        c = st.obj(p.reg).pc(s.lay.it)
        if c is None or not isinstance(c[1], P) or c[1].reg is None:
            raise Bad('sem', 'an indeterminate iterator is returned')
        return c[1]

    def expect(s, st, l, words, cat='sem', alloc=None, others=()):
        w, seen, aid = read(st, s.lay, l.p, 'the list')
        fresh_check(w)
        if alloc is not None and not st.decide_eq(aid - alloc):
            raise Bad('block', 'the list ends up with a wrong allocator')
        if not any(word_eq(st, w, x) for x in words):
            raise Bad(cat, 'content is %s, expected %s' % (shw(w), ' or '.join(shw(x) for x in words)))
        for o, ow, oc in others:
            w2, seen2, aid2 = read(st, s.lay, o.p, 'the other list')
            if ow is not None and not word_eq(st, w2, ow):
                raise Bad(oc, 'the other list contains %s, expected %s' % (shw(w2), shw(ow)))
            seen = seen + seen2
        leaks(st, seen)
        return w, seen, aid

    def designates(s, st, ptr, l, w_idx, word_len):
        """the iterator designates the element number w_idx of the list (or its end)"""
        w, seen, aid = read(st, s.lay, l.p, 'the list')
        pos = ZERO
        nm = L(s.lay.noff)
        for pc, nd in zip(w, seen):
            ln = pc[2] - pc[1]
            if isinstance(nd, Seg):
                if ptr.reg[0] == 'n' and ptr.reg[1] == nd.fam and st.decide(ptr.reg[2] - nd.lo) and st.decide(nd.hi - 1 - ptr.reg[2]):
                    return st.decide_eq(pos + (ptr.reg[2] - nd.lo) - w_idx)
            elif eqp(st, P(nd, nm), P(ptr.reg, ptr.off + s.lay.noff - s.lay.itoff)):
                return st.decide_eq(pos - w_idx)
            pos = pos + ln
        if ptr.reg == l.p.reg:
            return st.decide_eq(pos - w_idx)
        return False


A_, B_ = sym('a'), sym('b')


@drv('l_ctor', 'ctor')
def _(k):
    st = k.c.state()
    p = k.c.param(st, 'l', k.c.gsize('sz_C'))
    a = k.c.alloc(st, 'al', A_)

    def post(st, ret, th):
        normal(th)
        w, seen, aid = read(st, k.lay, p)
        leaks(st, seen)
        if w:
            raise Bad('sem', 'a new list is not empty')
        if not st.decide_eq(aid - A_):
            raise Bad('block', 'the constructor does not keep the given allocator')
    yield st, [p, a], post


@drv('l_ctor_default', 'ctor')
def _(k):
    st = k.c.state()
    p = k.c.param(st, 'l', k.c.gsize('sz_C'))

    def post(st, ret, th):
        normal(th)
        w, seen, aid = read(st, k.lay, p)
        if w:
            raise Bad('sem', 'a new list is not empty')
    yield st, [p], post


@drv('l_ctor_move', 'move')
def _(k):
    for st, o in k.variants('o', 'T', 'b'):
        class N:
            pass
        l = N()
        l.p = k.c.param(st, 'l', k.c.gsize('sz_C'))

        def post(st, ret, th, l=l, o=o):
            normal(th)
            k.expect(st, l, [o.word()], 'move', B_, [(o, [], 'move')])
        yield st, [l.p, o.p], post


@drv('l_dtor', 'dtor')
def _(k):
    for st, l in k.variants():
        def post(st, ret, th):
            normal(th)
            leaks(st, [])
        yield st, [l.p], post


@drv('l_get_allocator', 'access')
def _(k):
    for st, l in k.variants():
        out = k.c.param(st, 'out', k.c.gsize('sz_A'))

        def post(st, ret, th, l=l, out=out):
            normal(th)
            k.expect(st, l, [l.word()], 'sem', A_)
            v = st.load(out, 8, False)
            if not isinstance(v, L) or not st.decide_eq(v - A_):
                raise Bad('block', 'get_allocator returns another allocator')
        yield st, [l.p, out], post


@drv('l_move_assign', 'move')
def _(k):
    for st, l, o in k.pairs():
        def post(st, ret, th, l=l, o=o):
            normal(th)
            k.expect(st, l, [o.word()], 'move', B_, [(o, [], 'move')])
        yield st, [l.p, o.p], post
    for st, l in k.variants():
        def post(st, ret, th, l=l):
            normal(th)
            k.expect(st, l, [l.word(), []], 'move', A_)
        yield st, [l.p, l.p], post


@drv('l_swap', 'swap')
def _(k):
    for st, l, o in k.pairs():
        def post(st, ret, th, l=l, o=o):
            normal(th)
            k.expect(st, l, [o.word()], 'move', B_, [(o, l.word(), 'move')])
            w, seen, aid = read(st, k.lay, o.p)
            if not st.decide_eq(aid - A_):
                raise Bad('block', 'swap does not exchange the allocators')
        yield st, [l.p, o.p], post
    for st, l in k.variants():
        def post(st, ret, th, l=l):
            normal(th)
            k.expect(st, l, [l.word()], 'move', A_)
        yield st, [l.p, l.p], post


def upd_post(k, l, e, full, args, fails, allowed=('self4',), others=(), alloc=A_, cat='sem'):
    """full: content on success; fails: list of predicates on the word after a failure"""
    def post(st, ret, th):
        normal(th)
        args_intact(st, args)
        bad = check_err(st, e, allowed)
        if not bad:
            k.expect(st, l, [full], cat, alloc, others)
        else:
            w, seen, aid = read(st, k.lay, l.p)
            fresh_check(w)
            if not st.decide_eq(aid - alloc):
                raise Bad('block', 'the list ends up with a wrong allocator')
            for o, ow, oc in others:
                w2, seen2, aid2 = read(st, k.lay, o.p, 'the other list')
                if not word_eq(st, w2, ow):
                    raise Bad(oc, 'the other list is changed')
                seen = seen + seen2
            leaks(st, seen)
            if not any(f(st, w) for f in fails):
                raise Bad('fail', 'a failed operation leaves %s' % shw(w))
    return post


def prefix_of(parts):
    return lambda st, w: is_split_prefix(st, w, parts)


def same(word):
    return lambda st, w: word_eq(st, w, word)


for _n in ('l_copy', 'l_two_phase'):
    @drv(_n, 'copy')
    def _(k, _n=_n):
        for st, l, o in k.pairs():
            if _n == 'l_two_phase' and l.n != ZERO:
                continue
            e = k.c.err(st)
            yield st, [l.p, e, o.p], upd_post(k, l, e, o.word(), [], [prefix_of([piece('T', 0, o.n)]), same(l.word())], others=[(o, o.word(), 'copy')], cat='copy')
        if _n == 'l_copy':
            for st, l in k.variants():
                e = k.c.err(st)
                yield st, [l.p, e, l.p], upd_post(k, l, e, l.word(), [], [same(l.word())], (), cat='copy')


@drv('l_assign_n', 'assign')
def _(k):
    for st, l in k.variants():
        e = k.c.err(st)
        x = k.c.elem(st, 'x', X)
        m = sym('m')
        st.assume(m)
        st.assume(MAXN - m)
        yield st, [l.p, e, m, x], upd_post(k, l, e, [rep('$x', m)], [(x, X)], [prefix_of([rep('$x', m)]), same(l.word())])


for _n in ('l_assign_ptr', 'l_assign_in'):
    @drv(_n, 'assign')
    def _(k):
        for st, l in k.variants():
            e = k.c.err(st)
            m = sym('m')
            st.assume(m)
            st.assume(MAXN - m)
            f = k.c.array(st, 'R', 'R', m)
            yield st, [l.p, e, f, P(f.reg, m * ESZ)], upd_post(k, l, e, [piece('R', 0, m)], [], [prefix_of([piece('R', 0, m)]), same(l.word())])


@drv('l_eq', 'access')
def _(k):
    for st, l, o in k.pairs():
        d = sym('d')
        st.assume(d)
        st.ghost['_eq'] = ('S', 'T', d)

        def post(st, ret, th, l=l, o=o, d=d):
            normal(th)
            k.expect(st, l, [l.word()], 'sem', A_, [(o, o.word(), 'sem')])
            r = st.decide_eq(ret - 1)
            ref = st.decide_eq(l.n - o.n) and not st.decide(l.n - 1 - d)
            if r != ref:
                raise Bad('sem', 'equality of lists is wrong')
        yield st, [l.p, o.p], post


def acc(name, f, nonempty=False):
    @drv(name, 'access')
    def _(k):
        for st, l in k.variants():
            if nonempty and l.n == ZERO:
                continue
            args, chk = f(k, st, l)

            def post(st, ret, th, l=l, chk=chk):
                normal(th)
                k.expect(st, l, [l.word()], 'sem', A_)
                chk(st, ret)
            yield st, [l.p] + args, post


def elem_at(k, i):
    def chk(st, ret, k=k):
        if not (isinstance(ret, P) and ret.reg is not None and ret.reg[0] == 'n' and ret.reg[1] == 'S' and st.decide_eq(ret.reg[2] - i)
                and st.decide_eq(ret.off - k.lay.eoff)):
            raise Bad('sem', 'a reference to a wrong element is returned')
    return chk


for _n in ('l_front', 'l_front_c'):
    acc(_n, lambda k, st, l: ([], elem_at(k, ZERO)), True)
for _n in ('l_back', 'l_back_c'):
    acc(_n, lambda k, st, l: ([], elem_at(k, l.n - 1)), True)


def it_out(pos, const):
    def f(k, st, l):
        o = k.out(st, 'out', const)

        def chk(st, ret):
            if not k.designates(st, k.read_it(st, o), l, pos(l), None):
                raise Bad('sem', 'an iterator to a wrong position is returned')
        return [o], chk
    return f


for _n in ('l_begin', 'l_begin_c', 'l_cbegin', 'l_rend', 'l_rend_c', 'l_crend'):
    acc(_n, it_out(lambda l: ZERO, _n not in ('l_begin', 'l_rend')))
for _n in ('l_end', 'l_end_c', 'l_cend', 'l_rbegin', 'l_rbegin_c', 'l_crbegin'):
    acc(_n, it_out(lambda l: l.n, _n not in ('l_end', 'l_rbegin')))


def num(f):
    def g(k, st, l):
        def chk(st, ret):
            if not isinstance(ret, L) or not st.decide_eq(ret - f(st, l)):
                raise Bad('sem', 'wrong value returned')
        return [], chk
    return g


acc('l_size', num(lambda st, l: l.n))
acc('l_empty', num(lambda st, l: L(int(l.n == ZERO))))
acc('l_max_size', lambda k, st, l: ([], lambda st, ret: None if isinstance(ret, L) and st.decide_eq(ret - L(((1 << 64) - 1) // k.lay.nsize)) else
                                    (_ for _ in ()).throw(Bad('sem', 'max_size promises more or fewer nodes than can be addressed'))))


def itop(name, strict, const, f):
    @drv(name, 'iter')
    def _(k):
        for st0, l in k.variants():
            for st, ptr, p in k.positions(st0, l, 'p', strict):
                i = k.it(st, 'i', ptr, const)
                yield f(k, st, l, ptr, p, i, const)


def deref(k, st, l, ptr, p, i, const):
    def post(st, ret, th):
        normal(th)
        k.expect(st, l, [l.word()], 'sem', A_)
        elem_at(k, p)(st, ret)
    return st, [l.p, i], post


for _n in ('l_it_deref', 'l_it_arrow', 'l_cit_deref', 'l_cit_arrow'):
    itop(_n, True, '_cit_' in _n, deref)


def step(d, postfix):
    def f(k, st, l, ptr, p, i, const):
        o = k.out(st, 'out', const)

        def post(st, ret, th):
            normal(th)
            k.expect(st, l, [l.word()], 'sem', A_)
            if not k.designates(st, k.read_it(st, i), l, p + d, None):
                raise Bad('sem', 'the iterator moves to a wrong position')
            if not k.designates(st, k.read_it(st, o), l, p if postfix else p + d, None):
                raise Bad('sem', 'the iterator operation returns a wrong position')
        if d < 0:
            st.assume(p - 1)
        return st, [l.p, i, o], post
    return f


for _c in ('it', 'cit'):
    for _s, _d in (('inc', 1), ('dec', -1)):
        for _q in ('', '_post'):
            itop('l_%s_%s%s' % (_c, _s, _q), _d > 0, _c == 'cit', None) if False else None


def stepdrv(name, const, d, postfix):
    @drv(name, 'iter')
    def _(k):
        for st0, l in k.variants():
            for st, ptr, p in k.positions(st0, l, 'p', d > 0):
                if d < 0 and p == ZERO:
                    continue
                try:
                    if d < 0:
                        st.assume(p - 1)
                except Dead:
                    continue
                i = k.it(st, 'i', ptr, const)
                yield step(d, postfix)(k, st, l, ptr, p, i, const)


for _c in ('it', 'cit'):
    for _s, _d in (('inc', 1), ('dec', -1)):
        for _q in ('', '_post'):
            stepdrv('l_%s_%s%s' % (_c, _s, _q), _c == 'cit', _d, bool(_q))


@drv('l_cit_conv', 'iter')
def _(k):
    for st0, l in k.variants():
        for st, ptr, p in k.positions(st0, l):
            i = k.it(st, 'i', ptr, False)
            o = k.out(st, 'out', True)

            def post(st, ret, th, l=l, p=p, o=o):
                normal(th)
                if not k.designates(st, k.read_it(st, o), l, p, None):
                    raise Bad('sem', 'conversion changes the position of an iterator')
            yield st, [l.p, i, o], post


def cmpdrv(name, const, eq):
    @drv(name, 'iter')
    def _(k):
        for st0, l in k.variants():
            for st1, ptr, p in k.positions(st0, l):
                for st, ptr2, q in k.positions(st1, l, 'q'):
                    i = k.it(st, 'i', ptr, const)
                    j = k.it(st, 'j', ptr2, const)

                    def post(st, ret, th, p=p, q=q):
                        normal(th)
                        if st.decide_eq(ret - 1) != (st.decide_eq(p - q) == eq):
                            raise Bad('sem', 'comparison of iterators is wrong')
                    yield st, [l.p, i, j], post


cmpdrv('l_it_eq', False, True)
cmpdrv('l_it_ne', False, False)
cmpdrv('l_cit_eq', True, True)
cmpdrv('l_cit_ne', True, False)


@drv('l_clear', 'modify')
def _(k):
    for st, l in k.variants():
        def post(st, ret, th, l=l):
            normal(th)
            k.expect(st, l, [[]], 'sem', A_)
        yield st, [l.p], post


def ins_post(k, l, e, p, mid, args, out=None):
    base = upd_post(k, l, e, [piece('S', 0, p), mid, piece('S', p, l.n)], args, [same(l.word())])

    def post(st, ret, th):
        base(st, ret, th)
        if out is not None:
            bad = st.ghost.get('fail')
            if not k.designates(st, k.read_it(st, out), l, l.n if bad else p, None):
                raise Bad('sem', 'the returned iterator designates a wrong position')
    return post


def insdrv(name, mk, mid, need=None, own=False, hasout=True):
    @drv(name, 'modify', need)
    def _(k):
        for st0, l in k.variants():
            for st1, ptr, p in k.positions(st0, l):
                for st, ptr2, q in (k.positions(st1, l, 'q', True) if own else [(st1, None, None)]):
                    e = k.c.err(st)
                    pos = k.it(st, 'pos', ptr)
                    args, extra = mk(k, st, ptr2)
                    o = k.out(st)
                    yield st, [l.p, e, pos] + args + [o], ins_post(k, l, e, p, mid(q), extra, o)


def _x(k, st, q):
    x = k.c.elem(st, 'x', X)
    return [x], [(x, X)]


def _xm(k, st, q):
    return [k.c.elem(st, 'x', X)], []


def _q(k, st, q):
    return [k.it(st, 'q', q)], []


insdrv('l_insert', _x, lambda q: rep('$x', 1))
insdrv('l_insert_own', _q, lambda q: piece('S', q, q + 1), own=True)
insdrv('l_insert_move', _xm, lambda q: rep('$x', 1), 'MOVABLE')
insdrv('l_emplace', lambda k, st, q: ([sym('arg')], []), lambda q: rep('$argarg', 1))
insdrv('l_emplace_none', lambda k, st, q: ([], []), lambda q: rep('$default', 1))


def pushdrv(name, front, mk, mid, need=None, own=False):
    @drv(name, 'modify', need)
    def _(k):
        for st0, l in k.variants():
            for st, ptr2, q in (k.positions(st0, l, 'q', True) if own else [(st0, None, None)]):
                e = k.c.err(st)
                args, extra = mk(k, st, ptr2)
                yield st, [l.p, e] + args, ins_post(k, l, e, ZERO if front else l.n, mid(q), extra)


for _f in (True, False):
    _s = 'front' if _f else 'back'
    pushdrv('l_push_' + _s, _f, _x, lambda q: rep('$x', 1))
    pushdrv('l_push_%s_own' % _s, _f, _q, lambda q: piece('S', q, q + 1), own=True)
    pushdrv('l_push_%s_move' % _s, _f, _xm, lambda q: rep('$x', 1), 'MOVABLE')
    pushdrv('l_emplace_' + _s, _f, lambda k, st, q: ([sym('arg')], []), lambda q: rep('$argarg', 1))
    pushdrv('l_emplace_%s_none' % _s, _f, lambda k, st, q: ([], []), lambda q: rep('$default', 1))


@drv('l_insert_n', 'modify')
def _(k):
    for st0, l in k.variants():
        for st, ptr, p in k.positions(st0, l):
            e = k.c.err(st)
            x = k.c.elem(st, 'x', X)
            pos = k.it(st, 'pos', ptr)
            m = sym('m')
            st.assume(m)
            st.assume(MAXN - m)
            yield st, [l.p, e, pos, m, x], upd_post(k, l, e, [piece('S', 0, p), rep('$x', m), piece('S', p, l.n)], [(x, X)],
                                                    [split(p, l, rep('$x', m))])


def split(p, l, mid):
    """whole old content around a prefix of mid"""
    def f(st, w):
        w = list(w)
        n = wlen(w) - l.n
        if not st.decide(n):
            return False
        cut = (mid[0], mid[1], mid[1] + n)
        return st.decide(mid[2] - cut[2]) and word_eq(st, w, [piece('S', 0, p), cut, piece('S', p, l.n)])
    return f


for _n in ('l_insert_ptr', 'l_insert_in'):
    @drv(_n, 'modify')
    def _(k):
        for st0, l in k.variants():
            for st, ptr, p in k.positions(st0, l):
                e = k.c.err(st)
                pos = k.it(st, 'pos', ptr)
                m = sym('m')
                st.assume(m)
                st.assume(MAXN - m)
                f = k.c.array(st, 'R', 'R', m)
                mid = piece('R', 0, m)
                yield st, [l.p, e, pos, f, P(f.reg, m * ESZ)], upd_post(k, l, e, [piece('S', 0, p), mid, piece('S', p, l.n)], [], [split(p, l, mid)])


def erase_post(k, l, p, q, out=None):
    def post(st, ret, th):
        normal(th)
        k.expect(st, l, [[piece('S', 0, p), piece('S', q, l.n)]], 'sem', A_)
        if out is not None and not k.designates(st, k.read_it(st, out), l, p, None):
            raise Bad('sem', 'the returned iterator designates a wrong position')
    return post


@drv('l_erase', 'modify')
def _(k):
    for st0, l in k.variants():
        for st, ptr, p in k.positions(st0, l, 'p', True):
            pos = k.it(st, 'pos', ptr)
            o = k.out(st)
            yield st, [l.p, pos, o], erase_post(k, l, p, p + 1, o)


@drv('l_erase_range', 'modify')
def _(k):
    for st0, l in k.variants():
        for st1, ptr, p in k.positions(st0, l):
            for st, ptr2, q in k.positions(st1, l, 'q'):
                try:
                    st.assume(q - p)
                except Dead:
                    continue
                if not st.facts.feasible():
                    continue
                pos = k.it(st, 'pos', ptr)
                pos2 = k.it(st, 'pos2', ptr2)
                o = k.out(st)
                yield st, [l.p, pos, pos2, o], erase_post(k, l, p, q, o)


@drv('l_pop_back', 'modify')
def _(k):
    for st, l in k.variants():
        if l.n != ZERO:
            yield st, [l.p], erase_post(k, l, l.n - 1, l.n)


@drv('l_pop_front', 'modify')
def _(k):
    for st, l in k.variants():
        if l.n != ZERO:
            yield st, [l.p], erase_post(k, l, ZERO, ONE)


# ---- splice -----------------------------------------------------------------------------------------------------
def same_alloc(k):
    """two lists with the same allocator: precondition of splice and merge"""
    for f1 in (True, False):
        for f2 in (True, False):
            st = k.c.state()
            yield st, k.lst(st, 'l', 'S', 'a', f1), k.lst(st, 'o', 'T', 'a', f2)


def spl_post(k, l, o, full, rest):
    def post(st, ret, th):
        normal(th)
        k.expect(st, l, [full], 'sem', A_, [(o, rest, 'sem')] if o is not None else [])
    return post


for _n in ('l_splice_all', 'l_splice_all_r'):
    @drv(_n, 'splice')
    def _(k):
        for st0, l, o in same_alloc(k):
            for st, ptr, p in k.positions(st0, l):
                pos = k.it(st, 'pos', ptr)
                yield st, [l.p, pos, o.p], spl_post(k, l, o, [piece('S', 0, p), piece('T', 0, o.n), piece('S', p, l.n)], [])

for _n in ('l_splice_one', 'l_splice_one_r'):
    @drv(_n, 'splice')
    def _(k):
        for st0, l, o in same_alloc(k):
            for st1, ptr, p in k.positions(st0, l):
                for st, ptr2, q in k.positions(st1, o, 'q', True):
                    pos = k.it(st, 'pos', ptr)
                    it = k.it(st, 'it', ptr2)
                    yield st, [l.p, pos, o.p, it], spl_post(k, l, o, [piece('S', 0, p), piece('T', q, q + 1), piece('S', p, l.n)],
                                                            [piece('T', 0, q), piece('T', q + 1, o.n)])

for _n in ('l_splice_range', 'l_splice_range_r'):
    @drv(_n, 'splice')
    def _(k):
        for st0, l, o in same_alloc(k):
            for st1, ptr, p in k.positions(st0, l):
                for st2, ptr2, q in k.positions(st1, o, 'q'):
                    for st, ptr3, r in k.positions(st2, o, 'r'):
                        try:
                            st.assume(r - q)
                        except Dead:
                            continue
                        if not st.facts.feasible():
                            continue
                        pos = k.it(st, 'pos', ptr)
                        i, j = k.it(st, 'i', ptr2), k.it(st, 'j', ptr3)
                        yield st, [l.p, pos, o.p, i, j], spl_post(k, l, o, [piece('S', 0, p), piece('T', q, r), piece('S', p, l.n)],
                                                                  [piece('T', 0, q), piece('T', r, o.n)])


@drv('l_splice_own_one', 'splice')
def _(k):
    for st0, l in k.variants():
        for st1, ptr, p in k.positions(st0, l):
            for st, ptr2, q in k.positions(st1, l, 'q', True):
                pos = k.it(st, 'pos', ptr)
                it = k.it(st, 'it', ptr2)

                def post(st, ret, th, l=l, p=p, q=q):
                    normal(th)
                    if st.decide(q - p):
                        w = [piece('S', 0, p), piece('S', q, q + 1), piece('S', p, q), piece('S', q + 1, l.n)]
                    else:
                        w = [piece('S', 0, q), piece('S', q + 1, p), piece('S', q, q + 1), piece('S', p, l.n)]
                    k.expect(st, l, [w], 'sem', A_)
                yield st, [l.p, pos, it], post


@drv('l_splice_own_range', 'splice')
def _(k):
    for st0, l in k.variants():
        for st1, ptr, p in k.positions(st0, l):
            for st2, ptr2, q in k.positions(st1, l, 'q'):
                for st3, ptr3, r in k.positions(st2, l, 'r'):
                    for side in (0, 1, 2):
                        st = st3.clone()
                        try:
                            st.assume(r - q)
                            # the position must not lie inside of the range
                            st.assume(q - p - 1 if side == 0 else p - r if side == 1 else q - r)
                            if side == 2:
                                st.assume(r - p)
                        except Dead:
                            continue
                        if not st.facts.feasible():
                            continue
                        pos = k.it(st, 'pos', ptr)
                        i, j = k.it(st, 'i', ptr2), k.it(st, 'j', ptr3)

                        def post(st, ret, th, l=l, p=p, q=q, r=r, side=side):
                            normal(th)
                            if side != 1:
                                w = [piece('S', 0, p), piece('S', q, r), piece('S', p, q), piece('S', r, l.n)]
                            else:
                                w = [piece('S', 0, q), piece('S', r, p), piece('S', q, r), piece('S', p, l.n)]
                            k.expect(st, l, [w], 'sem', A_)
                        yield st, [l.p, pos, i, j], post


# ---- merging two sorted lists -----------------------------------------------------------------------------------------
for _n in ('l_merge', 'l_merge_r', 'l_merge_comp', 'l_merge_comp_r'):
    @drv(_n, 'merge')
    def _(k):
        for f1 in (True, False):
            for f2 in (True, False):
                st = k.c.state()
                l = k.lst(st, 'l', 'S', 'a', f1)
                o = k.lst(st, 'o', 'T', 'a', f2)
                st.ghost['_mlen'] = (f1 and 'l.n', f2 and 'o.n')
                st.ghost['_mhead'] = l.at(None)
                b, c = sym('~b'), sym('~c')
                if not f1:
                    b = c = ZERO
                else:
                    for x in (b, c - b, l.n - c):
                        st.assume(x)
                st.ghost['mrg'] = (ZERO, ZERO, b, c)

                def post(st, ret, th, l=l, o=o):
                    normal(th)
                    w, seen, aid = read(st, k.lay, l.p, 'the list')
                    w2, seen2, aid2 = read(st, k.lay, o.p, 'the other list')
                    if any(st.decide(x[2] - x[1] - 1) for x in w2):
                        raise Bad('sem', 'elements stay behind in the merged list')
                    leaks(st, seen + seen2)
                    m_check(st, w)
                yield st, [l.p, o.p], post


def sort_sizes(k):
    for st, l in k.variants():
        yield st, l, None
    for n in SORT_BIG:
        for st, l in k.variants():
            if l.n != ZERO:
                yield st, l, n


for _n in ('l_sort', 'l_sort_comp'):
    @drv(_n, 'sort', 'mode:n')
    def _(k):
        for st, l, big in sort_sizes(k):
            if l.n != ZERO:
                st.assume(L(big or SORT_MAX) - l.n)
                if big:
                    st.assume(l.n - big)
            st.ghost['_sort'] = ()

            def post(st, ret, th, l=l):
                normal(th)
                w, seen, aid = read(st, k.lay, l.p)
                leaks(st, seen)
                if not st.decide_eq(aid - A_):
                    raise Bad('block', 'the list ends up with a wrong allocator')
                if l.n == ZERO or st.decide_eq(st.norm(sym('l.n')) - 1):
                    if not word_eq(st, w, l.word()):
                        raise Bad('sem', 'sorting changes a list of less than two elements')
                    return
                r = s_run(st, k.lay, l.p, 'the list')[0]
                if r is None or not st.decide_eq(r[0]) or not st.decide_eq(r[1] - st.norm(sym('l.n'))):
                    raise Bad('sem', 'sorting loses elements')
            yield st, [l.p], post
