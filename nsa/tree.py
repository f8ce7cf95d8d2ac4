"""Shape domain for binary search trees with red-black colours: lazily unfolded subtrees and paths.

A node of a tree is named ('n', family, i), i being its in-order position.  `Sub` stands for a whole subtree (possibly
empty when `opt`), `Pth` for a path from a top node down to a bottom node together with everything that hangs off it;
the bottom node has one child (`hole`) outside of the path.  Colours (0 red, 1 black) and black heights are linear
terms, so choices are only made when the analysed code looks."""
from .lin import L, ZERO, ONE, lin, sym, Facts, tight, infeasible
from .engine import P, NULL, Bad, Unk, Dead, Obj, isconst, mapv, mapv2, LZ, Fork
from .listspec import fam_elem
from .hooks import fail
from .ir import uses, materialise

BLACK, RED = ONE, ZERO


def nm(fam, i):
    return ('n', fam, i)


def wmap(w, fl):
    return tuple((f, fl(a), fl(b)) for f, a, b in w)


def wn(st, w):
    return tuple((f, st.norm(a), st.norm(b)) for f, a, b in w)


def wlen(w):
    n = ZERO
    for _, a, b in w:
        n = n + (b - a)
    return n


def wclean(st, w):
    """drop pieces that are certainly empty"""
    return tuple(p for p in w if not st.holds(p[1] - p[2]))


def wsplit(st, w, fam, i):
    """(before, after) of node (fam, i), which belongs to w"""
    for k, (f, a, b) in enumerate(w):
        if f == fam and st.decide(i - a) and st.decide(b - 1 - i):
            return w[:k] + ((f, a, i),), ((f, i + 1, b),) + w[k + 1:]
    raise Dead()


def wcut(st, w):
    """cut a word at an arbitrary place"""
    w = wclean(st, w)
    if not w:
        return (), ()
    k = 0 if len(w) == 1 else st.choose(list(range(len(w))))
    f, a, b = w[k]
    if st.holds(a + 1 - b):     # one node
        if st.choose([True, False]):
            return w[:k + 1], w[k + 1:]
        return w[:k], w[k:]
    m = st.fresh()
    st.assume(m - a)
    st.assume(b - m)
    return w[:k] + ((f, a, m),), ((f, m, b),) + w[k + 1:]


def wlast(st, w):
    """(rest, name) where name is the last node of w"""
    w = list(w)
    while w:
        f, a, b = w[-1]
        if st.decide(b - a - 1):
            w[-1] = (f, a, b - 1)
            return tuple(w), nm(f, b - 1)
        w.pop()
    raise Dead()


def wfirst(st, w):
    w = list(w)
    while w:
        f, a, b = w[0]
        if st.decide(b - a - 1):
            w[0] = (f, a + 1, b)
            return tuple(w), nm(f, a)
        w.pop(0)
    raise Dead()


def winside(st, w, n):
    """assume that node n belongs to w"""
    ps = [p for p in w if p[0] == n[1]]
    if not ps:
        raise Dead()
    p = ps[0] if len(ps) == 1 else ps[st.choose(list(range(len(ps))))]
    st.assume(n[2] - p[1])
    st.assume(p[2] - 1 - n[2])


def wpick(st, w):
    """an arbitrary node of w"""
    w = wclean(st, w)
    if not w:
        raise Dead()
    k = 0 if len(w) == 1 else st.choose(list(range(len(w))))
    f, a, b = w[k]
    if st.is_eq(b - a - 1):
        return nm(f, a)
    m = st.fresh()
    st.assume(m - a)
    st.assume(b - 1 - m)
    return nm(f, m)


def colour(st, against=None):
    c = st.fresh('~c')
    st.assume(c)
    st.assume(ONE - c)
    if against is not None:
        st.assume(c + against - 1)
    return c


def is_name(st, n, fam, i):
    return n[1] == fam and st.is_eq(n[2] - i)


def eq_name(st, a, b):
    return a[1] == b[1] and st.decide_eq(a[2] - b[2])


def node(lay, fam, i, parent, col, aid):
    o = Obj('heap', lay.nsize, '')
    o.alloc = (aid, ONE, lay.nsize)
    o.elems = {lay.eoff: fam_elem(fam, i)}
    o.cells = {lay.col: (lay.csz, col), lay.par: (8, parent), lay.kid[0]: (8, NULL), lay.kid[1]: (8, NULL)}
    return o


class Sub:
    """word: its nodes in order; root: name of the root or None while it may be empty (then found as child `side` of
    `parent`); col/bh: colour and black height; kc: colour that restricts the children (differs from col only after the
    root has been repainted)"""

    def __init__(s, lay, word, root, parent, side, col, kc, bh, aid):
        s.lay, s.word, s.root, s.parent, s.side, s.col, s.kc, s.bh, s.aid = lay, word, root, parent, side, col, kc, bh, aid

    @property
    def elem_off(s):
        return s.lay.eoff

    def __repr__(s):
        return 'Sub(%r root=%r par=%r/%s col=%r kc=%r bh=%r a=%r)' % (s.word, s.root, s.parent, s.side, s.col, s.kc, s.bh, s.aid)

    def but(s, **kw):
        n = Sub(s.lay, s.word, s.root, s.parent, s.side, s.col, s.kc, s.bh, s.aid)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def map(s, fl):
        return Sub(s.lay, wmap(s.word, fl), None if s.root is None else nm(s.root[1], fl(s.root[2])), mapv(s.parent, fl), s.side,
                   fl(s.col), fl(s.kc), fl(s.bh), fl(s.aid))

    def sortkey(s):
        return ('sub', s.root is None, s.side if s.root is None else -1, tuple(p[0] for p in s.word), kind(s.parent))

    def canon(s, c):
        return ('sub', tuple((f, c.l(a), c.l(b)) for f, a, b in s.word), None if s.root is None else (s.root[1], c.l(s.root[2])),
                c.v(s.parent), s.side if s.root is None else -1, c.l(s.col, 'o'), c.l(s.kc, 'o'), c.l(s.bh, 'h'), c.l(s.aid, 'o'))

    def rebuild(s, fl):
        return Sub(s.lay, wmap(s.word, fl), None if s.root is None else nm(s.root[1], fl(s.root[2])), mapv2(s.parent, fl), s.side,
                   fl(s.col), fl(s.kc), fl(s.bh), fl(s.aid))

    def ptr(s):
        return P(s.root, L(s.lay.noff))

    def names(s, st, fam, i):
        return s.root is not None and is_name(st, s.root, fam, i)

    def owns(s, st, fam, i):
        for f, a, b in s.word:
            if f == fam and st.decide(i - a) and st.decide(b - 1 - i):
                return True
        return False

    def elem(s, k):
        return fam_elem(k[1], k[2])

    def peek(s, st, k, off, size):
        y = s.lay
        if s.root is None or not off.const or not eq_name(st, k, s.root):
            return None
        if off.c == y.col and size == y.csz:
            return s.col
        if off.c == y.par and size == 8:
            return s.parent
        return None

    def poke(s, st, k, off, size, v):
        y = s.lay
        if s.root is None or not off.const or not eq_name(st, k, s.root):
            return False
        if off.c == y.col and size == y.csz and isinstance(v, L):
            replace(st, s, s.but(col=v, bh=st.norm(s.bh + v - s.col)))
            return True
        if off.c == y.par and size == 8 and isinstance(v, P):
            replace(st, s, s.but(parent=v))
            return True
        return False

    def focus(s, st, fam, i):
        if s.root is None:
            # possibly empty, but it has a node: find its root
            resolve(st, s, True)
            return
        if s.root[1] == fam and st.decide_eq(s.root[2] - i):
            s.open(st)
        else:
            s.descend(st, fam, i)

    def open(s, st):
        y = s.lay
        f, i = s.root[1], st.norm(s.root[2])
        l, r = wsplit(st, s.word, f, i)
        drop(st, s)
        o = node(y, f, i, s.parent, s.col, s.aid)
        st.mem[nm(f, i)] = o
        me = P(nm(f, i), L(y.noff))
        h = s.bh - s.col
        hang(st, y, nm(f, i), 0, l, s.kc, h, s.aid)
        hang(st, y, nm(f, i), 1, r, s.kc, h, s.aid)
        tidy(st)

    def descend(s, st, fam, i):
        """materialise a node below the root: a path leads to it"""
        y = s.lay
        i = st.norm(i)
        before, after = wsplit(st, s.word, fam, i)
        drop(st, s)
        pre, l = wcut(st, before)
        r, suf = wcut(st, after)
        t = s.root
        # the root is on the left or on the right of the node
        where = []
        for k, w in ((1, pre), (0, suf)):
            if any(p[0] == t[1] for p in w):
                where.append(k)
        tside = where[0] if len(where) == 1 else st.choose(where)
        winside(st, pre if tside else suf, t)
        side = st.choose([0, 1])
        if side:
            _, b = wlast(st, pre)
        else:
            _, b = wfirst(st, suf)
        c = colour(st)
        bc = colour(st, c)
        h = st.fresh('~h')
        st.assume(h - c)
        st.assume(s.bh - s.col + s.kc - h - bc)
        st.assume(s.bh - s.col - h)
        n = Pth(y, pre, suf, t, b, s.parent, s.col, s.kc, s.bh, tside, side, bc, P(nm(fam, i), L(y.noff)), h, s.aid)
        put(st, n)
        n.settle(st)
        o = node(y, fam, i, P(b, L(y.noff)), c, s.aid)
        st.mem[nm(fam, i)] = o
        hang(st, y, nm(fam, i), 0, l, c, h - c, s.aid)
        hang(st, y, nm(fam, i), 1, r, c, h - c, s.aid)
        tidy(st)


class Pth:
    """top .. bottom: pre/suf are the nodes before/after the hole; tcol colour of the top, tk the colour that restricts its
    neighbours, tbh black height at the top when the hole has black height hbh; tside/side: direction of the path at the
    top / of the hole at the bottom"""

    def __init__(s, lay, pre, suf, top, bot, parent, tcol, tk, tbh, tside, side, bcol, hole, hbh, aid):
        (s.lay, s.pre, s.suf, s.top, s.bot, s.parent, s.tcol, s.tk, s.tbh, s.tside, s.side, s.bcol, s.hole, s.hbh, s.aid) = \
            (lay, pre, suf, top, bot, parent, tcol, tk, tbh, tside, side, bcol, hole, hbh, aid)

    @property
    def elem_off(s):
        return s.lay.eoff

    def __repr__(s):
        return 'Pth(%r _ %r top=%r bot=%r par=%r tcol=%r/%r tbh=%r side=%s/%s bcol=%r hole=%r hbh=%r a=%r)' % (
            s.pre, s.suf, s.top, s.bot, s.parent, s.tcol, s.tk, s.tbh, s.tside, s.side, s.bcol, s.hole, s.hbh, s.aid)

    def but(s, **kw):
        n = Pth(s.lay, s.pre, s.suf, s.top, s.bot, s.parent, s.tcol, s.tk, s.tbh, s.tside, s.side, s.bcol, s.hole, s.hbh, s.aid)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def map(s, fl):
        return Pth(s.lay, wmap(s.pre, fl), wmap(s.suf, fl), nm(s.top[1], fl(s.top[2])), nm(s.bot[1], fl(s.bot[2])), mapv(s.parent, fl),
                   fl(s.tcol), fl(s.tk), fl(s.tbh), s.tside, s.side, fl(s.bcol), mapv(s.hole, fl), fl(s.hbh), fl(s.aid))

    def sortkey(s):
        return ('pth', s.side, s.tside, tuple(p[0] for p in s.pre), tuple(p[0] for p in s.suf), kind(s.parent), kind(s.hole))

    def canon(s, c):
        return ('pth', s.single(c.st), tuple((f, c.l(a), c.l(b)) for f, a, b in s.pre), tuple((f, c.l(a), c.l(b)) for f, a, b in s.suf),
                (s.top[1], c.l(s.top[2])), (s.bot[1], c.l(s.bot[2])), c.v(s.parent), c.l(s.tcol, 'o'), c.l(s.tk, 'o'), c.l(s.tbh, 'h'),
                s.tside, s.side, c.l(s.bcol, 'o'), c.v(s.hole), c.l(s.hbh, 'h'), c.l(s.aid, 'o'))

    def rebuild(s, fl):
        pre = wmap(s.pre, fl)
        suf = wmap(s.suf, fl)
        t = nm(s.top[1], fl(s.top[2]))
        b = nm(s.bot[1], fl(s.bot[2]))
        return Pth(s.lay, pre, suf, t, b, mapv2(s.parent, fl), fl(s.tcol), fl(s.tk), fl(s.tbh), s.tside, s.side, fl(s.bcol),
                   mapv2(s.hole, fl), fl(s.hbh), fl(s.aid))

    def names(s, st, fam, i):
        return is_name(st, s.top, fam, i) or is_name(st, s.bot, fam, i)

    def owns(s, st, fam, i):
        for f, a, b in s.pre + s.suf:
            if f == fam and st.decide(i - a) and st.decide(b - 1 - i):
                return True
        return False

    def elem(s, k):
        return fam_elem(k[1], k[2])

    def single(s, st):
        if s.top[1] != s.bot[1]:
            return False
        return st.is_eq(s.top[2] - s.bot[2])

    def settle(s, st):
        """decide whether the path consists of one node"""
        st.assume(wlen(s.pre + s.suf) - s.tbh + s.hbh)
        if s.tside != s.side or s.top[1] != s.bot[1]:
            st.assume(s.tbh - s.hbh - s.tcol - s.bcol)
            return
        if not st.decide_eq(s.top[2] - s.bot[2]):
            st.assume((s.bot[2] - s.top[2] if s.side else s.top[2] - s.bot[2]) - 1)
            st.assume(s.tbh - s.hbh - s.tcol - s.bcol)
            return
        for f, a, b in s.suf if s.side else s.pre:
            st.assume_eq(b - a)
        st.assume_eq(s.bcol - s.tk)
        st.assume_eq(s.tbh - s.tcol - s.hbh)

    def peek(s, st, k, off, size):
        y = s.lay
        if not off.const:
            return None
        if off.c == y.col and size == y.csz:
            if is_name(st, s.top, k[1], k[2]):
                return s.tcol
            if is_name(st, s.bot, k[1], k[2]):
                if s.top[1] == s.bot[1] and not st.is_eq(s.tcol - s.tk) and st.decide_eq(s.top[2] - s.bot[2]):
                    return s.tcol
                return s.bcol
        if off.c == y.par and size == 8 and is_name(st, s.top, k[1], k[2]):
            return s.parent
        if off.c == y.kid[s.side] and size == 8 and is_name(st, s.bot, k[1], k[2]):
            return s.hole
        return None

    def poke(s, st, k, off, size, v):
        y = s.lay
        if not off.const:
            return False
        if off.c == y.par and size == 8 and isinstance(v, P) and is_name(st, s.top, k[1], k[2]):
            replace(st, s, s.but(parent=v))
            return True
        if off.c == y.kid[s.side] and size == 8 and isinstance(v, P) and is_name(st, s.bot, k[1], k[2]):
            replace(st, s, s.but(hole=v))
            return True
        if off.c == y.col and size == y.csz and isinstance(v, L) and is_name(st, s.top, k[1], k[2]) and not s.single(st):
            if s.top[1] == s.bot[1] and st.decide_eq(s.top[2] - s.bot[2]):
                return False
            replace(st, s, s.but(tcol=v, tbh=st.norm(s.tbh + v - s.tcol)))
            return True
        return False

    def focus(s, st, fam, i):
        if s.bot[1] == fam and st.decide_eq(i - s.bot[2]):
            return s.open_bottom(st)
        if s.top[1] == fam and st.decide_eq(i - s.top[2]):
            return s.open_top(st)
        raise Unk('node in the middle of a path')

    def open_bottom(s, st):
        y = s.lay
        b = nm(s.bot[1], st.norm(s.bot[2]))
        single = s.top[1] == s.bot[1] and st.decide_eq(s.top[2] - s.bot[2])
        drop(st, s)
        if single:
            if s.tside != s.side:
                raise Dead()
            if s.side:
                off, rest = wsplit(st, s.pre, b[1], b[2])
                rest += s.suf
            else:
                rest, off = wsplit(st, s.suf, b[1], b[2])
                rest += s.pre
            for f, x, z in rest:
                st.assume_eq(z - x)
            st.assume_eq(s.bcol - s.tk)
            st.assume_eq(s.tbh - s.tcol - s.hbh)
            o = node(y, b[1], b[2], s.parent, s.tcol, s.aid)
            o.cells[y.kid[s.side]] = (8, s.hole)
            st.mem[b] = o
            hang(st, y, b, 1 - s.side, off, s.tk, s.hbh, s.aid)
            tidy(st)
            return
        pre, suf = s.pre, s.suf
        if s.side:
            rest, _ = wsplit(st, pre, b[1], b[2])
            pre, off = wcut(st, rest)
        else:
            _, rest = wsplit(st, suf, b[1], b[2])
            off, suf = wcut(st, rest)
        winside(st, pre if s.tside else suf, s.top)
        side2 = st.choose([0, 1])
        if side2:
            _, b2 = wlast(st, pre)
        else:
            _, b2 = wfirst(st, suf)
        c2 = colour(st, s.bcol)
        h2 = st.norm(s.hbh + s.bcol)
        st.assume(s.tbh - s.tcol + s.tk - h2 - c2)
        st.assume(s.tbh - s.tcol - h2)
        o = node(y, b[1], b[2], P(b2, L(y.noff)), s.bcol, s.aid)
        o.cells[y.kid[s.side]] = (8, s.hole)
        st.mem[b] = o
        n = s.but(pre=pre, suf=suf, bot=b2, side=side2, bcol=c2, hole=P(b, L(y.noff)), hbh=h2)
        put(st, n)
        n.settle(st)
        hang(st, y, b, 1 - s.side, off, s.bcol, s.hbh, s.aid)
        tidy(st)

    def open_top(s, st):
        """top is not the bottom here"""
        y = s.lay
        t = nm(s.top[1], st.norm(s.top[2]))
        pre, suf = s.pre, s.suf
        drop(st, s)
        if s.tside:
            off, pre = wsplit(st, pre, t[1], t[2])
        else:
            suf, off = wsplit(st, suf, t[1], t[2])
        tside2 = st.choose([0, 1])
        t2 = wpick(st, pre if tside2 else suf)
        c2 = colour(st, s.tk)
        h = st.norm(s.tbh - s.tcol)
        st.assume(h - c2)
        st.assume(h - s.hbh - s.bcol)
        st.assume(h - s.hbh - c2)
        o = node(y, t[1], t[2], s.parent, s.tcol, s.aid)
        o.cells[y.kid[s.tside]] = (8, P(t2, L(y.noff)))
        st.mem[t] = o
        n = s.but(pre=pre, suf=suf, top=t2, parent=P(t, L(y.noff)), tcol=c2, tk=c2, tbh=h, tside=tside2)
        put(st, n)
        n.settle(st)
        hang(st, y, t, 1 - s.tside, off, s.tk, h, s.aid)
        tidy(st)


def kind(p):
    if not isinstance(p, P):
        return repr(p)
    return 'null' if p.reg is None else p.reg[1] if p.reg[0] == 'n' else p.reg[0]


def drop(st, c):
    st.chunks = tuple(x for x in st.chunks if x is not c)


def put(st, c):
    st.chunks = st.chunks + (c,)


def replace(st, c, n):
    st.chunks = tuple(n if x is c else x for x in st.chunks)


def tidy(st):
    """bring everything to normal form after symbols have been eliminated"""
    fl = st.norm
    st.chunks = tuple(c.map(fl) for c in st.chunks)
    ch = {}
    for r in list(st.mem):
        if r[0] == 'n':
            r2 = nm(r[1], fl(r[2]))
            o = st.mem.pop(r).map(fl)
            ch[r2] = o
    st.mem.update(ch)


def hang(st, lay, parent, side, word, against, bh, aid):
    """child subtree, empty or not"""
    parent = nm(parent[1], st.norm(parent[2]))
    word = wclean(st, wn(st, word))
    bh = st.norm(bh)
    o = st.mem[parent].copy()
    if not word:
        st.assume_eq(bh)
        parent = nm(parent[1], st.norm(parent[2]))
        o = st.mem[parent].copy()
        o.cells[lay.kid[side]] = (8, NULL)
        st.mem[parent] = o
        return
    st.assume(bh)
    st.assume(wlen(word) - bh)
    c = colour(st, against)
    o.cells[lay.kid[side]] = (8, LZ)
    st.mem[parent] = o
    put(st, Sub(lay, word, None, P(parent, L(lay.noff)), side, c, c, bh, aid))


def lazy_sub(st, lay, reg, side):
    for c in st.chunks:
        if isinstance(c, Sub) and c.root is None and c.side == side and c.parent.reg is not None and c.parent.reg[0] == 'n' \
                and c.parent.reg[1] == reg[1] and st.is_eq(c.parent.reg[2] - reg[2]):
            return c
    raise Unk('link without a subtree')


def set_kid(st, lay, reg, side, v):
    reg = nm(reg[1], st.norm(reg[2]))
    o = st.mem[reg].copy()
    o.cells[lay.kid[side]] = (8, v)
    st.mem[reg] = o


def resolve(st, c, full):
    """c is a possibly empty subtree: settle that"""
    lay = c.lay
    reg = c.parent.reg
    if not full:
        drop(st, c)
        for f, a, b in c.word:
            st.assume_eq(b - a)
        st.assume_eq(c.bh)
        st.assume_eq(c.col - 1)
        set_kid(st, lay, reg, c.side, NULL)
        tidy(st)
        return NULL
    drop(st, c)
    st.assume(c.bh - c.col)
    r = wpick(st, c.word)
    set_kid(st, lay, reg, c.side, P(r, L(lay.noff)))
    put(st, c.but(root=r))
    tidy(st)
    return st.norm_ptr(P(r, L(lay.noff)))


def force(lay, st, k, off):
    side = 0 if off == lay.kid[0] else 1
    c = lazy_sub(st, lay, k, side)
    return resolve(st, c, st.decide(wlen(c.word) - 1))


# ---- folding at loop heads ----------------------------------------------------------------------------------------
def live_after(fn, blk, ip):
    """SSA names that are still used behind the call at (blk, ip)"""
    memo = fn.__dict__.setdefault('_after', {})
    r = memo.get((blk, ip))
    if r is None:
        live = fn.liveness()
        b = fn.blocks[blk]
        out = set()
        for c in fn.succs(blk):
            out |= live[c] - {i.dst for i in fn.blocks[c] if i.op == 'phi'}
            for i in fn.blocks[c]:
                if i.op != 'phi':
                    break
                for v, p in i.a:
                    if p == blk and v[0] == 'l':
                        out.add(v[1])
        for i in reversed(b[ip + 1:]):
            if i.dst:
                out.discard(i.dst)
            if i.op != 'phi':
                out |= set(uses(i))
        r = memo[(blk, ip)] = out
    return r


def trim(st):
    for f in st.frames[:-1]:
        lv = live_after(f.fn, f.blk, f.ip)
        if any(k not in lv for k in f.regs):
            f.regs = {k: v for k, v in f.regs.items() if k in lv}
    # local objects that cannot be reached any more
    todo = []
    seen = set()

    def ref(v):
        if isinstance(v, P):
            if v.reg is not None and v.reg not in seen:
                seen.add(v.reg)
                todo.append(v.reg)
        elif isinstance(v, tuple):
            for x in v:
                ref(x)
        elif hasattr(v, 'v'):
            for x in v.v:
                ref(x)
    for f in st.frames:
        for v in f.regs.values():
            ref(v)
    for v in st.ghost.values():
        ref(v)
    for r, o in st.mem.items():
        if o.kind != 'stack':
            seen.add(r)
            todo.append(r)
    while todo:
        o = st.mem.get(todo.pop())
        if o is not None:
            for z, v in o.cells.values():
                ref(v)
    for r in [r for r, o in st.mem.items() if o.kind == 'stack' and r not in seen and not o.elems and o.segs is None]:
        del st.mem[r]


def fams(st):
    out = {}
    for r in st.mem:
        if r[0] == 'n':
            out.setdefault(r[1], []).append((r[2], r[2] + 1))
    for c in st.chunks:
        for f, a, b in (c.word if isinstance(c, Sub) else c.pre + c.suf):
            out.setdefault(f, []).append((a, b))
    return out


def rename(st, old, new):
    """give an explicit node its systematic name"""
    def rv(v):
        if isinstance(v, P):
            return P(new, v.off) if v.reg == old else v
        return v

    def rg(v):
        if isinstance(v, tuple):
            return new if v == old else tuple(rg(x) for x in v)
        return rv(v)
    for f in st.frames:
        if any(isinstance(v, P) and v.reg == old for v in f.regs.values()):
            f.regs = {k: rv(v) for k, v in f.regs.items()}
    mem = {}
    for r, o in st.mem.items():
        if any(isinstance(v, P) and v.reg == old for z, v in o.cells.values()):
            o = o.copy()
            o.cells = {k: (z, rv(v)) for k, (z, v) in o.cells.items()}
        mem[new if r == old else r] = o
    st.mem = mem
    ch = []
    for c in st.chunks:
        kw = {}
        for a in ('parent', 'hole'):
            v = getattr(c, a, None)
            if isinstance(v, P) and v.reg == old:
                kw[a] = rv(v)
        ch.append(c.but(**kw) if kw else c)
    st.chunks = tuple(ch)
    st.ghost = {k: rg(v) for k, v in st.ghost.items()}


def baptise(lay, st):
    for r in sorted((r for r in st.mem if r[0] == 'o'), key=lambda r: (len(r[1]), r[1])):
        o = st.mem[r]
        if o.kind != 'heap' or o.alloc is None or o.alloc[2] != lay.nsize or set(o.elems) != {lay.eoff}:
            continue
        v = o.elems[lay.eoff]
        if v[0][0] == '!':
            continue
        fam = 'f:' + v[0]
        idx = ZERO if isconst(v[0]) else st.norm(v[1])
        if all(st.holds(a - idx - 1) or st.holds(idx - b) for a, b in fams(st).get(fam, ())):
            rename(st, r, nm(fam, idx))


def used_syms(st):
    """flexible symbols that occur outside of the facts"""
    out = set()

    def l(x):
        out.update(k for k, _ in x.t if k[0] == '~')
        return x

    def v(x):
        if isinstance(x, L):
            l(x)
        elif isinstance(x, P):
            l(x.off)
            if x.reg is not None and x.reg[0] == 'n':
                l(x.reg[2])
        elif isinstance(x, tuple):
            for y in x:
                v(y)
        elif hasattr(x, 'v'):
            for y in x.v:
                v(y)
    for f in st.frames:
        for x in f.regs.values():
            v(x)
    for x in st.ghost.values():
        v(x)
    for r, o in st.mem.items():
        if r[0] == 'n':
            l(r[2])
        for z, x in o.cells.values():
            v(x)
        for a, b in o.elems.values():
            v(b)
        v(o.size)
        if o.alloc is not None:
            v(o.alloc)
        if o.segs is not None:
            for a, b, c in o.segs:
                l(a), l(b)
                if c is not None:
                    v(c[1])
    for c in st.chunks:
        c.map(l)
    for k, e in st.sub.items():
        if k[0] != '~':
            l(e)
    return out


def project(st, lay=None):
    """eliminate symbols that only occur in the facts (exact: only unit coefficients)"""
    keep = used_syms(st)
    fs = set(st.facts.s)
    ch = False
    while True:
        dead = {}
        for f in fs:
            for k, v in f.t:
                if k[0] == '~' and k not in keep:
                    d = dead.setdefault(k, ([], [], [True]))
                    d[0 if v < 0 else 1].append(f)
                    if abs(v) != 1:
                        d[2][0] = False
        best = None
        for k in sorted(dead):
            up, lo, unit = dead[k]
            if not st.wide and (not unit[0] or len(up) * len(lo) > 24):
                continue
            c = len(up) * len(lo) - len(up) - len(lo)
            if best is None or c < best[0]:
                best = (c, k)
        if best is None:
            break
        k = best[1]
        up, lo, unit = dead[k]
        fs -= set(up) | set(lo)
        if len(up) * len(lo) <= 150:
            for a in up:
                for b in lo:
                    f = tight(a * b.coef(k) + b * -a.coef(k))
                    if f.t:
                        fs.add(f)
            if len(fs) > 40:
                fs = set(reduced(fs).s)
        ch = True
    if ch:
        st.facts = reduced(fs)
    if st.wide and lay is not None:
        simplify(lay, st)


def simplify(lay, st):
    """keep the invariants simple: facts with large coefficients only survive in their structural consequences"""
    bad = [f for f in st.facts.s if any(v > 2 or v < -2 for k, v in f.t)]
    if not bad:
        return
    keep = {f for f in st.facts.s if f not in bad}
    ok = Facts(frozenset(keep))
    extra = []
    for c in candidates(lay, st) + differences(st):
        c = tight(st.norm(c))
        if c.t and not ok.entails(c) and st.facts.entails(c):
            extra.append(c)
    st.facts = reduced(keep | set(extra))


def differences(st):
    """bounds between the ends of words and named nodes"""
    ts = [ZERO]
    for c in st.chunks:
        for f, a, b in (c.word if isinstance(c, Sub) else c.pre + c.suf):
            ts += [a, b]
        for n in ((c.root,) if isinstance(c, Sub) else (c.top, c.bot)):
            if n is not None:
                ts.append(n[2])
    for r in st.mem:
        if r[0] == 'n':
            ts.append(r[2])
    ts = list(dict.fromkeys(ts))
    return [d for x in ts for y in ts if x is not y for d in (x - y, x - y - 1, x - y - 2)]


def reduced(fs):
    best = {}
    for f in fs:
        if f.t not in best or f.c < best[f.t].c:
            best[f.t] = f
    fs = list(best.values())
    if len(fs) > 14:
        fs.sort(key=lambda f: -len(f.t))
        out = list(fs)
        for f in fs:
            rest = [g for g in out if g is not f]
            if len(f.t) > 1 and infeasible(frozenset(Facts(frozenset(rest)).component(f.syms()) + [tight(-f - 1)])):
                out = rest
        fs = out
    return Facts(frozenset(fs))


def candidates(lay, st):
    """structural facts that usually hold"""
    out = []

    def col(c):
        out.extend((c, ONE - c))

    def inside(w, n):
        for f, a, b in w:
            if f == n[1]:
                out.extend((n[2] - a, b - 1 - n[2]))

    def word(w):
        for f, a, b in w:
            out.extend((b - a, b - a - 1))

    def top(p):
        if p.reg is None:
            return None
        for c in st.chunks:
            if isinstance(c, Sub) and c.root is not None and c.root[1] == p.reg[1] and (c.root[2] - p.reg[2]) == ZERO:
                return c.col, c.bh
            if isinstance(c, Pth) and c.top[1] == p.reg[1] and (c.top[2] - p.reg[2]) == ZERO:
                return c.tcol, c.tbh
        o = st.mem.get(p.reg)
        if o is not None and lay.col in o.cells and isinstance(o.cells[lay.col][1], L):
            return o.cells[lay.col][1], None
        return None
    for c in st.chunks:
        if isinstance(c, Sub):
            col(c.col)
            col(c.kc)
            out.extend((c.bh, c.bh - c.col, c.bh - 1, c.col - c.kc))
            word(c.word)
            out.extend((wlen(c.word) - 1, wlen(c.word) - c.bh))
            if c.root is not None:
                inside(c.word, c.root)
            p = c.parent.reg
        else:
            col(c.tcol)
            col(c.tk)
            col(c.bcol)
            d = c.tbh - c.hbh
            out.extend((c.tbh, c.hbh, d, d - c.tcol, d - c.bcol, d - c.tcol - c.bcol, c.tcol - c.tk, c.tk - c.tcol, c.bcol - c.tcol, c.tcol - c.bcol,
                        d - 1, c.hbh - 1))
            word(c.pre + c.suf)
            out.append(wlen(c.pre + c.suf) - d)
            inside(c.pre + c.suf, c.top)
            inside(c.pre + c.suf, c.bot)
            t = top(c.hole)
            if t is not None:
                out.append(c.bcol + t[0] - 1)
                if t[1] is not None:
                    out.extend((c.hbh - t[1], t[1] - c.hbh))
            p = c.parent.reg
        if p is not None and p in st.mem and lay.col in st.mem[p].cells and isinstance(st.mem[p].cells[lay.col][1], L):
            k = st.mem[p].cells[lay.col][1]
            out.append(k + (c.col if isinstance(c, Sub) else c.tcol) - 1)
    for r, o in st.mem.items():
        if r[0] == 'n' and lay.col in o.cells and isinstance(o.cells[lay.col][1], L):
            c = o.cells[lay.col][1]
            col(c)
            for k in lay.kid:
                v = o.cells.get(k, (0, None))[1]
                t = top(v) if isinstance(v, P) else None
                if t is not None:
                    out.append(c + t[0] - 1)
    return out


def alias(st, reg):
    """which chunks the node is an end of"""
    if reg in st.mem:
        return 'node'
    out = ''
    for k, c in enumerate(sorted(st.chunks, key=lambda c: c.sortkey())):
        if isinstance(c, Sub):
            if c.root is not None and c.root[1] == reg[1] and st.is_eq(c.root[2] - reg[2]):
                out += 'r%d' % k
        else:
            if c.top[1] == reg[1] and st.is_eq(c.top[2] - reg[2]):
                out += 't%d' % k
            if c.bot[1] == reg[1] and st.is_eq(c.bot[2] - reg[2]):
                out += 'b%d' % k
    return out


class Folder:
    def __init__(s, lay, st):
        s.lay, s.st = lay, st
        s.refs = []
        for f in st.frames:
            for v in f.regs.values():
                s.ref(v, f is not st.frames[-1])
        for r, o in st.mem.items():
            if o.kind == 'stack':
                for z, v in o.cells.values():
                    s.ref(v, True)
        s.changed = False

    def ref(s, v, far):
        if isinstance(v, P) and v.reg is not None and v.reg[0] == 'n':
            # a node of its own family can be found again in any word
            if not (far and isconst(fam_elem(v.reg[1], v.reg[2])[0])):
                s.refs.append(v.reg)
        elif hasattr(v, 'v'):
            for x in v.v:
                s.ref(x, far)

    def refd(s, n):
        return any(r[1] == n[1] and s.st.is_eq(r[2] - n[2]) for r in s.refs)

    def same(s, a, b):
        st = s.st
        if a.reg is None or b.reg is None:
            return a.reg is None and b.reg is None
        if a.reg[0] == 'n' and b.reg[0] == 'n':
            return a.reg[1] == b.reg[1] and st.is_eq(a.reg[2] - b.reg[2]) and st.is_eq(a.off - b.off)
        return a.reg == b.reg and st.is_eq(a.off - b.off)

    def rooted(s, v, parent):
        """the subtree whose root is v, when it hangs below parent and nobody refers to its root"""
        if v.reg is None or v.reg[0] != 'n' or not s.st.is_eq(v.off - s.lay.noff):
            return None
        for c in s.st.chunks:
            if isinstance(c, Sub) and c.root is not None and c.root[1] == v.reg[1] and s.st.is_eq(c.root[2] - v.reg[2]):
                if s.same(c.parent, parent) and not s.refd(c.root) and s.st.holds(c.col - c.kc):
                    return c
        return None

    def child(s, reg, side):
        v = s.st.mem[reg].cells[s.lay.kid[side]][1]
        if v is LZ:
            c = lazy_sub(s.st, s.lay, reg, side)
            return c.word, c.bh, c.col, c
        if v.reg is None:
            return (), ZERO, ONE, None
        c = s.rooted(v, P(reg, L(s.lay.noff)))
        return None if c is None else (c.word, c.bh, c.col, c)

    def regular(s, reg):
        y, o = s.lay, s.st.mem[reg]
        if reg[0] != 'n' or o.kind != 'heap' or o.alloc is None or o.alloc[1] != ONE or o.alloc[2] != y.nsize:
            return False
        if set(o.elems) != {y.eoff} or set(o.cells) != {y.col, y.par, y.kid[0], y.kid[1]}:
            return False
        e, w = o.elems[y.eoff], fam_elem(reg[1], reg[2])
        if e[0] != w[0] or not isconst(e[0]) and not s.st.is_eq(e[1] - w[1]):
            return False
        p = o.cells[y.par][1]
        return o.cells[y.col][0] == y.csz and isinstance(o.cells[y.col][1], L) and isinstance(p, P) and p.reg is not None

    def okc(s, a, b):
        return s.st.holds(a + b - 1)

    def node(s, reg):
        st, y = s.st, s.lay
        o = st.mem[reg]
        for k in (0, 1):
            v = o.cells[y.kid[k]][1]
            if not (v is LZ or isinstance(v, P)):
                return False
        ch = [s.child(reg, 0), s.child(reg, 1)]
        col, par, aid = o.cells[y.col][1], o.cells[y.par][1], o.alloc[0]
        me = (reg[1], reg[2], reg[2] + 1)
        good = [c is not None and s.okc(col, c[2]) and (c[3] is None or st.is_eq(c[3].aid - aid)) for c in ch]
        if all(good) and st.is_eq(ch[0][1] - ch[1][1]):
            new = Sub(y, join(st, ch[0][0] + (me,) + ch[1][0]), reg, par, -1, col, col, st.norm(ch[0][1] + col), aid)
            for c in ch:
                if c[3] is not None:
                    drop(st, c[3])
            del st.mem[reg]
            put(st, new)
            return True
        # one side is special
        if all(good):
            side = 0 if o.cells[y.kid[0]][1] is not LZ and ch[0][3] is None else 1 if o.cells[y.kid[1]][1] is not LZ and ch[1][3] is None else None
            if side is None:
                return False
        elif good[0] or good[1]:
            side = 1 if good[0] else 0
        else:
            return False
        hole = o.cells[y.kid[side]][1]
        if hole is LZ:
            return False
        w, h, c, k = ch[1 - side]
        new = Pth(y, (), (), reg, reg, par, col, col, st.norm(h + col), side, side, col, hole, h, aid)
        if side:
            new.pre = join(st, w + (me,))
        else:
            new.suf = join(st, (me,) + w)
        if k is not None:
            drop(st, k)
        del st.mem[reg]
        put(st, new)
        return True

    def merge(s):
        st, y = s.st, s.lay
        for a in st.chunks:
            if not isinstance(a, Pth):
                continue
            h = a.hole
            for b in st.chunks:
                if isinstance(b, Pth) and b is not a and h.reg is not None and h.reg[0] == 'n' and h.reg[1] == b.top[1] \
                        and st.is_eq(h.reg[2] - b.top[2]) and st.is_eq(h.off - y.noff) and s.same(b.parent, P(a.bot, L(y.noff))):
                    if s.refd(a.bot) and not a.single(st) or s.refd(b.top) and not b.single(st):
                        continue
                    if s.refd(b.top) and (s.refd(a.bot) or not (a.pre if b.side else a.suf)):
                        continue    # neighbours; the first turn to this side: keep the place visible
                    if not s.okc(a.bcol, b.tcol) or not st.is_eq(b.tbh - a.hbh) or not st.holds(b.tcol - b.tk) or not st.is_eq(a.aid - b.aid):
                        continue
                    drop(st, a)
                    drop(st, b)
                    put(st, Pth(y, join(st, a.pre + b.pre), join(st, b.suf + a.suf), a.top, b.bot, a.parent, a.tcol, a.tk, a.tbh, a.tside,
                                b.side, b.bcol, b.hole, b.hbh, a.aid))
                    return True
            if h.reg is None:
                if not st.is_eq(a.hbh):
                    continue
                w, c = (), None
            else:
                c = s.rooted(h, P(a.bot, L(y.noff)))
                if c is None or not s.okc(a.bcol, c.col) or not st.is_eq(c.bh - a.hbh) or not st.is_eq(a.aid - c.aid):
                    continue
                w = c.word
            if s.refd(a.bot) and not a.single(st):
                continue
            drop(st, a)
            if c is not None:
                drop(st, c)
            put(st, Sub(y, join(st, a.pre + w + a.suf), a.top, a.parent, -1, a.tcol, a.tk, a.tbh, a.aid))
            return True
        return False

    def run(s):
        st = s.st
        while True:
            for r in sorted((r for r in st.mem if r[0] == 'n'), key=repr):
                if s.regular(r) and s.node(r):
                    break
            else:
                if not s.merge():
                    break
            s.changed = True
        return s.changed


def join(st, w):
    out = []
    for p in wclean(st, w):
        if out and out[-1][0] == p[0] and st.is_eq(out[-1][2] - p[1]):
            out[-1] = (p[0], out[-1][1], p[2])
        else:
            out.append(p)
    return tuple(out)


def fold(lay, eng, st, heavy):
    trim(st)
    baptise(lay, st)
    for n in range(len(st.chunks)):
        c = st.chunks[n]
        if isinstance(c, Pth) and c.single(st):
            c.settle(st)
    if heavy and Folder(lay, st).run():
        st.wide = True
    tidy(st)
    st.chunks = tuple(sorted(st.chunks, key=lambda c: c.sortkey()))
    project(st, lay)


# ---- recursion ----------------------------------------------------------------------------------------------------
def selfrec(eng, name):
    """the function calls itself"""
    memo = eng.m.__dict__.setdefault('_selfrec', {})
    r = memo.get(name)
    if r is None:
        fn = eng.m.funcs.get(name)
        if fn is not None:
            materialise(eng.m, fn)
        r = memo[name] = fn is not None and any(i.op in ('call', 'invoke') and i.a['callee'] == ('g', name) for b in fn.blocks.values() for i in b)
    return r


def contract(lay, eng, st, name, args, i):
    """second level of a recursion: assume what the first level is checked for"""
    if not selfrec(eng, name) or sum(f.fn.name == name for f in st.frames) < (1 if st.wide else 2) and \
            not any(f.fn.name != name and selfrec(eng, f.fn.name) for f in st.frames):
        return None
    if not args or not isinstance(args[0], P) or args[0].reg is None:
        return None
    o = st.mem.get(args[0].reg)
    if o is None or lay.a not in o.cells:
        return None
    aid = o.cells[lay.a][1]
    if i.ty.k == 'void' and len(args) == 2 and isinstance(args[1], P):
        consume(lay, st, args[1], aid)
        return (None,)
    if i.ty.k == 'ptr' and len(args) == 4 and all(isinstance(a, P) for a in args):
        return (copy(lay, eng, st, args[1], args[2], args[3], aid),)
    return None


def top_of(lay, st, p):
    if not st.is_eq(p.off - lay.noff):
        raise Unk('pointer into a node')
    k, c = st.where(p.reg)
    if c is None:
        if k[0] != 'n' and st.mem[k].kind != 'heap':
            raise Unk('recursive call for something that is not a node')
        return k, None
    if isinstance(c, Sub) and c.root is not None and eq_name(st, c.root, k) or isinstance(c, Pth) and eq_name(st, c.top, k):
        return k, c
    raise Unk('recursive call for the inside of a subtree')


def consume(lay, st, p, aid):
    if p.reg is None:
        return
    k, c = top_of(lay, st, p)
    if c is not None:
        if not st.is_eq(c.aid - aid):
            raise Unk('another allocator')
        drop(st, c)
        if isinstance(c, Pth):
            consume(lay, st, c.hole, aid)
        return
    o = st.mem[k]
    if o.alloc is None or o.alloc[1] != ONE or o.alloc[2] != lay.nsize or set(o.elems) != {lay.eoff} or not st.is_eq(o.alloc[0] - aid):
        raise Unk('recursive call for an unusual node')
    kids = [o.cells.get(x) for x in lay.kid]
    for s in (0, 1):
        if kids[s] is None or not (kids[s][1] is LZ or isinstance(kids[s][1], P)):
            raise Bad('ub', 'a subtree with an indeterminate link is processed')
        if kids[s][1] is LZ:
            drop(st, lazy_sub(st, lay, k, s))
    del st.mem[k]
    for s in (0, 1):
        if kids[s][1] is not LZ:
            consume(lay, st, kids[s][1], aid)


def copy(lay, eng, st, err, p, parent, aid):
    k, c = top_of(lay, st, p)
    if not isinstance(c, Sub) or parent.reg is None:
        raise Unk('recursive call for an unusual subtree')
    ok = st.choose([True, False])
    if not ok:
        fail(st, 'alloc')
        st.store(err, 8, ONE)
        return NULL
    f = lambda n: 'f:' + n
    have = fams(st)
    for n, a, b in c.word:
        if any(not (st.holds(a - y) or st.holds(x - b)) for x, y in have.get(f(n), ())):
            raise Unk('nodes are copied twice')
    st.assume(c.col - c.kc)
    r = nm(f(c.root[1]), c.root[2])
    put(st, Sub(lay, tuple((f(n), a, b) for n, a, b in c.word), r, parent, -1, c.col, c.kc, c.bh, lin(aid)))
    return P(r, L(lay.noff))


# ---- concrete trees behind an exact state ---------------------------------------------------------------------------
def explore(st, f, budget):
    """depth first: states after f, every choice made"""
    s0 = st.clone()
    s0.ch, s0.chi = [], 0
    work = [s0]
    while work and budget[0] > 0:
        budget[0] -= 1
        s = work.pop()
        n = s.clone()
        n.chi = 0
        try:
            f(n)
        except Dead:
            continue
        except Fork as fk:
            for a in reversed(fk.alts):
                c = s.clone()
                c.chi = 0
                try:
                    c.apply(a)
                except Dead:
                    continue
                work.append(c)
            continue
        n.ch, n.chi = [], 0
        yield n


def child_range(h, against):
    return (1 << h) - 1, (2 if against else 1) * 4 ** h - 1


def fit(st, c):
    """the subtree c exists as a red-black tree: sizes against black height"""
    fix = lambda l, hi: pin(st, l, hi)
    bh = fix(c.bh, 4)
    col = fix(c.col, 1)
    kc = fix(c.kc, 1)
    n = wlen(c.word)
    if c.root is None:
        if not st.decide(n - 1):
            st.assume_eq(lin(bh))
            st.assume_eq(lin(col - 1))
            return
        if col:
            if bh < 1:
                raise Dead()
            lo, hi = (1 << bh) - 1, 4 ** bh - 1
        else:
            lo, hi = (2 << bh) - 1, 2 * 4 ** bh - 1
        st.assume(n - lo)
        st.assume(lin(hi) - n)
        return
    l, r = wsplit(st, c.word, c.root[1], c.root[2])
    h = bh - col
    if h < 0:
        raise Dead()
    lo, hi = child_range(h, kc)
    for w in (l, r):
        st.assume(wlen(w) - lo)
        st.assume(lin(hi) - wlen(w))


def pin(st, l, hi):
    """choose a small value of l"""
    for v in range(hi + 1):
        if st.decide_eq(l - v):
            return v
    raise Dead()


def realise(lay, st):
    """a small concrete tree that is a member of this exact state, as an integer model; None if none is found"""
    budget = [4000]

    def paths(s, depth):
        ps = [c for c in s.chunks if isinstance(c, Pth)]
        if not ps:
            yield s
            return
        if depth > 5:
            return
        for n in explore(s, lambda x: [c for c in x.chunks if isinstance(c, Pth)][0].open_bottom(x), budget):
            for m in paths(n, depth + 1):
                yield m

    def subs(s):
        k = 0
        for c in list(s.chunks):
            if isinstance(c, Sub):
                fit(s, c.map(s.norm))

    for s in paths(st, 0):
        for n in explore(s, subs, budget):
            m = n.facts.model()
            if m is not None:
                return m
    return None
