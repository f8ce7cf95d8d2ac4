"""Ordered set: specifications of its operations over the red-black tree domain."""
from .lin import L, ZERO, ONE, lin, sym
from .engine import P, NULL, Bad, Unk, Dead, Obj, isconst, Engine, UNINIT, LZ
from .spec import *
from .vecspec import normal, fresh_check, X, Lay
from .listspec import fam_elem, eqp, MAXN
from . import tree
from .tree import Sub, Pth, nm, wlen, put, lazy_sub

ESZ = Engine.ESZ
DRV = {}


def plan(name, mode, tier):
    """(loop iterations followed exactly, seconds, only those) of the passes over one operation"""
    th = tier == 'thorough'
    n = mode == 'n'
    if name in ('t_erase', 't_erase_key', 't_erase_own'):
        if name == 't_erase':
            return [(2, 900, True)] if th else [(2, 100, True)] if n else [(1, 60, True)]
        return [(3, 900, True)] if th else [(2, 100, True)] if n else [(1, 60, True)]
    if name in ('t_insert', 't_insert_move', 't_insert_own'):
        if th:
            return [(4, 300, True), (2, 400, False)]
        if name == 't_insert_own':
            return [(2, 60, True), (1, 100, False)]
        return [(3 if n else 2, 60, True), (1, 160, False)]
    if name == 't_copy':
        return [(1, 300 if th else 160, False)]
    return [(3 if th else 2, 300 if th else 60, False)] if name in ('t_find', 't_find_c') else [(1, 300 if th else 60, False)]


COST = {'t_copy': 100, 't_erase': 90, 't_insert': 80, 't_insert_move': 79, 't_insert_own': 30, 't_erase_key': 20, 't_erase_own': 19}
A_, B_, C_, D_ = sym('a'), sym('b'), sym('c'), sym('d')


def drv(name, scope, need=None):
    def deco(f):
        DRV[name] = (f, scope, need)
        return f
    return deco


# ---- order ------------------------------------------------------------------------------------------------------
def less2(eng, st, args, i):
    cid, a, b = args
    _, x = eng.hooks.src(st, a, 'comparison of')
    _, y = eng.hooks.src(st, b, 'comparison of')
    want = st.ghost.get('_cmp')
    if not isinstance(cid, L):
        raise Bad('sem', 'elements are compared by an order object that is not initialised')
    if x[0][0] == '!' or y[0][0] == '!':
        raise Bad('sem', 'a moved-from element is compared')
    rk = st.ghost.get('_rank')
    if rk:
        return L(int(rk.get(x[0], 9) < rk.get(y[0], 9)))
    if want is not None and not st.decide_eq(cid - want):
        raise Bad('sem', 'elements are compared by the order of another set')
    if x[0] == y[0]:
        return ZERO if isconst(x[0]) else L(int(st.decide(y[1] - x[1] - 1)))
    k = st.ghost.get('_key')
    if k:
        S, lo, hi = k
        if x[0] == S and y[0] == '$x':
            return L(int(st.decide(lo - x[1] - 1)))
        if x[0] == '$x' and y[0] == S:
            return L(int(st.decide(y[1] - hi)))
    raise Unk('order of %r and %r' % (x, y))


# ---- layout -----------------------------------------------------------------------------------------------------
def empty(mk):
    eng2 = mk()
    eng2.hooks.t['@__v_less2'] = less2
    c2 = Ctx(eng2)
    st = c2.state()
    l2 = c2.param(st, 'l', c2.gsize('sz_C'))
    a2 = c2.alloc(st, 'a', L(77))
    cm2 = c2.param(st, 'cm', c2.gsize('sz_Cmp'))
    st.store(cm2, 8, L(78))
    emp = []
    eng2.table = {}
    eng2.enter(st, '@t_ctor', [l2, cm2, a2])
    eng2.run('t_ctor', [st], lambda s2, ret, th: emp.append(s2))
    return l2, emp, eng2


LAYKEY = 'set'
LAYKEYS = ('nsize', 'eoff', 'a', 'cmp', 'cnt', 'hroot', 'hmin', 'hmax', 'par', 'col', 'kid', 'noff', 'hoff', 'cntz', 'csz', 'black', 'red', 'it', 'itoff')


def lay_save(lay, mk):
    d = lay_json(lay, LAYKEYS)
    d['size'] = Ctx(mk()).gsize('sz_C')
    d['empty'] = sorted(lay.empty)
    d['fixed'] = sorted(lay.fixed)
    return d


def padding(y, off, v):
    """rest of zero filled memory which belongs to no member"""
    return off % 8 and off != y.hoff + y.col - y.noff and isinstance(v, L) and v == ZERO


def fallback(mk, ref, eng0):
    if ref is None or Ctx(mk()).gsize('sz_C') != ref['size'] or eng0 is None or eng0.asizes - {ref['nsize']}:
        return None
    l2, emp, eng2 = empty(mk)
    if len(emp) != 1:
        return None
    y = Lay()
    y.__dict__.update(ref)
    eo = emp[0].mem[l2.reg]
    cells = {k: (z, v) for k, (z, v) in eo.cells.items() if k in ref['fixed'] or not padding(y, k, v)}
    for k in ref['empty']:
        if eo.pc(k):
            cells[k] = eo.pc(k)
    if sorted(cells) != sorted(set(ref['empty'] + ref['fixed'] + [ref['a'], ref['cmp'], ref['cnt']])):
        return None
    y.empty = {k: cells[k] for k in ref['empty']}
    y.fixed = {k: cells[k] for k in ref['fixed']}
    if not all(isinstance(v, P) for z, v in y.empty.values()) or not all(isinstance(v, L) and v.const for z, v in y.fixed.values()):
        return None
    if cells[ref['a']][1] != L(77) or cells[ref['cmp']][1] != L(78):
        return None
    return y


def discover(mk):
    eng = mk()
    eng.hooks.t['@__v_less2'] = less2
    c = Ctx(eng)
    st = c.state()
    st.ghost['_rank'] = {'$x': 0, '$y': 1, '$z': 2}
    l = c.param(st, 'l', c.gsize('sz_C'))
    e = c.err(st)
    a = c.alloc(st, 'a', L(77))
    cm = c.param(st, 'cm', c.gsize('sz_Cmp'))
    st.store(cm, 8, L(78))
    el = [c.elem(st, n, ('$' + n, ZERO)) for n in 'xyz']
    it = c.param(st, 'it', c.gsize('sz_K'))
    res = []

    def post(s2, ret, thrown):
        if thrown:
            raise Bad('exc', 'an exception leaves a nothrow operation')
        if not check_err(s2, e):
            res.append(s2)
    eng.enter(st, '@t_setup', [l, e, cm, a] + el + [it])
    eng.run('t_setup', [st], post)
    l2, emp, eng2 = empty(mk)
    if len(emp) != 1:
        return None, eng2
    for s2 in res:
        y = Lay()
        n = {}
        for k in 'xyz':
            r = [r for r, o in s2.mem.items() if o.kind == 'heap' and list(o.elems.values()) == [('$' + k, ZERO)]]
            if len(r) == 1:
                n[k] = r[0]
        if len(n) != 3:
            continue
        top = s2.mem[n['y']]
        y.nsize = top.alloc[2]
        y.eoff = list(top.elems)[0]
        y.a = y.cmp = y.cnt = y.hroot = y.hmin = y.hmax = y.par = y.col = None
        y.kid = [None, None]
        for off, (z, v) in s2.mem[l.reg].cells.items():
            if isinstance(v, L) and v == L(77):
                y.a = off
            elif isinstance(v, L) and v == L(78):
                y.cmp = off
            elif isinstance(v, L) and v == L(3):
                y.cnt, y.cntz = off, z
            elif isinstance(v, P) and v.reg == n['y']:
                y.hroot, y.noff = off, v.off.c
            elif isinstance(v, P) and v.reg == n['x']:
                y.hmin = off
            elif isinstance(v, P) and v.reg == n['z']:
                y.hmax = off
        leaf = s2.mem[n['x']]
        for off, (z, v) in top.cells.items():
            if isinstance(v, P) and v.reg == n['x']:
                y.kid[0] = off
            elif isinstance(v, P) and v.reg == n['z']:
                y.kid[1] = off
            elif isinstance(v, P) and v.reg == l.reg:
                y.par, y.hoff = off, v.off.c
            elif isinstance(v, L) and v.const and off in leaf.cells and leaf.cells[off][1] != v:
                y.col, y.csz, y.black = off, z, v.c
                y.red = leaf.cells[off][1].c
        if None in (y.a, y.cmp, y.cnt, y.hroot, y.hmin, y.hmax, y.par, y.col, y.kid[0], y.kid[1]) or (y.red, y.black) != (0, 1):
            continue
        ic = sorted(s2.mem[it.reg].cells.items())
        if len(ic) != 1 or not isinstance(ic[0][1][1], P) or ic[0][1][1].reg != n['x']:
            continue
        y.it = ic[0][0]
        y.itoff = ic[0][1][1].off.c
        known = {y.a, y.cmp, y.cnt, y.hroot, y.hmin, y.hmax}
        y.fixed = {}
        eo = emp[0].mem[l2.reg]
        for off, (z, v) in eo.cells.items():
            if off not in known and not padding(y, off, v):
                if not isinstance(v, L) or not v.const:
                    break
                y.fixed[off] = (z, v)
        else:
            y.empty = {off: eo.pc(off) for off in (y.hroot, y.hmin, y.hmax)}
            if all(x and isinstance(x[1], P) for x in y.empty.values()):
                return y, eng
    return None, eng


class Set:
    def __init__(s, k, st, name, src, n, aid, cid):
        s.name, s.src, s.n, s.aid, s.cid = name, src, n, aid, cid
        y = s.lay = k.lay
        s.p = k.c.param(st, name, k.c.gsize('sz_C'))
        o = st.mem[s.p.reg]
        o.cells.update(y.fixed)
        o.cells[y.a] = (8, aid)
        o.cells[y.cmp] = (8, cid)
        o.cells[y.cnt] = (y.cntz, n)
        if y.cntz < 8:
            st.assume(L((1 << 8 * y.cntz) - 1 - (64 if y.cntz >= 4 else 0)) - n)
        s.head = P(s.p.reg, L(y.hoff))
        if n == ZERO:
            for off, (z, v) in y.empty.items():
                o.cells[off] = (z, v if v.reg is None else P(s.p.reg, v.off))
        else:
            st.assume(n - 1)
            st.assume(MAXN - n)
            r = st.fresh('~r')
            st.assume(r)
            st.assume(n - 1 - r)
            h = st.fresh('~h')
            st.assume(h - 1)
            st.assume(n - h)
            o.cells[y.hroot] = (8, P(nm(src, r), L(y.noff)))
            o.cells[y.hmin] = (8, P(nm(src, ZERO), L(y.noff)))
            o.cells[y.hmax] = (8, P(nm(src, n - 1), L(y.noff)))
            put(st, Sub(y, ((src, ZERO, n),), nm(src, r), s.head, -1, ONE, ONE, h, aid))

    def word(s):
        return [piece(s.src, 0, s.n)]

    def at(s, i):
        return s.head if i is None else P(nm(s.src, i), L(s.lay.noff))


# ---- representation ---------------------------------------------------------------------------------------------
class Item:
    """run of nodes: elements (src, lo, hi); nodes are (fam, idx..) or one heap object"""
    __slots__ = ('src', 'lo', 'hi', 'node')

    def __init__(s, src, lo, hi, node):
        s.src, s.lo, s.hi, s.node = src, lo, hi, node


def runs(w):
    out = []
    for f, a, b in w:
        e = fam_elem(f, a)
        out.append(Item(e[0], e[1], e[1] + (b - a), ('run', f, a, b)))
    return out


def read(st, lay, p, what='the set'):
    """checks links, colours, black heights; returns items, seen, allocator, order"""
    o = st.obj(p.reg)
    seen = []
    head = P(p.reg, L(lay.hoff))

    def cell(o, off, w):
        c = o.pc(off)
        if c is None or not (c[1] is LZ or isinstance(c[1], P)):
            raise Bad('rep', '%s: %s is not a valid link' % (what, w))
        return c[1]

    def num(off, w):
        c = o.nc(off)
        if c is None or not isinstance(c[1], L):
            raise Bad('rep', '%s is left without %s' % (what, w))
        return st.norm(c[1])

    def own(x):
        if not st.decide_eq(x - aid):
            raise Bad('block', '%s owns nodes of another allocator' % what)

    def validsub(c):
        """repainted root: restrictions on the children must still hold"""
        if not st.holds(c.col - c.kc) and not st.decide(c.col - c.kc):
            raise Bad('bal', '%s: a red node has a red child' % what)

    def walk(ptr, parent, depth):
        if depth > 60:
            raise Bad('rep', '%s: the links form a cycle' % what)
        if ptr.reg is None:
            return [], ZERO, ONE
        if not st.is_eq(ptr.off - L(lay.noff)):
            raise Bad('rep', '%s: link to the inside of a node' % what)
        if ptr.reg == p.reg:
            raise Bad('rep', '%s: a child link leads back to the header' % what)
        k, c = st.where(ptr.reg)
        if any(x is c if c is not None else x == k for x in seen):
            raise Bad('rep', '%s: a node is linked twice' % what)
        if c is not None:
            if isinstance(c, Sub) and c.root is not None and tree.eq_name(st, c.root, k):
                seen.append(c)
                own(c.aid)
                if not eqp(st, c.parent, parent):
                    raise Bad('rep', '%s: a node does not know its parent' % what)
                validsub(c)
                return runs(c.word), c.bh, c.col
            if isinstance(c, Pth) and tree.eq_name(st, c.top, k):
                seen.append(c)
                own(c.aid)
                if not eqp(st, c.parent, parent):
                    raise Bad('rep', '%s: a node does not know its parent' % what)
                if not st.holds(c.tcol - c.tk) and not st.decide(c.tcol - c.tk):
                    raise Bad('bal', '%s: a red node has a red child' % what)
                if c.single(st):
                    rest = c.suf if c.side else c.pre
                    if c.tside != c.side or any(not st.decide_eq(b - a) for f, a, b in rest) or not st.decide_eq(c.bcol - c.tk) \
                            or not st.decide_eq(c.tbh - c.tcol - c.hbh):
                        raise Dead()
                w, h, col = walk(c.hole, P(c.bot, L(lay.noff)), depth + 1)
                bc = c.bcol
                if not st.decide(col + bc - 1):
                    raise Bad('bal', '%s: a red node has a red child' % what)
                if not st.decide_eq(h - c.hbh):
                    raise Bad('bal', '%s: paths to the leaves differ in the number of black nodes' % what)
                return runs(c.pre) + w + runs(c.suf), c.tbh, c.tcol
            if any(x is c for x in seen):
                raise Bad('rep', '%s: a node is linked twice' % what)
            raise Bad('rep', '%s: a link into the middle of a subtree' % what)
        nd = st.mem[k]
        if nd.kind != 'heap' or nd.alloc is None:
            raise Bad('rep', '%s links to something that is not a node' % what)
        seen.append(k)
        own(nd.alloc[0])
        e = nd.elems.get(lay.eoff)
        if e is None:
            raise Bad('life', '%s contains a node without a living element' % what)
        if k[0] == 'n':
            want = fam_elem(k[1], k[2])
            if e[0] != want[0] or not isconst(e[0]) and not st.decide_eq(e[1] - want[1]):
                raise Bad('sem', '%s: an element has been moved to another node' % what)
        pc = cell(nd, lay.par, 'the parent of a node')
        if pc is LZ or not eqp(st, pc, parent):
            raise Bad('rep', '%s: a node does not know its parent' % what)
        me = P(k, L(lay.noff))
        col = nd.nc(lay.col, lay.csz)
        if col is None or not isinstance(col[1], L):
            raise Bad('rep', '%s: a node has no colour' % what)
        col = st.norm(col[1])
        sides = []
        for s in (0, 1):
            v = cell(nd, lay.kid[s], 'a child link')
            if v is LZ:
                c = lazy_sub(st, lay, k, s)
                seen.append(c)
                own(c.aid)
                if not st.decide(wlen(c.word) - 1):
                    if not st.decide_eq(c.bh) or not st.decide_eq(c.col - 1):
                        raise Dead()
                sides.append((runs(c.word), c.bh, c.col))
            else:
                sides.append(walk(v, me, depth + 1))
        for w, h, cc in sides:
            if not st.decide(col + cc - 1):
                raise Bad('bal', '%s: a red node has a red child' % what)
        if not st.decide_eq(sides[0][1] - sides[1][1]):
            raise Bad('bal', '%s: paths to the leaves differ in the number of black nodes' % what)
        return sides[0][0] + [Item(e[0], e[1], e[1] + 1, k)] + sides[1][0], sides[0][1] + col, col

    aid = num(lay.a, 'an allocator')
    cid = num(lay.cmp, 'an order')
    cnt = num(lay.cnt, 'a size')
    for off, (z, v) in lay.fixed.items():
        if num(off, 'a header field') != v:
            raise Bad('rep', '%s: the header is damaged' % what)
    root = cell(o, lay.hroot, 'the root link')
    if root.reg is not None and root.reg == p.reg:
        if not eqp(st, root, empty_link(lay, p, lay.hroot)):
            raise Bad('rep', '%s: the root link of an empty tree is wrong' % what)
        root = NULL
    items, bh, col = walk(root, head, 0)
    o = st.obj(p.reg)
    if not st.decide_eq(col - 1):
        raise Bad('bal', '%s: the root is red' % what)
    items = [i for i in items if st.decide(i.hi - i.lo - 1)]
    n = ZERO
    for i in items:
        n = n + (i.hi - i.lo)
    if not st.decide_eq(cnt - n):
        raise Bad('rep', '%s: size is not the number of elements' % what)
    for off, w, side in ((lay.hmin, 'the link to the smallest element', 0), (lay.hmax, 'the link to the largest element', 1)):
        v = cell(o, off, w)
        if not items:
            ok = eqp(st, v, empty_link(lay, p, off))
        else:
            ok = eqp(st, v, P(end_node(items, side), L(lay.noff)))
        if not ok:
            raise Bad('rep', '%s: %s is wrong' % (what, w))
    return items, seen, aid, cid


def end_node(items, side):
    i = items[-1 if side else 0]
    if i.node[0] == 'run':
        _, f, a, b = i.node
        return nm(f, b - 1 if side else a)
    return i.node


def empty_link(lay, p, off):
    v = lay.empty[off][1]
    return v if v.reg is None else P(p.reg, v.off)


def word(items):
    return [(i.src, i.lo, i.hi) for i in items]


def leaks(st, seen):
    ids = [x for x in seen if isinstance(x, tuple)]
    for c in st.chunks:
        if not any(c is x for x in seen):
            w = c.word if isinstance(c, Sub) else c.pre + c.suf
            if not st.decide(wlen(w) - 1):
                continue
            raise Bad('block', 'nodes are lost: neither linked nor returned to the allocator')
    for r, o in st.mem.items():
        if o.kind == 'heap' and r not in ids:
            raise Bad('block', 'a node is lost: neither linked nor returned to the allocator')
        if o.kind == 'exc':
            raise Bad('exc', 'exception object is leaked')


def make(c, lay, mode):
    c.eng.hooks.t['@__v_less2'] = less2
    c.eng.hooks.force = lambda st, k, off: tree.force(lay, st, k, off)
    c.eng.hooks.realise = lambda st: tree.realise(lay, st)
    c.eng.hooks.heavy = lambda eng, st, heavy: tree.fold(lay, eng, st, heavy)
    c.eng.hooks.extra_candidates = lambda st: tree.candidates(lay, st)
    c.eng.hooks.alias = tree.alias
    c.eng.hooks.contract = lambda eng, st, name, args, i: tree.contract(lay, eng, st, name, args, i)
    return SC(c, lay, mode)


class SC:
    def __init__(s, c, lay, mode):
        s.c, s.lay, s.mode = c, lay, mode

    def variants(s, name='l', src='S', alloc='a', cmp='c'):
        for full in (True, False):
            st = s.c.state()
            yield st, s.set(st, name, src, alloc, cmp, full)

    def set(s, st, name, src, alloc, cmp, full=True):
        return Set(s, st, name, src, sym(name + '.n') if full else ZERO, sym(alloc), sym(cmp))

    def pairs(s):
        for f1 in (True, False):
            for f2 in (True, False):
                st = s.c.state()
                l = s.set(st, 'l', 'S', 'a', 'c', f1)
                o = s.set(st, 'o', 'T', 'b', 'd', f2)
                yield st, l, o

    def it(s, st, name, ptr):
        p = s.c.param(st, name, s.c.gsize('sz_K'))
        st.mem[p.reg].cells[s.lay.it] = (8, P(ptr.reg, ptr.off - s.lay.noff + s.lay.itoff))
        return p

    def out(s, st, name='out'):
        return s.c.param(st, name, s.c.gsize('sz_K'))

    def positions(s, st, l, name='p', strict=False):
        if l.n != ZERO:
            s1 = st.clone()
            p = sym(name)
            s1.assume(p)
            s1.assume(l.n - 1 - p)
            yield s1, l.at(p), p
        if not strict:
            yield st.clone(), l.at(None), l.n

    def keyed(s, st, l):
        """states for an argument $x that is (found, absent) among the elements of l"""
        if l.n == ZERO:
            st.ghost['_key'] = (l.src, ZERO, ZERO)
            yield st, ZERO, ZERO
            return
        for found in (0, 1):
            s1 = st.clone()
            lo = sym('L')
            s1.assume(lo)
            s1.assume(l.n - lo - found)
            s1.ghost['_key'] = (l.src, lo, lo + found)
            s1.ghost['_cmp'] = l.cid
            yield s1, lo, lo + found

    def read_it(s, st, p):
        c = st.obj(p.reg).pc(s.lay.it)
        if c is None or not isinstance(c[1], P) or c[1].reg is None:
            raise Bad('sem', 'an indeterminate iterator is returned')
        return c[1]

    def is_at(s, st, ptr, l, items, pos):
        """iterator ptr designates the element number pos (a term) of the items, or the end"""
        n = ZERO
        for i in items:
            n = n + (i.hi - i.lo)
        if st.decide_eq(pos - n):
            return eqp(st, ptr, P(l.p.reg, L(s.lay.hoff - s.lay.noff + s.lay.itoff)))
        n = ZERO
        for i in items:
            ln = i.hi - i.lo
            if st.decide(n + ln - 1 - pos):
                nd = i.node
                reg = nm(nd[1], nd[2] + (pos - n)) if nd[0] == 'run' else nd
                return eqp(st, ptr, P(reg, L(s.lay.itoff)))
            n = n + ln
        return False

    def expect(s, st, l, words, cat='sem', alloc=None, cmp=None, others=()):
        items, seen, aid, cid = read(st, s.lay, l.p)
        w = word(items)
        fresh_check(w)
        if alloc is not None and not st.decide_eq(aid - alloc):
            raise Bad('block', 'the set ends up with a wrong allocator')
        if cmp is not None and not st.decide_eq(cid - cmp):
            raise Bad(cat, 'the set ends up with a wrong order')
        if not any(word_eq(st, w, x) for x in words):
            raise Bad(cat, 'content is %s, expected %s' % (shw(w), ' or '.join(shw(x) for x in words)))
        for o, ow, oc in others:
            it2, seen2, aid2, cid2 = read(st, s.lay, o.p, 'the other set')
            if ow is not None and not word_eq(st, word(it2), ow):
                raise Bad(oc, 'the other set contains %s, expected %s' % (shw(word(it2)), shw(ow)))
            seen = seen + seen2
        leaks(st, seen)
        return items


# ---- construction -----------------------------------------------------------------------------------------------
@drv('t_ctor', 'ctor')
def _(k):
    st = k.c.state()
    p = k.c.param(st, 'l', k.c.gsize('sz_C'))
    cm = k.c.param(st, 'cm', k.c.gsize('sz_Cmp'))
    st.store(cm, 8, C_)
    a = k.c.alloc(st, 'al', A_)

    def post(st, ret, th):
        normal(th)
        items, seen, aid, cid = read(st, k.lay, p)
        leaks(st, seen)
        if items:
            raise Bad('sem', 'a new set is not empty')
        if not st.decide_eq(aid - A_):
            raise Bad('block', 'the constructor does not keep the given allocator')
        if not st.decide_eq(cid - C_):
            raise Bad('sem', 'the constructor does not keep the given order')
    yield st, [p, cm, a], post


@drv('t_ctor_alloc', 'ctor')
def _(k):
    st = k.c.state()
    p = k.c.param(st, 'l', k.c.gsize('sz_C'))
    a = k.c.alloc(st, 'al', A_)

    def post(st, ret, th):
        normal(th)
        items, seen, aid, cid = read(st, k.lay, p)
        leaks(st, seen)
        if items:
            raise Bad('sem', 'a new set is not empty')
        if not st.decide_eq(aid - A_):
            raise Bad('block', 'the constructor does not keep the given allocator')
    yield st, [p, a], post


@drv('t_ctor_default', 'ctor')
def _(k):
    st = k.c.state()
    p = k.c.param(st, 'l', k.c.gsize('sz_C'))

    def post(st, ret, th):
        normal(th)
        items, seen, aid, cid = read(st, k.lay, p)
        leaks(st, seen)
        if items:
            raise Bad('sem', 'a new set is not empty')
    yield st, [p], post


@drv('t_ctor_move', 'move')
def _(k):
    for st, o in k.variants('o', 'T', 'b', 'd'):
        class N:
            pass
        l = N()
        l.p = k.c.param(st, 'l', k.c.gsize('sz_C'))

        def post(st, ret, th, l=l, o=o):
            normal(th)
            k.expect(st, l, [o.word()], 'move', B_, D_, [(o, [], 'move')])
        yield st, [l.p, o.p], post


@drv('t_dtor', 'dtor')
def _(k):
    for st, l in k.variants():
        def post(st, ret, th):
            normal(th)
            leaks(st, [])
        yield st, [l.p], post


@drv('t_clear', 'modify')
def _(k):
    for st, l in k.variants():
        def post(st, ret, th, l=l):
            normal(th)
            k.expect(st, l, [[]], 'sem', A_, C_)
        yield st, [l.p], post


@drv('t_get_allocator', 'access')
def _(k):
    for st, l in k.variants():
        out = k.c.param(st, 'out', k.c.gsize('sz_A'))

        def post(st, ret, th, l=l, out=out):
            normal(th)
            k.expect(st, l, [l.word()], 'sem', A_, C_)
            v = st.load(out, 8, False)
            if not isinstance(v, L) or not st.decide_eq(v - A_):
                raise Bad('block', 'get_allocator returns another allocator')
        yield st, [l.p, out], post


@drv('t_move_assign', 'move')
def _(k):
    for st, l, o in k.pairs():
        def post(st, ret, th, l=l, o=o):
            normal(th)
            k.expect(st, l, [o.word()], 'move', B_, D_, [(o, [], 'move')])
        yield st, [l.p, o.p], post
    for st, l in k.variants():
        def post(st, ret, th, l=l):
            normal(th)
            k.expect(st, l, [l.word(), []], 'move', A_, C_)
        yield st, [l.p, l.p], post


@drv('t_copy', 'copy')
def _(k):
    for st, l, o in k.pairs():
        e = k.c.err(st)

        def post(st, ret, th, l=l, o=o, e=e):
            normal(th)
            if not check_err(st, e):
                k.expect(st, l, [o.word()], 'copy', None, D_, [(o, o.word(), 'copy')])
            else:
                items, seen, aid, cid = read(st, k.lay, l.p)
                w = word(items)
                fresh_check(w)
                it2, seen2, aid2, cid2 = read(st, k.lay, o.p, 'the other set')
                if not word_eq(st, word(it2), o.word()):
                    raise Bad('copy', 'the source of the copy is changed')
                leaks(st, seen + seen2)
                if not any(word_eq(st, w, x) for x in ([], l.word())):
                    raise Bad('fail', 'a failed copy leaves %s' % shw(w))
        yield st, [l.p, e, o.p], post
    for st, l in k.variants():
        e = k.c.err(st)

        def post(st, ret, th, l=l, e=e):
            normal(th)
            check_err(st, e)
            k.expect(st, l, [l.word()], 'copy', A_, C_)
        yield st, [l.p, e, l.p], post


# ---- modification -----------------------------------------------------------------------------------------------
def ins(name, need=None, own=False, move=False):
    @drv(name, 'insert', need)
    def _(k):
        for st0, l in k.variants():
            if own:
                if l.n == ZERO:
                    continue
                src = []
                for st, ptr, p in k.positions(st0, l, 'L', True):
                    st.ghost['_cmp'] = l.cid
                    src.append((st, p, p + 1, P(ptr.reg, L(k.lay.eoff))))
            else:
                src = []
                for st, lo, hi in k.keyed(st0, l):
                    src.append((st, lo, hi, k.c.elem(st, 'x', X)))
            for st, lo, hi, x in src:
                e = k.c.err(st)
                out = k.out(st)

                def post(st, ret, th, l=l, e=e, x=x, out=out, lo=lo, hi=hi):
                    normal(th)
                    bad = check_err(st, e)
                    if bad or hi != lo:
                        items = k.expect(st, l, [l.word()], 'fail' if bad else 'sem', A_, C_)
                        if not own:
                            args_intact(st, [(x, X)])
                        if bad:
                            return
                        if not k.is_at(st, k.read_it(st, out), l, items, lo):
                            raise Bad('sem', 'insertion of a present key does not return the element in the set')
                        if not st.decide_eq(ret):
                            raise Bad('sem', 'insertion of a present key is reported as insertion')
                        return
                    items = k.expect(st, l, [[piece('S', 0, lo), rep('$x', 1), piece('S', lo, l.n)]], 'sem', A_, C_)
                    if not move:
                        args_intact(st, [(x, X)])
                    if not k.is_at(st, k.read_it(st, out), l, items, lo):
                        raise Bad('sem', 'insertion does not return the new element')
                    if not st.decide_eq(ret - 1):
                        raise Bad('sem', 'insertion of a new key is not reported as insertion')
                yield st, [l.p, e, x, out], post


ins('t_insert')
ins('t_insert_own', own=True)
ins('t_insert_move', 'MOVABLE', move=True)


@drv('t_erase', 'erase')
def _(k):
    for st0, l in k.variants():
        for st, ptr, p in k.positions(st0, l, 'p', True):
            pos = k.it(st, 'pos', ptr)
            out = k.out(st)

            def post(st, ret, th, l=l, p=p, out=out):
                normal(th)
                items = k.expect(st, l, [[piece('S', 0, p), piece('S', p + 1, l.n)]], 'sem', A_, C_)
                if not k.is_at(st, k.read_it(st, out), l, items, p):
                    raise Bad('sem', 'erase does not return the position behind the erased element')
            yield st, [l.p, pos, out], post


def erk(name, own):
    @drv(name, 'erase')
    def _(k):
        for st0, l in k.variants():
            if own:
                if l.n == ZERO:
                    continue
                src = []
                for st, ptr, p in k.positions(st0, l, 'L', True):
                    st.ghost['_cmp'] = l.cid
                    src.append((st, p, p + 1, P(ptr.reg, L(k.lay.eoff))))
            else:
                src = [(st, lo, hi, k.c.elem(st, 'x', X)) for st, lo, hi in k.keyed(st0, l)]
            for st, lo, hi, x in src:
                def post(st, ret, th, l=l, x=x, lo=lo, hi=hi):
                    normal(th)
                    k.expect(st, l, [[piece('S', 0, lo), piece('S', hi, l.n)]], 'sem', A_, C_)
                    if not own:
                        args_intact(st, [(x, X)])
                    if not st.decide_eq(ret - (hi - lo)):
                        raise Bad('sem', 'erase does not return the number of erased elements')
                yield st, [l.p, x], post


erk('t_erase_key', False)
erk('t_erase_own', True)

for _n in ('t_find', 't_find_c'):
    @drv(_n, 'lookup')
    def _(k):
        for st0, l in k.variants():
            for st, lo, hi in k.keyed(st0, l):
                x = k.c.elem(st, 'x', X)
                out = k.out(st)

                def post(st, ret, th, l=l, x=x, lo=lo, hi=hi, out=out):
                    normal(th)
                    items = k.expect(st, l, [l.word()], 'sem', A_, C_)
                    args_intact(st, [(x, X)])
                    if not k.is_at(st, k.read_it(st, out), l, items, lo if hi != lo else l.n):
                        raise Bad('sem', 'lookup does not find the element' if hi != lo else 'lookup finds a key that is not in the set')
                yield st, [l.p, x, out], post


# ---- access -----------------------------------------------------------------------------------------------------
def acc(name, f, scope='access'):
    @drv(name, scope)
    def _(k):
        for st, l in k.variants():
            args, chk = f(k, st, l)

            def post(st, ret, th, l=l, chk=chk):
                normal(th)
                items = k.expect(st, l, [l.word()], 'sem', A_, C_)
                chk(st, ret, items)
            yield st, [l.p] + args, post


def it_out(pos):
    def f(k, st, l):
        o = k.out(st, 'out')

        def chk(st, ret, items):
            if not k.is_at(st, k.read_it(st, o), l, items, pos(l)):
                raise Bad('sem', 'an iterator to a wrong position is returned')
        return [o], chk
    return f


for _n in ('t_begin', 't_begin_c', 't_cbegin', 't_rend', 't_rend_c', 't_crend'):
    acc(_n, it_out(lambda l: ZERO))
for _n in ('t_end', 't_end_c', 't_cend', 't_rbegin', 't_rbegin_c', 't_crbegin'):
    acc(_n, it_out(lambda l: l.n))


def num(f):
    def g(k, st, l):
        def chk(st, ret, items):
            if not isinstance(ret, L) or not f(st, ret, l):
                raise Bad('sem', 'a wrong number is returned')
        return [], chk
    return g


acc('t_size', num(lambda st, r, l: st.decide_eq(r - l.n)))
acc('t_empty', num(lambda st, r, l: st.decide_eq(r - (1 if l.n == ZERO else 0))))
acc('t_max_size', num(lambda st, r, l: st.decide(r - l.n)))


# ---- iterators --------------------------------------------------------------------------------------------------
def step(name, d):
    @drv(name, 'iter')
    def _(k):
        for st0, l in k.variants():
            for st, ptr, p in k.positions(st0, l, 'p', d > 0):
                if d < 0:
                    try:
                        st.assume(p - 1)
                    except Dead:
                        continue
                pos = k.it(st, 'pos', ptr)
                out = k.out(st)

                def post(st, ret, th, l=l, p=p, out=out, pos=pos):
                    normal(th)
                    items = k.expect(st, l, [l.word()], 'sem', A_, C_)
                    post_ = name.endswith('_post')
                    if not k.is_at(st, k.read_it(st, out), l, items, p if post_ else p + d):
                        raise Bad('sem', 'a step of an iterator returns a wrong position')
                    if name != 't_rinc' and not k.is_at(st, k.read_it(st, pos), l, items, p + d):
                        raise Bad('sem', 'a step of an iterator leads to a wrong position')
                yield st, [l.p, pos, out], post


for _n, _d in (('t_inc', 1), ('t_inc_post', 1), ('t_dec', -1), ('t_dec_post', -1), ('t_rinc', -1)):
    step(_n, _d)


def deref(name, with_l, d):
    @drv(name, 'iter')
    def _(k):
        for st0, l in k.variants():
            for st, ptr, p in k.positions(st0, l, 'p', d == 0):
                if d:
                    try:
                        st.assume(p - 1)
                    except Dead:
                        continue
                pos = k.it(st, 'pos', ptr)

                def post(st, ret, th, l=l, p=p):
                    normal(th)
                    k.expect(st, l, [l.word()], 'sem', A_, C_)
                    if not (isinstance(ret, P) and ret.reg is not None and eqp(st, ret, P(nm('S', p - d), L(k.lay.eoff)))):
                        raise Bad('sem', 'an iterator gives access to a wrong element')
                yield st, ([l.p] if with_l else []) + [pos], post


deref('t_deref', False, 0)
deref('t_arrow', False, 0)
deref('t_rderef', True, 1)


for _n in ('t_it_eq', 't_it_ne'):
    @drv(_n, 'iter')
    def _(k, _n=_n):
        for st0, l in k.variants():
            for st1, ptr, p in k.positions(st0, l, 'p'):
                for st, ptr2, q in k.positions(st1, l, 'q'):
                    i, j = k.it(st, 'i', ptr), k.it(st, 'j', ptr2)

                    def post(st, ret, th, l=l, p=p, q=q):
                        normal(th)
                        k.expect(st, l, [l.word()], 'sem', A_, C_)
                        same = st.decide_eq(p - q)
                        if st.decide_eq(ret - 1) != (same == (_n == 't_it_eq')):
                            raise Bad('sem', 'comparison of iterators is wrong')
                    yield st, [l.p, i, j], post
