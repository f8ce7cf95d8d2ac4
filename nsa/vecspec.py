"""vector: representation, invariants and the meaning of every operation"""
from .lin import L, ZERO, ONE, lin, sym
from .engine import State, Obj, P, NULL, Bad, Unk, Dead, isconst, UNINIT, TOP, Engine
from .spec import *

ESZ = 24
MAXB = (1 << 63) - 1
DRV = {}


def drv(name, scope, need=None):
    def deco(f):
        DRV[name] = (f, scope, need)
        return f
    return deco


class Lay:
    pass


def discover(mk):
    """layout of the vector object, taken from what its own constructor, reserve and push_back leave behind"""
    eng = mk()
    c = Ctx(eng)
    st = c.state()
    v = c.param(st, 'v', c.gsize('sz_V'))
    e = c.err(st)
    a = c.alloc(st, 'a', L(77))
    x = c.elem(st, 'x', ('$x', ZERO))
    res = []

    def post(s2, ret, thrown):
        if thrown:
            raise Bad('exc', 'an exception leaves a nothrow operation')
        if check_err(s2, e):
            return
        res.append(s2)
    eng.enter(st, '@v_setup', [v, e, a, L(5), x])
    eng.run('v_setup', [st], post)
    lay = None
    for s2 in res:
        l = Lay()
        l.a = l.s = l.f = l.e = None
        for off, (z, val) in sorted(s2.mem[v.reg].cells.items()):
            if isinstance(val, L) and val == L(77):
                l.a = off
            elif isinstance(val, P) and val.reg is not None and s2.mem[val.reg].kind == 'heap':
                if val.off == ZERO:
                    l.s = off
                elif val.off == L(ESZ):
                    l.f = off
                else:
                    l.e = off
        if None not in (l.a, l.s, l.f, l.e):
            l.cells = sorted(s2.mem[v.reg].cells)
            lay = l
    return lay, eng


LAYKEY = 'vec'


def lay_save(lay, mk):
    d = lay_json(lay, ('a', 's', 'f', 'e', 'cells'))
    d['size'] = Ctx(mk()).gsize('sz_V')
    return d


def fallback(mk, ref, eng0):
    eng = mk()
    c = Ctx(eng)
    if ref is None or c.gsize('sz_V') != ref['size']:
        return None
    st = c.state()
    v = c.param(st, 'v', c.gsize('sz_V'))
    a = c.alloc(st, 'a', L(77))
    out = []
    fn = '@v_ctor' if '@v_ctor' in eng.m.funcs else '@f_ctor'
    eng.enter(st, fn, [v, a])
    eng.run(fn[1:], [st], lambda s2, ret, th: out.append(s2))
    if len(out) != 1:
        return None
    cells = out[0].mem[v.reg].cells
    if sorted(cells) != ref['cells'] or cells[ref['a']][1] != L(77) or any(out[0].mem[v.reg].pc(ref[k])[1] != NULL for k in 'sfe'):
        return None
    lay = Lay()
    lay.__dict__.update(ref)
    return lay


class Vec:
    """a vector parameter in a symbolic valid state"""

    def __init__(s, c, st, lay, name, src, n, cap, aid, storage=True):
        s.c, s.lay, s.name, s.src, s.n, s.cap, s.aid, s.storage = c, lay, name, src, n, cap, aid, storage
        s.p = c.param(st, name, c.gsize('sz_V'))
        o = st.mem[s.p.reg]
        if storage:
            st.assume(n)
            st.assume(cap - n)
            st.assume(L(MAXB // ESZ) - cap)
            h = Obj('heap', cap * ESZ, name)
            h.alloc = (aid, cap, ESZ)
            h.esz = ESZ
            h.segs = st.tidy([(ZERO, n, (src, ZERO)), (n, cap, None)])
            s.reg = st.new(h, name + '.storage')
            o.cells[lay.s] = (8, P(s.reg))
            o.cells[lay.f] = (8, P(s.reg, n * ESZ))
            o.cells[lay.e] = (8, P(s.reg, cap * ESZ))
        else:
            s.reg = None
            for k in (lay.s, lay.f, lay.e):
                o.cells[k] = (8, NULL)
        o.cells[lay.a] = (8, aid)

    def word(s):
        return [piece(s.src, 0, s.n)]


def read(st, lay, p, what='vector'):
    """check the representation invariant; returns (size, capacity, word, block region, allocator id)"""
    o = st.obj(p.reg)
    vals = {}
    for k in ('s', 'f', 'e'):
        cell = o.pc(getattr(lay, k))
        if cell is None or not isinstance(cell[1], P):
            raise Bad('rep', '%s is left with indeterminate bounds' % what)
        vals[k] = cell[1]
    aid = o.nc(lay.a)
    if aid is None or not isinstance(aid[1], L):
        raise Bad('rep', '%s is left without an allocator' % what)
    aid = aid[1]
    b, f, e = vals['s'], vals['f'], vals['e']
    if b.reg is None:
        if f.reg is not None or e.reg is not None:
            raise Bad('rep', '%s has inconsistent bounds' % what)
        return ZERO, ZERO, [], None, aid
    if f.reg != b.reg or e.reg != b.reg:
        raise Bad('rep', '%s has bounds in different blocks' % what)
    h = st.mem.get(b.reg)
    if h is None:
        raise Bad('rep', '%s refers to storage that has been released' % what)
    if h.kind != 'heap' or h.alloc is None or h.segs is None:
        raise Bad('rep', '%s refers to memory it does not own' % what)
    if not st.decide_eq(b.off):
        raise Bad('rep', '%s does not start at the beginning of its storage' % what)
    n = st.norm(f.off).div(ESZ)
    cap = st.norm(e.off).div(ESZ)
    if n is None or cap is None:
        raise Bad('rep', '%s has misaligned bounds' % what)
    if not st.decide(n) or not st.decide(cap - n):
        raise Bad('rep', '%s has a size outside of its capacity' % what)
    h = st.obj(b.reg)
    if not st.decide_eq(h.alloc[1] - cap):
        raise Bad('rep', 'capacity of %s differs from the size of its storage' % what)
    if not st.decide_eq(h.alloc[0] - aid):
        raise Bad('block', '%s owns storage of another allocator' % what)
    w = st.word(b.reg, ZERO, n)
    for a, x, y in w:
        if a is None:
            raise Bad('life', '%s contains an element that is not alive' % what)
    for a, x, y in st.word(b.reg, n, cap):
        if a is not None:
            raise Bad('life', 'a living element is left behind the end of %s' % what)
    return n, cap, w, b.reg, aid


def fresh_check(w):
    for a, x, y in w:
        if a is not None and a.startswith('!'):
            raise Bad('sem', 'the vector contains a moved-from or half-initialised element')


def make(c, lay, mode):
    return VC(c, lay, mode)


class VC:
    """per-run context handed to a driver specification"""

    def __init__(s, c, lay, elt):
        s.c, s.lay, s.elt = c, lay, elt

    def variants(s, name='v', src='S', alloc='a'):
        for storage in (True, False):
            st = s.c.state()
            yield st, s.vec(st, name, src, alloc, storage)

    def vec(s, st, name, src, alloc, storage=True):
        return Vec(s.c, st, s.lay, name, src, sym(name + '.n') if storage else ZERO, sym(name + '.c') if storage else ZERO,
                   sym(alloc), storage)

    def expect(s, st, v, words, cat='sem', alloc=None, extra=()):
        """v holds one of the words; no other block is alive"""
        n, cap, w, reg, aid = read(st, s.lay, v.p, v.name)
        fresh_check(w)
        if alloc is not None and not st.decide_eq(aid - alloc):
            raise Bad('block', 'the vector ends up with a wrong allocator')
        if not any(word_eq(st, w, x) for x in words):
            raise Bad(cat, 'content is %s, expected %s' % (shw(w), ' or '.join(shw(x) for x in words)))
        keep = {reg}
        for o in extra:
            keep.add(read(st, s.lay, o.p, o.name)[3])
        no_leak(st, keep)
        return n, cap, w, reg, aid


def normal(thrown):
    if thrown:
        raise Bad('exc', 'an exception leaves a nothrow operation')


def ret_ptr(st, ret, reg, idx, what):
    """returned pointer designates element idx of block reg"""
    if not isinstance(ret, P):
        raise Bad('sem', 'indeterminate pointer returned (%s)' % what)
    if reg is None:
        if ret.reg is not None:
            raise Bad('sem', 'pointer returned (%s) is not into the vector' % what)
        return
    if ret.reg != reg or not st.decide_eq(ret.off - idx * ESZ):
        raise Bad('sem', 'pointer returned (%s) designates a wrong element' % what)


X = ('$x', ZERO)
MAXE = ((1 << 64) - 1) // ESZ


def toobig(st, n):
    f = st.ghost.get('fail')
    if f == 'self2' and not st.decide(n - MAXE - 1):
        raise Bad('err', 'a length error is reported for a request that can be satisfied')
    if f == 'alloc' and st.decide(n - MAXE - 1):
        raise Bad('err', 'a request beyond the maximum size is passed on to the allocator instead of reporting a length error')
    return ('self2',)


def init_fail(elt):
    return ('self4',)


# ---- construction / destruction ------------------------------------------------------------------------------------
@drv('v_ctor', 'ctor')
def _(k):
    st = k.c.state()
    p = k.c.param(st, 'v', k.c.gsize('sz_V'))
    a = k.c.alloc(st, 'al', sym('a'))

    def post(st, ret, th):
        normal(th)
        n, cap, w, reg, aid = read(st, k.lay, p)
        if reg is not None or not st.decide_eq(n):
            raise Bad('sem', 'a default constructed vector is not empty')
        if not st.decide_eq(aid - sym('a')):
            raise Bad('block', 'the vector does not keep the given allocator')
        no_leak(st, {reg})
    yield st, [p, a], post


@drv('v_ctor_default', 'ctor')
def _(k):
    st = k.c.state()
    p = k.c.param(st, 'v', k.c.gsize('sz_V'))

    def post(st, ret, th):
        normal(th)
        n, cap, w, reg, aid = read(st, k.lay, p)
        if reg is not None or not st.decide_eq(n):
            raise Bad('sem', 'a default constructed vector is not empty')
        no_leak(st, {reg})
    yield st, [p], post


@drv('v_ctor_move', 'move')
def _(k):
    for st, o in k.variants('o', 'S', 'a'):
        p = k.c.param(st, 'v', k.c.gsize('sz_V'))

        def post(st, ret, th, o=o, p=p):
            normal(th)
            v = type('V', (), dict(p=p, name='v'))
            k.expect(st, v, [o.word()], 'move', sym('a'), [o])
            n, cap, w, reg, aid = read(st, k.lay, o.p, 'the source')
            if not word_eq(st, w, []):
                raise Bad('move', 'the source of a move keeps elements')
        yield st, [p, o.p], post


@drv('v_dtor', 'dtor')
def _(k):
    for st, v in k.variants():
        def post(st, ret, th):
            normal(th)
            no_leak(st)
        yield st, [v.p], post


@drv('v_get_allocator', 'access')
def _(k):
    for st, v in k.variants():
        out = k.c.param(st, 'out', k.c.gsize('sz_A'))

        def post(st, ret, th, v=v, out=out):
            normal(th)
            x = st.load(out, 8, False)
            if not isinstance(x, L) or not st.decide_eq(x - sym('a')):
                raise Bad('block', 'get_allocator returns another allocator')
            k.expect(st, v, [v.word()], 'sem', sym('a'))
        yield st, [v.p, out], post


# ---- whole container -----------------------------------------------------------------------------------------------
def two(k):
    for s1 in (True, False):
        for s2 in (True, False):
            st = k.c.state()
            v = k.vec(st, 'v', 'S', 'a', s1)
            o = k.vec(st, 'o', 'T', 'b', s2)
            yield st, v, o


@drv('v_move_assign', 'move')
def _(k):
    for st, v, o in two(k):
        def post(st, ret, th, v=v, o=o):
            normal(th)
            k.expect(st, v, [o.word()], 'move', sym('b'), [o])
            n, cap, w, reg, aid = read(st, k.lay, o.p, 'the source')
            if not word_eq(st, w, []):
                raise Bad('move', 'the source of a move assignment keeps elements')
        yield st, [v.p, o.p], post
    for st, v in k.variants():
        def post(st, ret, th, v=v):
            normal(th)
            k.expect(st, v, [v.word(), []], 'move', sym('a'))
        yield st, [v.p, v.p], post


@drv('v_swap', 'swap')
def _(k):
    for st, v, o in two(k):
        def post(st, ret, th, v=v, o=o):
            normal(th)
            k.expect(st, v, [o.word()], 'move', sym('b'), [o])
            k.expect(st, o, [v.word()], 'move', sym('a'), [v])
        yield st, [v.p, o.p], post
    for st, v in k.variants():
        def post(st, ret, th, v=v):
            normal(th)
            k.expect(st, v, [v.word()], 'move', sym('a'))
        yield st, [v.p, v.p], post


def copy_post(k, v, o, e):
    def post(st, ret, th):
        normal(th)
        bad = check_err(st, e, ('self4',) + toobig(st, o.n))
        if bad:
            n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
            fresh_check(w)
            if not is_split_prefix(st, w, o.word()):
                raise Bad('fail', 'after a failed copy the target holds %s' % shw(w))
        else:
            k.expect(st, v, [o.word()], 'copy', None, [o])
            n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
        if not st.decide_eq(aid - sym('a')):
            raise Bad('block', 'copying replaces the allocator of the target')
        n2, cap2, w2, reg2, aid2 = read(st, k.lay, o.p, 'the source')
        if not word_eq(st, w2, o.word()):
            raise Bad('copy', 'copying modifies the source')
        if reg2 is not None and reg2 == reg:
            raise Bad('copy', 'the copy shares storage with the source')
        no_leak(st, {reg, reg2})
    return post


@drv('v_copy', 'copy')
def _(k):
    for st, v, o in two(k):
        e = k.c.err(st)
        yield st, [v.p, e, o.p], copy_post(k, v, o, e)
    for st, v in k.variants():
        e = k.c.err(st)

        def post(st, ret, th, v=v, e=e):
            normal(th)
            bad = check_err(st, e, ('self4',))
            n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
            if not bad and not word_eq(st, w, v.word()):
                raise Bad('copy', 'copying a vector to itself changes it')
            no_leak(st, {reg})
        yield st, [v.p, e, v.p], post


@drv('v_two_phase', 'copy')
def _(k):
    for storage in (True, False):
        st = k.c.state()
        v = k.vec(st, 'v', 'S', 'a', False)
        o = k.vec(st, 'o', 'T', 'b', storage)
        e = k.c.err(st)
        yield st, [v.p, e, o.p], copy_post(k, v, o, e)


def assign_post(k, v, e, word, n, args):
    def post(st, ret, th):
        normal(th)
        bad = check_err(st, e, ('self4',) + toobig(st, n))
        args_intact(st, args)
        if bad:
            m, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
            fresh_check(w)
            if not is_split_prefix(st, w, word):
                raise Bad('fail', 'after a failed assignment the vector holds %s' % shw(w))
            no_leak(st, {reg})
        else:
            m, cap, w, reg, aid = k.expect(st, v, [word], 'sem')
        if not st.decide_eq(aid - sym('a')):
            raise Bad('block', 'assignment replaces the allocator of the vector')
    return post


@drv('v_assign_n', 'assign')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        x = k.c.elem(st, 'x', X)
        m = sym('m')
        st.assume(m)
        st.assume(L((1 << 64) - 1) - m)
        yield st, [v.p, e, m, x], assign_post(k, v, e, [rep('$x', m)], m, [(x, X)])


def rng(k, st):
    m = sym('m')
    st.assume(m)
    st.assume(L(MAXB // ESZ) - m)
    r = k.c.array(st, 'R', 'R', m)
    return r, P(r.reg, m * ESZ), m


@drv('v_assign_ptr', 'assign')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        f, l, m = rng(k, st)
        yield st, [v.p, e, f, l], assign_post(k, v, e, [piece('R', 0, m)], m, [])


@drv('v_assign_in', 'assign')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        f, l, m = rng(k, st)
        yield st, [v.p, e, f, l], assign_post(k, v, e, [piece('R', 0, m)], m, [])


@drv('v_eq', 'access')
def _(k):
    for st, v, o in two(k):
        d = sym('d')      # position of the first difference
        st.assume(d)
        st.ghost['_eq'] = ('S', 'T', d)

        def post(st, ret, th, v=v, o=o):
            normal(th)
            k.expect(st, v, [v.word()], 'sem', None, [o])
            k.expect(st, o, [o.word()], 'sem', None, [v])
            r = st.decide_eq(ret - 1)
            same = st.decide_eq(v.n - o.n) and st.decide(sym('d') - v.n)
            if r != same:
                raise Bad('sem', 'equality of vectors is %s for %s vectors' % ('true' if r else 'false', 'equal' if same else 'different'))
        yield st, [v.p, o.p], post


# ---- access --------------------------------------------------------------------------------------------------------
def access(name, idx, pre=None, args=None):
    @drv(name, 'access')
    def _(k):
        for st, v in k.variants():
            try:
                if pre:
                    st.assume(pre(v))
                ar = args(st, v) if args else []
            except Dead:
                continue

            def post(st, ret, th, v=v):
                normal(th)
                n, cap, w, reg, aid = k.expect(st, v, [v.word()], 'sem', sym('a'))
                ret_ptr(st, ret, reg, idx(v), name)
            yield st, [v.p] + ar, post


def _pos(st, v):
    i = sym('i')
    st.assume(i)
    st.assume(v.n - i - 1)
    return [i]


for _n in ('v_index', 'v_index_c'):
    access(_n, lambda v: sym('i'), lambda v: v.n - 1, _pos)
for _n in ('v_front', 'v_front_c', 'v_data', 'v_data_c'):
    access(_n, lambda v: ZERO, lambda v: v.n - 1)
for _n in ('v_back', 'v_back_c'):
    access(_n, lambda v: v.n - 1, lambda v: v.n - 1)
for _n in ('v_begin', 'v_begin_c', 'v_cbegin', 'v_rend', 'v_rend_c', 'v_crend'):
    access(_n, lambda v: ZERO)
for _n in ('v_end', 'v_end_c', 'v_cend', 'v_rbegin', 'v_rbegin_c', 'v_crbegin'):
    access(_n, lambda v: v.n)


def number(name, val):
    @drv(name, 'access')
    def _(k):
        for st, v in k.variants():
            def post(st, ret, th, v=v):
                normal(th)
                k.expect(st, v, [v.word()], 'sem', sym('a'))
                if not isinstance(ret, L) or not st.decide_eq(ret - val(st, v)):
                    raise Bad('sem', 'wrong value returned (%s)' % name)
            yield st, [v.p], post


number('v_empty', lambda st, v: ONE if st.decide_eq(v.n) else ZERO)
number('v_size', lambda st, v: v.n)
number('v_capacity', lambda st, v: v.cap)


@drv('v_max_size', 'access')
def _(k):
    for st, v in k.variants():
        def post(st, ret, th, v=v):
            normal(th)
            if not isinstance(ret, L) or not ret.const:
                raise Unk('max_size')
            x = ret.c % (1 << 64)
            if x * ESZ > (1 << 64) - 1:
                raise Bad('sem', 'max_size admits more elements than memory can hold')
            if x < 1 << 20:
                raise Bad('sem', 'max_size rejects ordinary sizes')
        yield st, [v.p], post


# ---- modifiers -----------------------------------------------------------------------------------------------------
@drv('v_reserve', 'capacity')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        m = sym('m')
        st.assume(m)
        st.assume(L((1 << 64) - 1) - m)

        def post(st, ret, th, v=v, e=e):
            normal(th)
            m = sym('m')
            bad = check_err(st, e, ('self4',) + toobig(st, m))
            n, cap, w, reg, aid = k.expect(st, v, [v.word()], 'fail' if bad else 'sem', sym('a'))
            if not bad and not st.decide(cap - m):
                raise Bad('sem', 'reserve succeeds without providing the capacity')
            in_place(st, v, reg, m, 'reserve')
            if not st.decide(cap - v.cap):
                raise Bad('sem', 'reserve reduces the capacity')
            if bad and not st.decide_eq(cap - v.cap):
                raise Bad('fail', 'failed reserve changes the capacity')
        yield st, [v.p, e, m], post


@drv('v_shrink', 'capacity')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)

        def post(st, ret, th, v=v, e=e):
            normal(th)
            bad = check_err(st, e, ('self4',))
            n, cap, w, reg, aid = k.expect(st, v, [v.word()], 'fail' if bad else 'sem', sym('a'))
            if not st.decide(v.cap - cap):
                raise Bad('sem', 'shrink_to_fit enlarges the capacity')
            if not bad and not st.decide_eq(cap - n):
                raise Bad('sem', 'shrink_to_fit reports success and leaves spare capacity')
        yield st, [v.p, e], post


@drv('v_clear', 'modify')
def _(k):
    for st, v in k.variants():
        def post(st, ret, th, v=v):
            normal(th)
            k.expect(st, v, [[]], 'sem', sym('a'))
        yield st, [v.p], post


def pos_arg(st, v, name='p', strict=False):
    p = sym(name)
    st.assume(p)
    st.assume(v.n - p - (1 if strict else 0))
    return p


def in_place(st, v, reg, m, what):
    """while the capacity suffices for m elements, the storage is kept and none is requested"""
    if v.reg is not None and st.decide(v.cap - m):
        if reg is None or st.mem[reg].name != v.name:
            raise Bad('sem', '%s moves to other storage although the capacity suffices: positions become invalid' % what)
        if st.ghost.get('fail') == 'alloc':
            raise Bad('fail', '%s fails for lack of storage although the capacity suffices' % what)


def insert_post(k, v, e, p, mid, args, ret_check=True, push=False):
    def post(st, ret, th):
        normal(th)
        args_intact(st, args)
        bad = check_err(st, e, ('self4',))
        full = [piece('S', 0, p), mid, piece('S', p, v.n)]
        n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
        in_place(st, v, reg, v.n + 1, 'insertion')
        fresh_check(w)
        no_leak(st, {reg})
        if not st.decide_eq(aid - sym('a')):
            raise Bad('block', 'insertion replaces the allocator')
        if not bad:
            if not word_eq(st, w, full):
                raise Bad('sem', 'content after insertion is %s, expected %s' % (shw(w), shw(full)))
            if ret_check:
                ret_ptr(st, ret, reg, st.norm(p), 'inserted position')
        else:
            if st.ghost['fail'] == 'alloc' or push:
                if not word_eq(st, w, v.word()):
                    raise Bad('fail', 'failed insertion changes the content to %s' % shw(w))
            else:
                rest = take_prefix(st, w, piece('S', 0, v.n))
                if any(st.decide(x[2] - x[1] - 1) for x in rest) or not st.decide(n - p):
                    raise Bad('fail', 'failed insertion leaves %s, elements in front of the position must survive' % shw(w))
            if ret_check:
                ret_ptr(st, ret, reg, n, 'end after a failure')
    return post


@drv('v_insert', 'modify')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        x = k.c.elem(st, 'x', X)
        p = pos_arg(st, v)
        yield st, [v.p, e, p, x], insert_post(k, v, e, p, rep('$x', 1), [(x, X)])


@drv('v_insert_own', 'modify')
def _(k):
    for st, v in k.variants():
        if not v.storage:
            continue
        e = k.c.err(st)
        p = pos_arg(st, v)
        q = pos_arg(st, v, 'q', True)
        yield st, [v.p, e, p, q], insert_post(k, v, e, p, piece('S', q, q + 1), [])


@drv('v_push_own', 'modify')
def _(k):
    for st, v in k.variants():
        if not v.storage:
            continue
        e = k.c.err(st)
        q = pos_arg(st, v, 'q', True)
        yield st, [v.p, e, q], insert_post(k, v, e, v.n, piece('S', q, q + 1), [], False, True)


@drv('v_insert_move', 'modify', 'MOVABLE')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        x = k.c.elem(st, 'x', X)
        p = pos_arg(st, v)
        yield st, [v.p, e, p, x], insert_post(k, v, e, p, rep('$x', 1), [])


@drv('v_push_back', 'modify')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        x = k.c.elem(st, 'x', X)
        yield st, [v.p, e, x], insert_post(k, v, e, v.n, rep('$x', 1), [(x, X)], False, True)


@drv('v_push_back_move', 'modify', 'MOVABLE')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        x = k.c.elem(st, 'x', X)
        yield st, [v.p, e, x], insert_post(k, v, e, v.n, rep('$x', 1), [], False, True)


@drv('v_emplace_back_arg', 'modify')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        yield st, [v.p, e, L(5)], insert_post(k, v, e, v.n, rep('$arg5', 1), [], False, True)


@drv('v_emplace_back_none', 'modify')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        yield st, [v.p, e], insert_post(k, v, e, v.n, rep('$default', 1), [], False, True)


def range_post(k, v, e, p, m):
    def post(st, ret, th):
        normal(th)
        bad = check_err(st, e, ('self4',))
        full = [piece('S', 0, p), piece('R', 0, m), piece('S', p, v.n)]
        n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
        in_place(st, v, reg, v.n + m, 'range insertion')
        fresh_check(w)
        no_leak(st, {reg})
        if not bad:
            if not word_eq(st, w, full):
                raise Bad('sem', 'content after range insertion is %s, expected %s' % (shw(w), shw(full)))
        elif not st.decide(n - p) or not is_split_prefix(st, w, full):
            raise Bad('fail', 'failed range insertion leaves %s' % shw(w))
    return post


for _n in ('v_insert_range', 'v_insert_range_in'):
    def _mk(_n=_n):
        @drv(_n, 'modify')
        def _(k):
            for st, v in k.variants():
                e = k.c.err(st)
                p = pos_arg(st, v)
                f, l, m = rng(k, st)
                yield st, [v.p, e, p, f, l], range_post(k, v, e, p, m)
    _mk()


def resize_post(k, v, e, m, val, args):
    def post(st, ret, th):
        normal(th)
        args_intact(st, args)
        bad = check_err(st, e, ('self4',) + toobig(st, m))
        n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
        in_place(st, v, reg, m, 'resizing')
        fresh_check(w)
        no_leak(st, {reg})
        if st.decide(v.n - m):
            if bad:
                raise Bad('err', 'shrinking fails')
            if not word_eq(st, w, [piece('S', 0, m)]):
                raise Bad('sem', 'content after resize is %s' % shw(w))
        elif not bad:
            if not word_eq(st, w, [piece('S', 0, v.n), val(m - v.n)]):
                raise Bad('sem', 'content after resize is %s' % shw(w))
        else:
            if not st.decide(n - v.n) or not is_split_prefix(st, w, [piece('S', 0, v.n), val(m - v.n)]):
                raise Bad('fail', 'failed resize leaves %s' % shw(w))
            if st.ghost['fail'] == 'alloc' and not st.decide_eq(n - v.n):
                raise Bad('fail', 'failed resize changes the size')
    return post


@drv('v_resize', 'modify')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        m = sym('m')
        st.assume(m)
        st.assume(L((1 << 64) - 1) - m)
        yield st, [v.p, e, m], resize_post(k, v, e, m, lambda d: rep('$default', d), [])


@drv('v_resize_val', 'modify')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)
        x = k.c.elem(st, 'x', X)
        m = sym('m')
        st.assume(m)
        st.assume(L((1 << 64) - 1) - m)
        yield st, [v.p, e, m, x], resize_post(k, v, e, m, lambda d: rep('$x', d), [(x, X)])


def marked(k, st, v):
    """give the element at an arbitrary position q the value $x, so that repetitions of it can be told"""
    q = pos_arg(st, v, 'q', True)
    h = st.mem[v.reg]
    h.segs = st.tidy([(ZERO, q, ('S', ZERO)), (q, q + 1, ('$x', ZERO)), (q + 1, v.n, ('S', ZERO)), (v.n, v.cap, None)])
    return q, [piece('S', 0, q), rep('$x', 1), piece('S', q + 1, v.n)]


@drv('v_resize_own', 'modify')
def _(k):
    for st, v in k.variants():
        if not v.storage:
            continue
        e = k.c.err(st)
        q, old = marked(k, st, v)
        m = sym('m')
        st.assume(m)
        st.assume(L((1 << 64) - 1) - m)

        def post(st, ret, th, v=v, e=e, q=q, old=old, m=m):
            normal(th)
            bad = check_err(st, e, ('self4',) + toobig(st, m))
            n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
            in_place(st, v, reg, m, 'resizing')
            fresh_check(w)
            no_leak(st, {reg})
            if not bad:
                full = old + [rep('$x', m - v.n)] if not st.decide(v.n - m) else take(st, old, m)
                if not word_eq(st, w, full):
                    raise Bad('sem', 'content after resize is %s, expected %s' % (shw(w), shw(full)))
            elif st.decide(v.n - m):
                if not word_eq(st, w, old) and not word_eq(st, w, take(st, old, m)):
                    raise Bad('fail', 'failed resize leaves %s' % shw(w))
            elif not st.decide(n - v.n) or not is_split_prefix(st, w, old + [rep('$x', m - v.n)]):
                raise Bad('fail', 'failed resize leaves %s' % shw(w))
        yield st, [v.p, e, m, q], post


@drv('v_assign_own', 'assign')
def _(k):
    for st, v in k.variants():
        if not v.storage:
            continue
        e = k.c.err(st)
        q, old = marked(k, st, v)
        m = sym('m')
        st.assume(m)
        st.assume(L((1 << 64) - 1) - m)

        def post(st, ret, th, v=v, e=e, m=m):
            normal(th)
            bad = check_err(st, e, ('self4',) + toobig(st, m))
            n, cap, w, reg, aid = read(st, k.lay, v.p, v.name)
            fresh_check(w)
            no_leak(st, {reg})
            if not bad:
                if not word_eq(st, w, [rep('$x', m)]):
                    raise Bad('sem', 'content after assignment of an own element is %s' % shw(w))
            elif not is_split_prefix(st, w, [rep('$x', m)]):
                raise Bad('fail', 'failed assignment leaves %s' % shw(w))
        yield st, [v.p, e, m, q], post


@drv('v_assign_part', 'assign')
def _(k):
    for st, v in k.variants():
        if not v.storage:
            continue
        e = k.c.err(st)
        p = pos_arg(st, v)
        q = sym('q')
        st.assume(q - p)
        st.assume(v.n - q)
        yield st, [v.p, e, p, q], assign_post(k, v, e, [piece('S', p, q)], q - p, [])


def take(st, w, m):
    """the first m elements of a word"""
    out = []
    for src, a, b in w:
        if st.decide(m - (b - a)):
            out.append((src, a, b))
            m = m - (b - a)
        else:
            out.append((src, a, a + m))
            break
    return out

OPEN = ('v_insert_range', 'v_insert_range_in')
COST = {'v_insert_range': 9, 'v_insert_range_in': 9, 'v_copy': 2, 'v_shrink': 2}
