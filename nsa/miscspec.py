"""algorithms, default allocator, construction of single objects, error objects"""
from .lin import L, ZERO, ONE, lin, sym
from .engine import State, Obj, P, NULL, Bad, Unk, Dead, isconst, UNINIT, TOP
from .spec import *
from .vecspec import normal, X, ESZ, MAXB, MAXE

DRV = {}
ENOMEM, ERANGE = 12, 34


def drv(name, scope, need=None):
    def deco(f):
        DRV[name] = (f, scope, need)
        return f
    return deco


class Lay:
    pass


def discover(mk):
    return Lay(), None


def make(c, lay, mode):
    return MC(c, mode)


class MC:
    def __init__(s, c, elt):
        s.c, s.elt = c, elt


def arr(k, st, name, src, n, raw=False):
    p = k.c.array(st, name, src, n)
    if raw:
        o = st.mem[p.reg].copy()
        o.segs = ((ZERO, lin(n), None),)
        st.mem[p.reg] = o
    return p


def content(st, p, n):
    return st.word(p.reg, ZERO, n)


def same_array(st, p, src, n, what='the source range'):
    if not word_eq(st, content(st, p, n), [piece(src, 0, n)]):
        raise Bad('sem', '%s is modified' % what)


def num(st, name, hi=MAXB // ESZ):
    m = sym(name)
    st.assume(m)
    st.assume(L(hi) - m)
    return m


def pos_of(st, ret, p, what):
    if not isinstance(ret, P) or ret.reg != p.reg:
        raise Bad('sem', '%s returns a position outside of the output' % what)
    q = st.norm(ret.off).div(ESZ)
    if q is None:
        raise Bad('sem', '%s returns a misaligned position' % what)
    return q


# ---- copy ------------------------------------------------------------------------------------------------------------
def copy_drv(name, need='!-DTWOPHASE'):
    @drv(name, 'alg', need)
    def _(k):
        st = k.c.state()
        e = k.c.err(st)
        m, d = num(st, 'm'), num(st, 'd')
        st.assume(d - m)
        r = arr(k, st, 'R', 'R', m)
        o = arr(k, st, 'out', 'S', d)

        def post(st, ret, th):
            normal(th)
            bad = check_err(st, e)
            q = pos_of(st, ret, o, name)
            same_array(st, r, 'R', m)
            w = content(st, o, d)
            if not st.decide(q) or not st.decide(m - q):
                raise Bad('sem', 'copy returns a position outside of the copied range')
            if bad:
                if not st.decide(m - q - 1):
                    raise Bad('fail', 'a failed copy returns the end of the whole copy')
                if not word_eq(st, w, [piece('R', 0, q), one(('!unspecified', ZERO)) if False else ('!unspecified', ZERO, ONE), piece('S', q + 1, d)]):
                    raise Bad('fail', 'after a failed copy the output is %s' % shw(w))
            else:
                if not st.decide_eq(q - m):
                    raise Bad('sem', 'copy does not return the end of the copied range')
                if not word_eq(st, w, [piece('R', 0, m), piece('S', m, d)]):
                    raise Bad('sem', 'after copy the output is %s' % shw(w))
            no_leak(st)
        yield st, [e, r, P(r.reg, m * ESZ), o], post


copy_drv('a_copy')
copy_drv('a_copy_in')


@drv('a_copy_left', 'alg', '!-DTWOPHASE')
def _(k):
    st = k.c.state()
    e = k.c.err(st)
    n, p = num(st, 'n'), num(st, 'p')
    st.assume(n - p)
    st.assume(p - 1)
    a = arr(k, st, 'arr', 'S', n)

    def post(st, ret, th):
        normal(th)
        if check_err(st, e):
            return
        q = pos_of(st, ret, a, 'copy')
        if not st.decide_eq(q - (n - p)):
            raise Bad('sem', 'copy does not return the end of the copied range')
        w = content(st, a, n)
        if not word_eq(st, w, [piece('S', p, n), piece('S', n - p, n)]):
            raise Bad('sem', 'after copying to the left the array is %s' % shw(w))
    yield st, [e, a, p, n], post


def copy_if_drv(name):
    @drv(name, 'alg', '!-DTWOPHASE')
    def _(k):
        st = k.c.state()
        e = k.c.err(st)
        m, d = num(st, 'm'), num(st, 'd')
        st.assume(d - m)
        r = arr(k, st, 'R', 'R', m)
        o = arr(k, st, 'out', 'S', d)
        # fsel: number of elements examined, number selected
        st.ghost['fdone'] = ZERO
        st.ghost['fsel'] = ZERO
        st.ghost['fnow'] = 0
        st.ghost['_filter'] = 'R'

        def post(st, ret, th):
            normal(th)
            bad = check_err(st, e)
            q = pos_of(st, ret, o, name)
            same_array(st, r, 'R', m)
            w = content(st, o, d)
            c = st.ghost['fsel']
            if bad:
                if not st.decide_eq(q - c + 1):
                    raise Bad('fail', 'a failed copy_if does not return the place of the failed element')
                want = [piece('F', 0, q), ('!unspecified', ZERO, ONE), piece('S', q + 1, d)]
            else:
                if not st.decide_eq(st.ghost['fdone'] - m):
                    raise Bad('sem', 'copy_if does not examine the whole range')
                if not st.decide_eq(q - c):
                    raise Bad('sem', 'copy_if does not return the end of the output')
                want = [piece('F', 0, c), piece('S', c, d)]
            if not word_eq(st, w, want):
                raise Bad('sem' if not bad else 'fail', 'after copy_if the output is %s' % shw(w))
        yield st, [e, r, P(r.reg, m * ESZ), o], post


copy_if_drv('a_copy_if')
copy_if_drv('a_copy_if_in')


def equal_drv(name):
    @drv(name, 'alg')
    def _(k):
        st = k.c.state()
        m, d, n2 = num(st, 'm'), sym('d'), num(st, 'n2')
        st.assume(d)
        st.assume(n2 - m)
        st.ghost['_eq'] = ('S', 'T', d)
        r = arr(k, st, 'R', 'S', m)
        o = arr(k, st, 'Q', 'T', n2)

        def post(st, ret, th):
            normal(th)
            x = st.decide_eq(ret - 1)
            same = st.decide(sym('d') - m)
            if x != same:
                raise Bad('sem', 'equal returns %s for %s ranges' % ('true' if x else 'false', 'equal' if same else 'different'))
            same_array(st, r, 'S', m)
            same_array(st, o, 'T', n2)
        yield st, [r, P(r.reg, m * ESZ), o], post


for _n in ('a_equal', 'a_equal_in', 'a_equal_pred'):
    equal_drv(_n)


def lex_drv(name):
    @drv(name, 'alg')
    def _(k):
        for lt in (True, False):
            st = k.c.state()
            m, n2, d = num(st, 'm'), num(st, 'n2'), sym('d')
            st.assume(d)
            # the first d elements are equivalent; at d (when inside both) the first range is smaller iff lt
            st.ghost['_lex'] = ('S', 'T', d, lt)
            r = arr(k, st, 'R', 'S', m)
            o = arr(k, st, 'Q', 'T', n2)

            def post(st, ret, th, lt=lt, r=r, o=o, m=m, n2=n2):
                normal(th)
                x = st.decide_eq(ret - 1)
                d = sym('d')
                if st.decide(m - d - 1) and st.decide(n2 - d - 1):
                    want = lt
                else:
                    want = st.decide(n2 - m - 1)
                if x != want:
                    raise Bad('sem', 'lexicographical_compare returns %s instead of %s' % (x, want))
                same_array(st, r, 'S', m)
                same_array(st, o, 'T', n2)
            yield st, [r, P(r.reg, m * ESZ), o, P(o.reg, n2 * ESZ)], post


for _n in ('a_lex', 'a_lex_in', 'a_lex_comp'):
    lex_drv(_n)


# ---- default allocator ---------------------------------------------------------------------------------------------
def alloc_drv(name):
    @drv(name, 'alloc')
    def _(k):
        st = k.c.state()
        e = k.c.err(st)
        n = sym('n')
        st.assume(n)
        st.assume(L((1 << 64) - 1) - n)

        def post(st, ret, th):
            normal(th)
            v = errval(st, e)
            big = st.decide(n - MAXE - 1)
            if big and not v:
                raise Bad('err', 'a request whose size in bytes does not fit is not reported')
            f = st.ghost.get('fail')
            real = 'alloc' in (st.ghost.get('refused') or '')
            if real and not v:
                raise Bad('err', 'a refused request is not reported')
            if v and not real and not big:
                raise Bad('err', 'an error is reported for a request that is granted')
            if v:
                if not isinstance(ret, P) or ret.reg is not None:
                    raise Bad('block', 'a failed request returns a pointer')
                no_leak(st)
                return
            if not isinstance(ret, P) or ret.reg is None or st.mem.get(ret.reg) is None or st.mem[ret.reg].kind != 'heap':
                raise Bad('block', 'a granted request does not return the block')
            if not st.decide_eq(ret.off):
                raise Bad('block', 'a granted request does not return the start of the block')
            if not st.decide(st.mem[ret.reg].alloc[1] - n * ESZ):
                raise Bad('block', 'the granted block is smaller than requested')
            no_leak(st, {ret.reg})
        yield st, [e, n], post


for _n in ('n_alloc', 'n_alloc_traits', 'n_alloc_rebound'):
    alloc_drv(_n)


def cycle_drv(name):
    @drv(name, 'alloc')
    def _(k):
        st = k.c.state()
        e = k.c.err(st)
        n = sym('n')
        st.assume(n)
        st.assume(L((1 << 64) - 1) - n)

        def post(st, ret, th):
            normal(th)
            no_leak(st)
        yield st, [e, n], post


cycle_drv('n_cycle')
cycle_drv('n_cycle_traits')


# ---- one object ----------------------------------------------------------------------------------------------------
def constr(name, want, need=None, arg=None):
    @drv(name, 'oneobj', need)
    def _(k):
        st = k.c.state()
        e = k.c.err(st)
        p = k.c.param(st, 'p', ESZ)
        x = None
        args = [e, p]
        if arg == 'x':
            x = k.c.elem(st, 'x', X)
            args.append(x)
        elif arg == 'a':
            args.append(sym('a'))

        def post(st, ret, th):
            normal(th)
            bad = check_err(st, e, ('self4',))
            v = st.eget(st.eloc(p))
            if bad:
                if v is not None:
                    raise Bad('life', 'an object whose construction failed is left alive')
            else:
                w = want(st)
                if v is None:
                    raise Bad('life', 'the object is not constructed although success is reported')
                if v[0] != w:
                    raise Bad('sem', 'the object is constructed with a wrong value')
            if arg == 'x' and name != 'c_move':
                args_intact(st, [(x, X)])
        yield st, args, post


constr('c_default', lambda st: '$default')
constr('c_copy', lambda st: '$x', None, 'x')
constr('c_arg', lambda st: '$arg%r' % (sym('a'),), None, 'a')
constr('c_move', lambda st: '$x', 'MOVABLE', 'x')


def assigner(name, need):
  @drv(name, 'oneobj', need)
  def _(k):
      st = k.c.state()
      e = k.c.err(st)
      p = k.c.elem(st, 'p', ('$y', ZERO))
      x = k.c.elem(st, 'x', X)

      def post(st, ret, th):
          normal(th)
          bad = check_err(st, e)
          v = st.eget(st.eloc(p))
          if v is None:
              raise Bad('life', 'assignment destroys its target')
          if not bad and v[0] != '$x':
              raise Bad('sem', 'assignment does not assign the value')
          if name == 'c_assign':
              args_intact(st, [(x, X)])
      yield st, [e, p, x], post


assigner('c_assign', '!-DTWOPHASE')
assigner('c_assign_move', 'MOVABLE')


@drv('u_copy', 'oneobj')
def _(k):
    st = k.c.state()
    e = k.c.err(st)
    m, d = num(st, 'm'), num(st, 'd')
    st.assume(d - m)
    r = arr(k, st, 'R', 'R', m)
    o = arr(k, st, 'out', 'S', d, raw=True)

    def post(st, ret, th):
        normal(th)
        bad = check_err(st, e, ('self4',))
        same_array(st, r, 'R', m)
        w = content(st, o, d)
        if bad:
            if not word_eq(st, w, [(None, ZERO, d)]):
                raise Bad('life', 'a failed copy into raw storage leaves objects behind')
        else:
            q = pos_of(st, ret, o, 'uninitialised copy')
            if not st.decide_eq(q - m):
                raise Bad('sem', 'copy does not return the end of the output')
            if not word_eq(st, w, [piece('R', 0, m), (None, m, d)]):
                raise Bad('sem', 'the copy is %s' % shw(w))
    yield st, [e, r, P(r.reg, m * ESZ), o], post


@drv('u_destroy', 'oneobj')
def _(k):
    st = k.c.state()
    d, i, j = num(st, 'd'), num(st, 'i'), num(st, 'j')
    st.assume(j - i)
    st.assume(d - j)
    o = arr(k, st, 'arr', 'S', d)

    def post(st, ret, th):
        normal(th)
        w = content(st, o, d)
        if not word_eq(st, w, [piece('S', 0, i), (None, i, j), piece('S', j, d)]):
            raise Bad('life', 'destroying a range leaves %s' % shw(w))
    yield st, [P(o.reg, i * ESZ), P(o.reg, j * ESZ)], post


# ---- error objects -------------------------------------------------------------------------------------------------
def ival(name, f, arg, need=None):
    @drv(name, 'error', need)
    def _(k):
        for neg in ((False,) if not arg else (False, True)):
            st = k.c.state()
            a = []
            if arg:
                st.assume(sym('v') + (1 << 31) if neg else sym('v'))
                st.assume(L(-1 if neg else (1 << 31) - 1) - sym('v'))
                a = [sym('v')]

            def post(st, ret, th, neg=neg):
                normal(th)
                if not isinstance(ret, L):
                    raise Bad('sem', 'an indeterminate value is returned by an error object')
                w = f(st)
                if not st.decide_eq(ret - w):
                    raise Bad('sem', 'the error object answers %r, expected %r' % (ret, w))
                for o in st.mem.values():
                    if o.kind == 'exc':
                        raise Bad('exc', 'an exception object is leaked')
            yield st, a, post


nz = lambda st: ZERO if st.decide_eq(sym('v')) else ONE
ival('ec_bool', nz, True)
ival('ec_copy_bool', nz, True)
ival('ec_value', lambda st: sym('v'), True)
ival('ec_alloc', lambda st: L(ENOMEM), True)
ival('ec_length', lambda st: L(ERANGE), True)
ival('ec_alloc_bool', lambda st: ONE, True)
ival('ec_length_bool', lambda st: ONE, True)
ival('ec_default_bool', lambda st: ZERO, False)
ival('ec_def_default_bool', lambda st: ZERO, False)
ival('ec_def_alloc_bool', lambda st: ONE, False)
for _n, _v in (('ep_default_bool', 0), ('ep_alloc_bool', 1), ('ep_length_bool', 1), ('ep_caught_bool', 1), ('ep_copy_bool', 1),
               ('ep_copy_empty_bool', 0), ('ep_value_bool', 0), ('ep_value_set_bool', 1), ('de_default_bool', 0)):
    ival(_n, lambda st, v=_v: L(v), False, '!-fno-exceptions')


def thrower(name, ty):
    @drv(name, 'error', '!-fno-exceptions')
    def _(k):
        st = k.c.state()

        def post(st, ret, th):
            if not th:
                raise Bad('exc', 'no exception is thrown for a set error')
            x = st.ghost.get('exc')
            if not x or x[0] != ty:
                raise Bad('sem', 'an exception of another type is thrown (%s)' % (x[0] if x else None))
        yield st, [], post


BA, LE, MINE = '@_ZTISt9bad_alloc', '@_ZTISt12length_error', '@_ZTI4Mine'
for _n, _t in (('ep_alloc_throw', BA), ('ep_length_throw', LE), ('ep_caught_throw', MINE), ('ep_from_throw', MINE), ('ep_value_throw', LE),
               ('ep_over_throw', LE), ('de_alloc_throw', BA), ('de_length_throw', LE)):
    thrower(_n, _t)
