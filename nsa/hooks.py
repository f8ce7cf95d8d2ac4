"""Meaning of the external operations: archetype element/allocator/comparator calls and the C++ runtime."""
from .lin import L, ZERO, ONE, lin, sym
from .engine import P, NULL, Agg, Obj, Bad, Unk, Dead, Fork, UNINIT, TOP, isconst, W64
from . import ir


def fail(st, kind):
    st.ghost['fail'] = kind if not st.ghost.get('fail') else st.ghost['fail']


class Hooks:
    bases = {'@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt12length_error': '@_ZTISt11logic_error',
             '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt12out_of_range': '@_ZTISt11logic_error',
             '@_ZTISt12system_error': '@_ZTISt13runtime_error', '@_ZTISt13runtime_error': '@_ZTISt9exception',
             '@_ZTISt16bad_array_length': '@_ZTISt9bad_alloc', '@_ZTISt20bad_array_new_length': '@_ZTISt9bad_alloc'}

    def __init__(s, families=()):
        s.t = {}
        for n in dir(s):
            if n.startswith('h_'):
                s.t['@' + n[2:]] = getattr(s, n)
        s.spec = None
        s.contracts = {}

    def get(s, name):
        h = s.t.get(name)
        if h is not None:
            return h
        if name.startswith('@llvm.'):
            return s.intrinsic(name)
        if name.startswith('@_ZSt18make_exception_ptrI'):
            return lambda e, st, a, i, n=name: s.make_eptr(e, st, a, n)
        if name.startswith('@_ZNSt') and name[6:].split('C')[0].split('D')[0] in ('9bad_alloc', '12length_error', '9exception', '11logic_error'):
            return lambda e, st, a, i: None
        return None

    realise = None

    def contract(s, eng, st, name, args, i):
        c = s.contracts.get(name)
        if c is None:
            return None
        return c(eng, st, args, i)

    def fold(s, eng, st, heavy):
        for f in getattr(s, 'folders', ()):
            f(eng, st)
        h = getattr(s, 'heavy', None)
        if h:
            h(eng, st, heavy)

    def alias(s, st, reg):
        return ''

    def extra_candidates(s, st):
        return []

    # ---- intrinsics --------------------------------------------------------------------------------------------
    def intrinsic(s, name):
        n = name[6:]
        if n.startswith(('dbg.', 'lifetime.', 'assume', 'experimental.noalias', 'donothing', 'invariant.')):
            return lambda e, st, a, i: None
        if n.startswith('eh.typeid.for'):
            return s.typeid
        if n.startswith(('memcpy', 'memmove')):
            return s.memcpy
        if n.startswith('memset'):
            return s.memset
        if n.startswith('trap'):
            def trap(e, st, a, i):
                raise Bad('ub', 'trap')
            return trap
        if n.startswith('umul.with.overflow'):
            return s.umulo
        if n.startswith('uadd.with.overflow'):
            return s.uaddo
        if n.startswith('expect'):
            return lambda e, st, a, i: a[0]
        if n.startswith(('umax', 'umin', 'smax', 'smin')):
            def mm(e, st, a, i):
                x, y = a[0], a[1]
                if not isinstance(x, L) or not isinstance(y, L):
                    raise Unk('min/max')
                g = st.decide(x - y)
                return x if g == n[1:4].startswith('max') else y
            return mm
        return None

    def typeid(s, e, st, a, i):
        p = a[0]
        if isinstance(p, P) and p.reg:
            return e.typeid(p.reg[1])
        return ONE

    def umulo(s, e, st, a, i):
        x, y = a[0], a[1]
        if y.const:
            r = x * y.c
        elif x.const:
            r = y * x.c
        else:
            raise Unk('non-linear')
        if st.decide(L(W64 - 1) - r):
            return Agg([r, ZERO])
        return Agg([TOP, ONE])

    def uaddo(s, e, st, a, i):
        r = a[0] + a[1]
        if st.decide(L(W64 - 1) - r):
            return Agg([r, ZERO])
        return Agg([r - W64, ONE])

    def memcpy(s, e, st, a, i):
        d, src, n = st.ptr(a[0]), st.ptr(a[1]), a[2]
        if not (isinstance(n, L) and n.const):
            raise Unk('memcpy of symbolic size')
        n = n.c
        if n == 0:
            return None
        kd, ks = st.key(d.reg), st.key(src.reg)
        od, os_ = st.mem[kd], st.mem[ks]
        st.bounds(od, st.norm(d.off), n)
        st.bounds(os_, st.norm(src.off), n)
        if od.segs is not None or os_.segs is not None:
            raise Unk('memcpy of elements')
        if not (d.off.const and src.off.const):
            raise Unk('memcpy offset')
        do, so = d.off.c, src.off.c
        for x in os_.elems:
            if x < so + n and so < x + e.ESZ:
                raise Bad('life', 'an element is copied byte by byte')
        cells = [(k - so, z, v) for k, (z, v) in os_.cells.items() if so <= k and k + z <= so + n]
        od = od.copy()
        for k in list(od.cells):
            if k < do + n and do < k + od.cells[k][0]:
                del od.cells[k]
        if os_.zero and not od.zero:
            raise Unk('memcpy of zero filled memory')
        for k, z, v in cells:
            od.cells[do + k] = (z, v)
        st.mem[kd] = od
        return None

    def memset(s, e, st, a, i):
        d, v, n = st.ptr(a[0]), a[1], a[2]
        if not (isinstance(n, L) and n.const and isinstance(v, L) and v == ZERO):
            raise Unk('memset')
        k = st.key(d.reg)
        o = st.mem[k]
        st.bounds(o, st.norm(d.off), n.c)
        if o.segs is not None or not d.off.const:
            raise Unk('memset')
        o = o.copy()
        for c in list(o.cells):
            if c < d.off.c + n.c and d.off.c < c + o.cells[c][0]:
                del o.cells[c]
        if d.off.c == 0 and isinstance(o.size, int) and n.c == o.size:
            o.zero = True
        else:
            if d.off.c % 8 or n.c % 8:
                raise Unk('memset')
            for x in range(d.off.c, d.off.c + n.c, 8):
                o.cells[x] = (8, ZERO)
        st.mem[k] = o
        return None

    # ---- runtime -----------------------------------------------------------------------------------------------
    def h_abort(s, e, st, a, i):
        raise Bad('exc', 'the program is terminated')
    h__ZSt9terminatev = h_abort

    def h___assert_fail(s, e, st, a, i):
        raise Bad('ub', 'an assertion of the library fails')

    def h___cxa_begin_catch(s, e, st, a, i):
        st.ghost['caught'] = (st.ghost.get('exc'),) + st.ghost.get('caught', ())
        return a[0]

    def h___cxa_end_catch(s, e, st, a, i):
        st.ghost['caught'] = st.ghost.get('caught', ())[1:]
        return None

    def h___cxa_rethrow(s, e, st, a, i):
        c = st.ghost.get('caught', ())
        if not c:
            raise Bad('exc', 'rethrow without a current exception')
        return ('throw', c[0])

    def h___cxa_allocate_exception(s, e, st, a, i):
        o = Obj('exc', a[0].c if isinstance(a[0], L) and a[0].const else 64, 'exception')
        return P(st.new(o))

    def h___cxa_free_exception(s, e, st, a, i):
        p = st.ptr(a[0])
        st.mem.pop(p.reg, None)
        return None

    def h___cxa_throw(s, e, st, a, i):
        ti = a[1]
        name = ti.reg[1] if isinstance(ti, P) and ti.reg else None
        p = a[0]
        if isinstance(p, P) and p.reg in st.mem:
            del st.mem[p.reg]
        return ('throw', (name, None))

    def h__ZSt17current_exceptionv(s, e, st, a, i):
        c = st.ghost.get('caught', ())
        if not c:
            st.store(a[0], 8, NULL)
        else:
            st.store(a[0], 8, P(('exc', repr(c[0]))))
        return None

    def make_eptr(s, e, st, a, name):
        t = name[len('@_ZSt18make_exception_ptrI'):]
        k = t.find('ENSt15__exception_ptr')
        st.store(a[0], 8, P(('exc', repr(('@_ZTI' + t[:k], None)))))
        return None

    def h__ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(s, e, st, a, i):
        return None

    def h__ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(s, e, st, a, i):
        return None

    def h__ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE(s, e, st, a, i):
        v = st.load(a[0], 8, True)
        if not (isinstance(v, P) and v.reg and v.reg[0] == 'exc'):
            if isinstance(v, P) and v.reg is None:
                raise Bad('exc', 'rethrow of an empty exception pointer')
            raise Unk('exception pointer')
        return ('throw', eval(v.reg[1]))

    # ---- errors ------------------------------------------------------------------------------------------------
    def h___v_err_set(s, e, st, a, i):
        if not isinstance(a[1], L):
            raise Bad('err', 'error of unknown kind')
        fail(st, 'self%d' % a[1].c)
        st.store(a[0], 8, a[1])
        return None

    # ---- allocator ---------------------------------------------------------------------------------------------
    def h___v_caught(s, e, st, a, i):
        f = st.ghost.get('fail')
        want = {1: 'alloc', 2: 'self2', 3: 'elem'}[a[1].c]
        if f is None:
            if a[1].c != 2:
                raise Bad('exc', 'an exception is thrown although nothing failed')
            fail(st, 'self2')     # whether the request was too long is checked by the specification
        elif f != want:
            raise Bad('exc', 'a failure (%s) is reported by an exception of another type' % f)
        st.store(a[0], 8, a[1])
        return None

    def h___v_alloc2(s, e, st, a, i):
        return s.h___v_alloc(e, st, [None] + list(a), i)

    def h___v_alloc(s, e, st, a, i):
        err, aid, n, size = a
        if not isinstance(aid, L):
            raise Bad('block', 'allocation through an allocator in an indeterminate state')
        if not isinstance(n, L):
            raise Unk('allocation size')
        sz = size.c
        n = st.norm(n)
        lim = st.ghost.get('_noalloc')
        if st.choose([True, False]):
            if not st.decide(n):
                raise Dead()
            st.assume(L((1 << 63) - 1) - n * sz)
            return P(s.block(st, e, aid, n, sz))
        fail(st, 'alloc')
        if err is not None:
            st.store(err, 8, ONE)
        return NULL

    def block(s, st, e, aid, n, sz, name=None):
        o = Obj('heap', n * sz if not n.const else n.c * sz, '')
        o.alloc = (aid, n, sz)
        e.asizes.add(sz)
        if sz == e.ESZ:
            o.segs = ((ZERO, n, None),)
            o.esz = sz
        return st.new(o, name)

    def h___v_dealloc(s, e, st, a, i):
        aid, p, n, size = a
        p = st.ptr(p)
        if not isinstance(n, L) or not isinstance(aid, L):
            raise Bad('block', 'deallocation with indeterminate arguments')
        if p.reg is None:
            return None      # the library releases "no block" freely, its allocators accept that
        try:
            k = st.key(p.reg)
        except Bad:
            raise Bad('block', 'a block is returned to the allocator although it is not allocated any more')
        o = st.mem[k]
        if o.kind != 'heap' or o.alloc is None:
            raise Bad('block', 'memory that was not obtained from the allocator is returned to it')
        if not st.decide_eq(p.off):
            raise Bad('block', 'the returned address is not the address that was obtained')
        if size.c != o.alloc[2]:
            raise Bad('block', 'block returned with another element size')
        if not st.decide_eq(o.alloc[1] - n):
            raise Bad('block', 'block returned with another count than it was requested with')
        if not st.decide_eq(o.alloc[0] - aid):
            raise Bad('block', 'block returned through an allocator other than the one it was obtained from')
        o = st.mem[k]
        if o.segs is not None:
            for lo, hi, c in st.tidy(o.segs):
                if c is not None and st.decide(hi - lo - 1):
                    raise Bad('life', 'storage is released while elements in it are still alive')
        elif o.elems:
            raise Bad('life', 'storage is released while an element in it is still alive')
        k = st.key(k)
        if len(e.released) < 16:
            e.released.append(o)
        del st.mem[k]
        return None

    # ---- the heap of the implementation ------------------------------------------------------------------------
    def h__ZnwmRKSt9nothrow_t(s, e, st, a, i):
        n = a[0]
        if not isinstance(n, L):
            raise Unk('allocation size')
        if st.choose([True, False]):
            st.assume(L((1 << 63) - 1) - n)
            o = Obj('heap', n.c if n.const else n, '')
            o.alloc = (L(-1), n, 1)
            return P(st.new(o))
        fail(st, 'alloc')
        st.ghost['refused'] = 'alloc'
        return NULL

    def h__ZdlPv(s, e, st, a, i):
        p = st.ptr(a[0])
        if p.reg is None:
            return None
        try:
            k = st.key(p.reg)
        except Bad:
            raise Bad('block', 'memory is released twice')
        o = st.mem[k]
        if o.kind != 'heap' or o.alloc is None or o.alloc[0] != L(-1) or not st.decide_eq(p.off):
            raise Bad('block', 'memory is released that was not obtained from the global heap')
        if o.elems or o.segs is not None and any(c is not None and st.decide(hi - lo - 1) for lo, hi, c in o.segs):
            raise Bad('life', 'storage is released while an element in it is still alive')
        del st.mem[k]
        return None

    def h__ZdlPvm(s, e, st, a, i):
        return s.h__ZdlPv(e, st, a, i)

    # ---- elements ----------------------------------------------------------------------------------------------
    def src(s, st, p, what):
        l = st.eloc(p)
        v = st.eget(l)
        if v is None:
            raise Bad('life', what + ' an element that is not alive')
        return l, v

    def raw(s, st, p):
        l = st.eloc(p)
        if st.eget(l) is not None:
            raise Bad('life', 'an element is constructed on top of a living one')
        return l

    def mk(s, st, p, v):
        l = s.raw(st, p)
        st.eset(l, v)

    def may(s, st, kind):
        """True when the operation succeeds"""
        if st.choose([True, False]):
            return True
        fail(st, kind)
        return False

    EXC = ('elem', None)

    def h___v_ctor_default(s, e, st, a, i):
        s.mk(st, a[0], ('$default', ZERO))

    def h___v_ctor_default_t(s, e, st, a, i):
        s.raw(st, a[0])
        if not s.may(st, 'elem'):
            return ('throw', (None, 'elem'))
        s.mk(st, a[0], ('$default', ZERO))

    def h___v_ctor_copy(s, e, st, a, i):
        _, v = s.src(st, a[1], 'copy of')
        s.mk(st, a[0], v)

    def h___v_ctor_copy_t(s, e, st, a, i):
        _, v = s.src(st, a[1], 'copy of')
        s.raw(st, a[0])
        if not s.may(st, 'elem'):
            return ('throw', (None, 'elem'))
        s.mk(st, a[0], v)

    def h___v_ctor_move(s, e, st, a, i):
        l, v = s.src(st, a[1], 'move from')
        st.eset(l, ('!moved', ZERO))
        s.mk(st, a[0], v)

    def h___v_ctor_move_t(s, e, st, a, i):
        l, v = s.src(st, a[1], 'move from')
        s.raw(st, a[0])
        if not s.may(st, 'elem'):
            st.eset(l, ('!unspecified', ZERO))
            return ('throw', (None, 'elem'))
        return s.h___v_ctor_move(e, st, a, i)

    def h___v_assign_move(s, e, st, a, i):
        l, _ = s.src(st, a[0], 'assignment to')
        r, v = s.src(st, a[1], 'assignment from')
        st.eset(r, ('!moved', ZERO))
        st.eset(l, v)

    def h___v_assign_move_t(s, e, st, a, i):
        l, _ = s.src(st, a[0], 'assignment to')
        r, v = s.src(st, a[1], 'assignment from')
        if not s.may(st, 'elem'):
            st.eset(l, ('!unspecified', ZERO))
            st.eset(r, ('!unspecified', ZERO))
            return ('throw', (None, 'elem'))
        return s.h___v_assign_move(e, st, a, i)

    def h___v_ctor_arg(s, e, st, a, i):
        if not isinstance(a[1], L):
            raise Bad('sem', 'an element is constructed from an indeterminate argument')
        s.mk(st, a[0], ('$arg%r' % (a[1],), ZERO))

    def h___v_ctor_arg_t(s, e, st, a, i):
        s.raw(st, a[0])
        if not s.may(st, 'elem'):
            return ('throw', (None, 'elem'))
        return s.h___v_ctor_arg(e, st, a, i)

    def h___v_dtor(s, e, st, a, i):
        l = st.eloc(a[0])
        if st.eget(l) is None:
            raise Bad('life', 'destruction of an element that is not alive')
        st.eset(l, None)
        cb = st.ghost.get('_ondtor')
        if cb:
            return cb(s, e, st, a, i)

    def h___v_assign_copy(s, e, st, a, i):
        l, _ = s.src(st, a[0], 'assignment to')
        _, v = s.src(st, a[1], 'assignment from')
        st.eset(l, s.filtered(st, v))

    def h___v_assign_copy_t(s, e, st, a, i):
        l, _ = s.src(st, a[0], 'assignment to')
        _, v = s.src(st, a[1], 'assignment from')
        if not s.may(st, 'elem'):
            st.eset(l, ('!unspecified', ZERO))
            return ('throw', (None, 'elem'))
        st.eset(l, s.filtered(st, v))

    def h___v_init_copy(s, e, st, a, i):
        l, v0 = s.src(st, a[0], 'initialisation of')
        _, v = s.src(st, a[1], 'initialisation from')
        if v0[0] != '$default':
            raise Bad('life', 'second phase of initialisation is applied to an element that is already initialised')
        if not s.may(st, 'elem'):
            st.eset(l, ('!unspecified', ZERO))
            return ZERO
        st.eset(l, v)
        return ONE

    def h___v_init_arg(s, e, st, a, i):
        l, v0 = s.src(st, a[0], 'initialisation of')
        if v0[0] != '$default':
            raise Bad('life', 'second phase of initialisation is applied to an element that is already initialised')
        if not s.may(st, 'elem'):
            st.eset(l, ('!unspecified', ZERO))
            return ZERO
        st.eset(l, ('$arg%r' % (a[1],), ZERO))
        return ONE

    def h___v_pred(s, e, st, a, i):
        _, x = s.src(st, a[0], 'test of')
        f = st.ghost.get('_filter')
        r = st.choose([True, False])
        if f:
            if x[0] != f or not st.decide_eq(x[1] - st.ghost['fdone']):
                raise Bad('sem', 'the predicate is applied to an element out of turn')
            st.ghost['fdone'] = st.ghost['fdone'] + 1
            st.ghost['fnow'] = int(r)
            if r:
                st.ghost['fsel'] = st.ghost['fsel'] + 1
        return L(int(r))

    def filtered(s, st, v):
        f = st.ghost.get('_filter')
        if f and v[0] == f:
            if st.ghost['fnow'] and st.decide_eq(v[1] - st.ghost['fdone'] + 1):
                return ('F', st.ghost['fsel'] - 1)
            return ('!unselected', ZERO)
        return v

    def h___v_less(s, e, st, a, i):
        _, x = s.src(st, a[0], 'comparison of')
        _, y = s.src(st, a[1], 'comparison of')
        lx = st.ghost.get('_lex')
        if lx:
            S, T, d, lt = lx
            fl = x[0] == T and y[0] == S
            if fl:
                x, y = y, x
            if x[0] == S and y[0] == T and st.decide_eq(x[1] - y[1]):
                if st.decide(d - x[1] - 1):
                    return ZERO
                if st.decide_eq(d - x[1]):
                    return L(int(lt != fl))
        return L(int(st.choose([True, False])))

    def h___v_nondet(s, e, st, a, i):
        return L(int(st.choose([True, False])))

    # ---- comparison --------------------------------------------------------------------------------------------
    def h___v_eq(s, e, st, a, i):
        _, x = s.src(st, a[0], 'comparison of')
        _, y = s.src(st, a[1], 'comparison of')
        return L(int(s.equal(st, x, y)))

    def equal(s, st, x, y):
        if x[0] == y[0] and (isconst(x[0]) or st.is_eq(x[1] - y[1])):
            return True
        sp = st.ghost.get('_eq')
        if sp:
            S, T, d = sp
            if x[0] == T and y[0] == S:
                x, y = y, x
            if x[0] == S and y[0] == T and st.decide_eq(x[1] - y[1]):
                if st.decide(d - x[1] - 1):
                    return True
                if st.decide_eq(d - x[1]):
                    return False
        return st.choose([True, False])
