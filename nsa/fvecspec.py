"""the throwing face of vector: the same meaning, failures become exceptions"""
import os, re
from . import vecspec
from .vecspec import *
from .vecspec import discover, fallback, LAYKEY, make

SRC = os.path.join(os.path.dirname(__file__), 'drv', 'fvec.cpp')
NAMES = set(re.findall(r'^D\w* (\w+)\(', open(SRC).read(), re.M))
DRV = {n: v for n, v in vecspec.DRV.items() if n in NAMES}


def drv(name, scope, need=None):
    def deco(f):
        DRV[name] = (f, scope, need)
        return f
    return deco


drv('v_ctor_move_nx', 'move')(vecspec.DRV['v_ctor_move'][0])
drv('v_move_assign_nx', 'move')(vecspec.DRV['v_move_assign'][0])


def ctor_copy(name):
    @drv(name, 'copy')
    def _(k):
        for st, o in k.variants('o', 'T', 'b'):
            e = k.c.err(st)
            p = k.c.param(st, 'v', k.c.gsize('sz_V'))

            def post(st, ret, th, o=o, p=p, e=e):
                normal(th)
                bad = check_err(st, e, toobig(st, o.n))
                n2, cap2, w2, reg2, aid2 = read(st, k.lay, o.p, 'the source')
                if not word_eq(st, w2, o.word()):
                    raise Bad('copy', 'copying modifies the source')
                if bad:
                    no_leak(st, {reg2})
                    return
                v = type('V', (), dict(p=p, name='v'))
                n, cap, w, reg, aid = k.expect(st, v, [o.word()], 'copy', sym('b'), [o])
                if reg is not None and reg == reg2:
                    raise Bad('copy', 'the copy shares storage with the source')
            yield st, [p, e, o.p], post


ctor_copy('v_ctor_copy')
ctor_copy('v_ctor_copy_nx')


def copy_assign(name):
    @drv(name, 'copy')
    def _(k):
        for st, v, o in vecspec.two(k):
            e = k.c.err(st)

            def post(st, ret, th, v=v, o=o, e=e):
                normal(th)
                bad = check_err(st, e, toobig(st, o.n))
                n2, cap2, w2, reg2, aid2 = read(st, k.lay, o.p, 'the source')
                if not word_eq(st, w2, o.word()):
                    raise Bad('copy', 'copying modifies the source')
                if bad:
                    k.expect(st, v, [v.word()], 'fail', sym('a'), [o])
                else:
                    n, cap, w, reg, aid = k.expect(st, v, [o.word()], 'copy', None, [o])
                    if reg is not None and reg == reg2:
                        raise Bad('copy', 'the copy shares storage with the source')
            yield st, [v.p, e, o.p], post


copy_assign('v_copy_assign')
copy_assign('v_copy_assign_nx')


@drv('v_copy_assign_self', 'copy')
def _(k):
    for st, v in k.variants():
        e = k.c.err(st)

        def post(st, ret, th, v=v, e=e):
            normal(th)
            check_err(st, e, toobig(st, v.n))
            k.expect(st, v, [v.word()], 'copy', sym('a'))
        yield st, [v.p, e], post
