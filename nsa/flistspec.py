"""the throwing face of list: the same meaning, failures become exceptions"""
import os, re
from . import listspec
from .listspec import *
from .listspec import discover, fallback, LAYKEY, make, plan, A_, B_

SRC = os.path.join(os.path.dirname(__file__), 'drv', 'flist.cpp')
NAMES = set(re.findall(r'^D\w* (\w+)\(', open(SRC).read(), re.M))
DRV = {n: v for n, v in listspec.DRV.items() if n in NAMES}


def drv(name, scope, need=None):
    def deco(f):
        DRV[name] = (f, scope, need)
        return f
    return deco


@drv('l_ctor_copy', 'copy')
def _(k):
    for st, o in k.variants('o', 'T', 'b'):
        e = k.c.err(st)
        l = type('N', (), {})()
        l.p = k.c.param(st, 'l', k.c.gsize('sz_C'))

        def post(st, ret, th, l=l, o=o, e=e):
            normal(th)
            bad = check_err(st, e)
            if not bad:
                k.expect(st, l, [o.word()], 'copy', B_, [(o, o.word(), 'copy')])
            else:
                w2, seen2, aid2 = read(st, k.lay, o.p, 'the source')
                if not word_eq(st, w2, o.word()):
                    raise Bad('copy', 'copying modifies the source')
                leaks(st, seen2)
        yield st, [l.p, e, o.p], post


@drv('l_copy_assign', 'copy')
def _(k):
    for st, l, o in k.pairs():
        e = k.c.err(st)

        def post(st, ret, th, l=l, o=o, e=e):
            normal(th)
            bad = check_err(st, e)
            if bad:
                k.expect(st, l, [l.word()], 'fail', A_, [(o, o.word(), 'copy')])
            else:
                k.expect(st, l, [o.word()], 'copy', None, [(o, o.word(), 'copy')])
        yield st, [l.p, e, o.p], post


@drv('l_copy_assign_self', 'copy')
def _(k):
    for st, l in k.variants():
        e = k.c.err(st)

        def post(st, ret, th, l=l, e=e):
            normal(th)
            check_err(st, e)
            k.expect(st, l, [l.word()], 'copy', A_)
        yield st, [l.p, e], post
