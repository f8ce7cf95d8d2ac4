"""Which driver functions and which kinds of violation decide which property."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ['clang 18 front end and mem2reg', 'nsa/engine.py transfer functions, widening and inclusion test',
           'nsa/hooks.py models of allocator, element and runtime calls', 'specifications in nsa/*spec.py']
ASSUME = ['user types keep the documented requirements (destructors and moves do not throw, allocators return storage that is '
          'aligned, disjoint and of the requested size, or report an error)',
          'the analysed configuration is x86-64, gnu++11, NDEBUG']
RETRY_QUICK = [(4, 30, True), (9, 40, True)]
RETRY_THOROUGH = [(4, 120, False), (6, 120, True), (12, 120, True)]
ALL = lambda d, scope, mode: True


def sc(*names):
    return lambda d, scope, mode: scope in names


def dn(*names):
    return lambda d, scope, mode: d in names


def md(*modes):
    return lambda d, scope, mode: mode in modes


def sub(*parts):
    return lambda d, scope, mode: any(p in d for p in parts)


def either(*ps):
    return lambda d, scope, mode: any(p(d, scope, mode) for p in ps)


def known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings')):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


RULE = ('abstract interpretation of the LLVM IR of each public operation, instantiated with opaque archetype types, from every '
        'valid pre-state; obligations are the operations x element models; discharged = fixpoint reached and no state violates ')
PROPS = {}


def P(pid, what, sel, floor=None, **kw):
    PROPS[pid] = dict(rule=RULE + what, sel=sel, floor=floor, **kw)


C3 = ('vec', 'list', 'sp')
F2 = ('fvec', 'flist')


def fams(fs, pick, cats):
    return [(f, pick, cats) for f in fs]


def one(cats):
    return [('misc', sc('oneobj'), cats)]


TI = sc('insert', 'copy')
P('C01', 'the error-reporting rule', fams(C3, ALL, ['err', 'fail', 'exc']) + [('set', TI, ['err', 'fail', 'exc', 'sem', 'copy'])] + one(['err', 'fail', 'exc']), 300)
P('C02', 'the block ownership rule', fams(C3 + F2 + ('set',), ALL, ['block', 'rep']), 300)
P('C03', 'the element lifetime rule', fams(C3 + F2 + ('set',), ALL, ['life', 'rep']) + one(['life']), 300)
P('C04', 'the exception containment rule', fams(C3, md('t', 'x', 'y'), ['exc', 'err', 'fail', 'life', 'block', 'rep'])
  + [('set', lambda d, s, m: m == 't' and s in ('insert', 'copy'), ['exc', 'err', 'fail', 'life', 'block', 'rep'])]
  + [('misc', lambda d, s, m: s == 'oneobj' and m in 'txy', ['exc', 'err', 'fail', 'life'])], 100)
P('C05', 'the sequence specification of the operation', [('vec', ALL, ['sem', 'rep', 'err', 'life'])], 100)
P('C06', 'the failure guarantee of the operation', [('vec', ALL, ['fail', 'rep', 'life', 'block', 'exc', 'err'])], 100)
P('C07', 'the ring invariant', [('list', ALL, ['rep', 'sem'])], 150)
P('C08', 'the sequence specification of the operation', [('list', ALL, ['sem', 'rep', 'err', 'fail', 'life'])], 150)
P('C09', 'the splice specification', [('list', sc('splice'), ['sem', 'rep', 'life', 'block', 'move']),
                                     ('flist', sc('splice'), ['sem', 'rep', 'life', 'block', 'move'])], 20)
P('C10', 'the ordered set specification', [('set', ALL, ['sem', 'rep', 'err', 'fail', 'life', 'block', 'copy', 'move', 'exc'])], 100)
P('C11', 'the red-black rules', [('set', ALL, ['bal', 'rep'])], 100)
P('C12', 'the tree links, the counters and the traversal specification', [('set', ALL, ['rep', 'sem', 'life'])], 100)
P('C13', 'the reference counting specification', [('sp', ALL, ['count', 'rep', 'life', 'block', 'sem', 'err', 'fail', 'move'])], 100)
P('C14', 'the transfer specification', fams(C3 + F2 + ('set',), either(sc('move', 'swap'), sub('move', 'swap')),
                                             ['move', 'sem', 'rep', 'life', 'block', 'count', 'err']), 20)
P('C15', 'the copy specification', fams(('vec', 'list', 'set') + F2, sc('copy'), ['copy', 'sem', 'rep', 'life', 'block', 'err', 'fail', 'exc', 'move']), 10)
P('C16', 'the throwing interface specification', fams(F2, ALL, ['err', 'exc', 'fail', 'sem', 'copy', 'block', 'life', 'rep', 'move']), 100)
P('C17', 'the error object specification', [('misc', sc('error'), ['sem', 'exc', 'err', 'life', 'block', 'fail', 'rep', 'count'])], 60)
P('C18', 'the algorithm specification', [('misc', sc('alg'), ['sem', 'err', 'exc', 'life', 'fail', 'move', 'copy', 'block'])], 20)
P('C19', 'the default allocator specification', [('misc', sc('alloc'), ['sem', 'err', 'exc', 'life', 'block', 'fail']),
                                               ('sp', dn('s_make_default_alloc'), ['block', 'err', 'fail', 'sem', 'life'])], 15)
P('C21', 'the single-object construction specification', one(['sem', 'err', 'exc', 'life', 'fail', 'copy', 'move', 'block'])
  + fams(('vec', 'list', 'set'), lambda d, s, m: m == '2' and s in ('copy', 'modify', 'assign', 'insert'), ['err', 'life', 'fail', 'exc', 'sem'])
  + [('sp', lambda d, s, m: m == '2' and s == 'make', ['err', 'life', 'fail', 'exc', 'sem'])], 50)
P('C22', 'the accessor specification', fams(('vec', 'list', 'set') + F2, sc('access', 'iter'), ['sem', 'rep', 'life', 'err']), 80)
P('C23', 'the specification of merging and sorting', fams(('list', 'flist'), sc('merge', 'sort'), ['sem', 'rep', 'life', 'block', 'move', 'copy', 'exc', 'err']), 20)
from . import witness
PROPS['C20'] = dict(rule='type-level witnesses: the archetype drivers and a unit of static assertions about the public types are type-checked by two '
                    'compilers in every configuration; discharged = accepted; a rejected witness is reported with its place', sel=None, extra=[witness.check])
