"""Runs the abstract interpreter over driver functions of the archetype translation units."""
import importlib, json, os, sys, time, traceback, multiprocessing, multiprocessing.pool, subprocess, tempfile, shutil, atexit
from . import ir
from .engine import Engine, Unk
from .hooks import Hooks
from .spec import Ctx

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NSA_REPO', '/repo')
# family -> (source, specification module, {mode: flags})
FAMILIES = {
    'vec': ('vec.cpp', 'vecspec', {'n': ['-DELT=EN', '-DMOVABLE'], 't': ['-DELT=ET'], 'x': ['-DELT=EX', '-DMOVABLE', '-UNDEBUG'], '2': ['-DELT=E2', '-fno-exceptions']}),
    'sp': ('sp.cpp', 'spspec', {'n': ['-DELT=EN', '-DMOVABLE'], 't': ['-DELT=ET'], 'x': ['-DELT=EX', '-DMOVABLE', '-UNDEBUG'], '2': ['-DELT=E2', '-fno-exceptions']}),
    'fvec': ('fvec.cpp', 'fvecspec', {'n': ['-DELT=EN', '-DMOVABLE'], 't': ['-DELT=ET'], 'x': ['-DELT=EX', '-DMOVABLE', '-UNDEBUG']}),
    'flist': ('flist.cpp', 'flistspec', {'n': ['-DELT=EN', '-DMOVABLE'], 't': ['-DELT=ET'], 'x': ['-DELT=EX', '-DMOVABLE']}),
    'misc': ('misc.cpp', 'miscspec', {'n': ['-DELT=EN', '-DMOVABLE'], 't': ['-DELT=ET'], 'x': ['-DELT=EX', '-DMOVABLE'], 'y': ['-DELT=EY', '-DMOVABLE'], 'z': ['-DELT=EN', '-DMOVABLE', '-fno-exceptions'], '2': ['-DELT=E2', '-DTWOPHASE', '-fno-exceptions']}),
    'set': ('set.cpp', 'setspec', {'n': ['-DELT=EN', '-DMOVABLE'], 't': ['-DELT=EX', '-DMOVABLE'], '2': ['-DELT=E2', '-fno-exceptions']}),
    'list': ('list.cpp', 'listspec', {'n': ['-DELT=EN', '-DMOVABLE'], 't': ['-DELT=ET'], 'x': ['-DELT=EX', '-DMOVABLE'], '2': ['-DELT=E2', '-fno-exceptions']}),
}
MODE_NAME = {'n': 'non-throwing elements', 't': 'throwing elements', 'x': 'elements with non-throwing moves and throwing copies', 'y': 'elements with throwing moves and non-throwing copies', 'z': 'non-throwing elements, exceptions disabled', '2': 'two-phase elements, exceptions disabled'}
_tmp = None


def workdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='nsa.')
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def spec(fam):
    return importlib.import_module('nsa.' + FAMILIES[fam][1])


def compile_unit(fam, mode):
    src, _, modes = FAMILIES[fam]
    out = os.path.join(workdir(), '%s_%s.ll' % (fam, mode))
    err = ir.compile_ir(os.path.join(HERE, 'drv', src), ['-I' + REPO, '-DNDEBUG'] + modes[mode], out)
    return out, err


_ref = []


def reference():
    if not _ref:
        with open(os.path.join(HERE, 'layouts.json')) as f:
            _ref.append(json.load(f))
    return _ref[0]


_mods = {}


def module(fam, mode, path):
    k = (fam, mode)
    if k not in _mods:
        m = ir.parse_module(open(path).read())
        sp = spec(fam)
        mk = lambda peel=2: Engine(m, Hooks(), peel, tlimit=60)
        lay = eng = None
        why = ''
        try:
            lay, eng = sp.discover(mk)
            if lay is None:
                v = [x for x in eng.viol if not x.wide]
                why = v[0].msg if v else (str(eng.unk[0]) if eng.unk else 'no final state')
        except Exception as e:
            why = 'layout discovery: %r' % (e,)
        if lay is None and not (eng is not None and any(not x.wide for x in eng.viol)) and hasattr(sp, 'fallback'):
            # the set-up functions do not leave what they should: check the operations against the representation
            # they had when it was last found, provided that the empty object still has exactly that representation
            try:
                lay = sp.fallback(mk, reference().get(sp.LAYKEY), eng)
            except Exception as e:
                why += '; reference layout: %r' % (e,)
        _mods[k] = (m, sp, lay, why, eng)
    return _mods[k]


def drivers(fam, mode):
    sp = spec(fam)
    flags = FAMILIES[fam][2][mode]
    for name, (f, scope, need) in sp.DRV.items():
        if need and need[0] == '!':
            if need[1:] == mode or need[1:] in flags:
                continue
        elif need and '-D' + need not in flags and need != 'mode:' + mode:
            continue
        yield name, scope


def run_one(task):
    fam, mode, name, path, peel, tlimit, tier = task[:7]
    force = task[7] if len(task) > 7 else False
    t0 = time.time()
    r = {'fam': fam, 'mode': mode, 'name': name, 'viol': [], 'unk': [], 'possible': [], 'finals': 0, 'steps': 0, 'states': 0,
         'widened': 0, 'init': 0, 'funcs': [], 'loops': 0, 'peel': peel}
    try:
        m, sp, lay, why, eng0 = module(fam, mode, path)
        if lay is None:
            r['unk'].append('layout: ' + why)
            if eng0 is not None:
                r['viol'] = [v.d() for v in eng0.viol if not v.wide]
            return r
        if '@' + name not in m.funcs:
            r['unk'].append('driver missing from the translation unit')
            return r
        f = sp.DRV[name][0]
        own = sp.plan(name, mode, tier) if hasattr(sp, 'plan') else None
        plan = [(peel, tlimit, True)] if force else own or [(peel, tlimit, False)]
        funcs = set()
        proof = False
        for pl, tl, exact in plan:
            left = DEADLINE[0] - time.time()
            if left < 1:
                r['unk'].append('time budget of the check used up')
                break
            tl = min(tl, left)
            eng = Engine(m, Hooks(), pl, tlimit=tl)
            eng.exact = exact
            eng.total = own is not None
            k = sp.make(Ctx(eng), lay, mode)
            init = 0
            for st, args, post in f(k):
                init += 1
                eng.table = {}
                eng.enter(st, '@' + name, args)
                eng.run(name, [st], post)
            r['init'] = init
            r['finals'] += eng.finals
            r['steps'] += eng.steps
            r['states'] += eng.nstates
            r['widened'] += eng.widened
            r['loops'] = max(r['loops'], len(eng.loops))
            funcs |= eng.funcs
            r['viol'] += [v.d() for v in eng.viol if not v.wide]
            r['bounds'] = r.get('bounds', []) + ['%s%d iterations' % ('exact, first ' if exact else 'fixpoint after ', pl)]
            if not exact:
                proof = True
                r['possible'] = [v.d() for v in eng.viol if v.wide]
                r['unk'] = list(dict.fromkeys(map(str, eng.unk)))
            elif eng.viol and not r['viol']:
                r['possible'] += [v.d() for v in eng.viol if v.wide]
            elif eng.unk:
                r['notes'] = [str(u) for u in eng.unk][:5]
            if r['viol']:
                break
        if not proof and not r['viol']:
            r['unk'] += ['bounded: every state within the first %d iterations of each loop is explored, no fixpoint' % max(p[0] for p in plan)]
        r['funcs'] = sorted(funcs)
        if not r['finals'] and not r['unk'] and not r['viol'] and not r['possible']:
            r['unk'].append('no final state')
    except Exception as e:
        r['unk'].append('internal: %r %s' % (e, traceback.format_exc()[-600:]))
    r['wall'] = round(time.time() - t0, 2)
    return r


def proved(r):
    return not r['viol'] and not r['unk'] and not r['possible'] and r['finals'] > 0


DEADLINE = [time.time() + 86400]


def run_tasks(want, peel=2, tlimit=40, retry=(), tier='quick', budget=86400):
    """want: list of (fam, mode, driver). Returns results and compile errors."""
    DEADLINE[0] = time.time() + budget
    units = sorted({(f, m) for f, m, _ in want})
    errs = {}
    paths = {}
    workdir()
    with multiprocessing.pool.ThreadPool(8) as tp:
        for (u, (out, err)) in zip(units, tp.map(lambda u: compile_unit(*u), units)):
            if err:
                errs[u] = err
            else:
                paths[u] = out
    tasks = [(f, m, d, paths[(f, m)], peel, tlimit, tier) for f, m, d in want if (f, m) in paths]
    res = []
    if tasks:
        # parse once, before forking
        for u in paths:
            module(u[0], u[1], paths[u])
        heavy = lambda t: -getattr(spec(t[0]), 'COST', {}).get(t[2], 0)
        tasks.sort(key=heavy)
        with multiprocessing.Pool(min(8, len(tasks))) as p:
            res = list(p.imap_unordered(run_one, tasks, 1))
            for pl, tl, exact in retry:
                # exact: look for an unwidened cause of what only widened states showed, where normally there is none
                again = [(f, m, d, paths[(f, m)], pl, tl, tier, exact) for f, m, d, ps in
                         [(r['fam'], r['mode'], r['name'], r['possible'] or [u for u in r['unk'] if u.startswith("('resource")])
                          for r in res if not proved(r) and not r['viol']]
                         if (ps and d not in getattr(spec(f), 'OPEN', ()) if exact else
                             not (hasattr(spec(f), 'plan') and spec(f).plan(d, m, tier)))]
                if not again:
                    continue
                new = {(r['fam'], r['mode'], r['name']): r for r in p.imap_unordered(run_one, again, 1)}
                out = []
                for r in res:
                    n = new.get((r['fam'], r['mode'], r['name']))
                    if n is not None and (n['viol'] or proved(n)):
                        out.append(n)
                    else:
                        out.append(r)
                res = out
    return res, errs
