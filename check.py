#!/usr/bin/env python3
"""Decides one property of /repo by static analysis.  usage: check.py <property> [quick|thorough]"""
import json, os, sys, time
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from nsa import runner, props


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    prop = props.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    viols, cov, errors, notes = [], {}, [], []
    obligations = discharged = 0
    level = prop.get('level', 'proof')
    if prop.get('sel'):
        want = []
        cats = {}
        for fam, pick, cs in prop['sel']:
            for mode in runner.FAMILIES[fam][2]:
                for d, scope in runner.drivers(fam, mode):
                    if pick(d, scope, mode):
                        if (fam, mode, d) not in cats:
                            want.append((fam, mode, d))
                            cats[(fam, mode, d)] = set()
                        cats[(fam, mode, d)] |= set(cs)
        th = tier == 'thorough'
        retry = props.RETRY_THOROUGH if th else props.RETRY_QUICK
        res, errs = runner.run_tasks(want, peel=2, tlimit=120 if th else 30, retry=retry, tier=tier, budget=7200 if th else 700)
        for (fam, mode), e in errs.items():
            errors.append('translation unit %s/%s does not compile: %s' % (fam, mode, e.strip()[:1500]))
        funcs, repo_funcs = set(), set()
        steps = states = widened = loops = finals = 0
        unproved = []
        per = []
        for r in sorted(res, key=lambda r: (r['fam'], r['mode'], r['name'])):
            obligations += 1
            cs = cats[(r['fam'], r['mode'], r['name'])] | {'ub'}
            mine = [v for v in r['viol'] if v['category'] in cs]
            poss = [v for v in r['possible'] if v['category'] in cs]
            for v in mine:
                v = dict(v)
                v['driver'] = '%s/%s/%s' % (r['fam'], r['mode'], r['name'])
                viols.append(v)
            other = [v for v in r['viol'] if v['category'] not in cs]
            if not mine and not poss and not r['unk'] and (r['finals'] or other):
                discharged += 1
            elif not mine:
                unproved.append('%s/%s/%s: %s' % (r['fam'], r['mode'], r['name'],
                                                  (r['unk'] or ['widened states only: ' + poss[0]['message']])[0][:200]))
            funcs |= set(r['funcs'])
            steps += r['steps']
            states += r['states']
            widened += r['widened']
            loops += r['loops']
            finals += r['finals']
            per.append('%s/%s/%s' % (r['fam'], r['mode'], r['name']))
            for u in r['unk']:
                if u.startswith('internal') or u.startswith('layout') or u.startswith('driver missing'):
                    notes.append('%s/%s/%s: %s' % (r['fam'], r['mode'], r['name'], u[:300]))
        cov.update(obligations=obligations, discharged=discharged, functions_analysed=len(funcs), abstract_steps=steps,
                   abstract_states=states, loops=loops, widenings=widened, final_states_checked=finals,
                   categories=sorted({c for x in cats.values() for c in x} | {'ub'}), drivers=per[:400])
        if unproved:
            cov['not_proved_for_all_states'] = unproved
        if want and not discharged and not viols:
            errors.append('nothing could be analysed: ' + '; '.join((unproved + notes)[:3]))
        floor = prop.get('floor')
        if not errors and floor and len(want) < floor:
            errors.append('only %d of at least %d driver functions found' % (len(want), floor))
    if prop.get('extra'):
        for fn in prop['extra']:
            o, d, vs, es, c = fn(tier)
            obligations += o
            discharged += d
            viols += vs
            errors += es
            cov.update(c)
        cov.update(obligations=obligations, discharged=discharged)
    cov['rule'] = prop['rule']
    cov['checker_cmd'] = 'python3 check.py %s %s' % (pid, tier)
    cov['trusted_base'] = props.TRUSTED
    if notes:
        cov['notes'] = notes[:20]
    if level == 'other':
        cov['explanation'] = prop['rule']
    known = props.known(pid)
    fresh = []
    for v in viols:
        k = [x for x in known if x in json.dumps(v)]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]))
        else:
            fresh.append(v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': props.ASSUME,
          'wall_s': round(time.time() - t0, 2)}
    if fresh:
        rp = os.path.join(HERE, 'evidence', pid + '.replay.txt')
        uniq = {}
        for v in fresh:
            uniq.setdefault((v['message'], v['where'], v['driver']), v)
        with open(rp, 'w') as f:
            f.write('%s violated; reproduce with: python3 %s/check.py %s %s\n\n' % (pid, HERE, pid, tier))
            for v in uniq.values():
                f.write(json.dumps(v, indent=1) + '\n')
        for v in list(uniq.values())[:8]:
            print('  [%s] %s at %s (driver %s) witness %s' % (v['category'], v['message'], v['where'], v['driver'], v.get('witness')))
        ev['violations'] = [{'what': v['message'], 'where': str(v['where']), 'driver': v['driver']} for v in list(uniq.values())[:50]]
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d of %d obligations discharged, %d violation(s), %.1f s' % (pid, discharged, obligations, len(fresh), time.time() - t0))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, 'evidence', pid + '.replay.txt')))
        sys.exit(1)
    if errors:
        for e in errors:
            print('ERROR ' + e)
        sys.exit(2)
    for u in cov.get('not_proved_for_all_states', []):
        print('  not proved beyond the unwidened states: ' + u)
    sys.exit(0)


if __name__ == '__main__':
    main()
