"""Type-level witnesses: a translation unit that a violating library cannot compile."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import runner

HERE = os.path.dirname(os.path.abspath(__file__))
STDS = ['gnu++11', 'c++14', 'c++17', 'c++20']
COMPILERS = ['g++', 'clang++-18']


def combos(tier):
    out = []
    for c in COMPILERS:
        for s in STDS:
            for e in ([], ['-fno-exceptions']):
                out.append(('wit.cpp', c, ['-std=' + s] + e))
    for fam, (src, _, modes) in sorted(runner.FAMILIES.items()):
        for mode, flags in sorted(modes.items()):
            for c in COMPILERS:
                for s in (STDS if tier == 'thorough' else ['gnu++11', 'c++20']):
                    out.append((src, c, ['-std=' + s] + flags))
    return out


def run(job):
    src, c, flags = job
    cmd = [c] + flags + ['-fsyntax-only', '-w', '-DNDEBUG', '-I' + runner.REPO, os.path.join(HERE, 'drv', src)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    except OSError as e:
        return job, None, str(e)
    return job, p.returncode, p.stdout


def check(tier):
    jobs = combos(tier)
    viols, errors = [], []
    done = 0
    asserts = len(re.findall(r'\b(?:W|NX)\(', open(os.path.join(HERE, 'drv', 'wit.cpp')).read()))
    with ThreadPoolExecutor(8) as ex:
        for (src, c, flags), rc, out in ex.map(run, jobs):
            if rc is None:
                errors.append('%s cannot be run: %s' % (c, out))
            elif rc == 0:
                done += 1
            else:
                err = [l for l in out.split('\n') if 'error' in l]
                where = ''
                for l in out.split('\n'):
                    m = re.search(r'(/[^\s:]*nestl/[^\s:]+:\d+)', l)
                    if m and '/verif/' not in m.group(1):
                        where = m.group(1)
                        break
                if not err:
                    errors.append('%s %s: %s' % (c, src, out[-300:]))
                    continue
                m = re.search(r'((?:wit|vec|list|sp|set|misc|fvec|flist)\.cpp:\d+)', err[0])
                viols.append(dict(category='type', message='does not compile: ' + re.sub(r'^.*?error: ', '', err[0])[:300],
                                  where=where or (m.group(1) if m else src), driver='%s %s %s' % (src, c, ' '.join(flags)), witness=None))
    return len(jobs), done, viols, errors, dict(witness_units=len(jobs), static_assertions=asserts, compilers=COMPILERS, standards=STDS)
