"""Linear integer terms and the polyhedral fact domain (Fourier-Motzkin with integer tightening, no external solver)."""
from array import array
from math import gcd


class L:
    """c + sum(coef * sym), immutable"""
    __slots__ = ('c', 't', 'h')

    def __init__(s, c=0, t=()):
        s.c = c
        s.t = t
        s.h = None

    def __hash__(s):
        if s.h is None:
            s.h = hash((s.c, s.t))
        return s.h

    def __eq__(s, o):
        return isinstance(o, L) and s.c == o.c and s.t == o.t

    def __ne__(s, o):
        return not s == o

    def __add__(s, o):
        if isinstance(o, int):
            return L(s.c + o, s.t)
        if not o.t:
            return L(s.c + o.c, s.t)
        if not s.t:
            return L(s.c + o.c, o.t)
        d = dict(s.t)
        for k, v in o.t:
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                del d[k]
        return L(s.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__

    def __neg__(s):
        return L(-s.c, tuple((k, -v) for k, v in s.t))

    def __sub__(s, o):
        if isinstance(o, int):
            return L(s.c - o, s.t)
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, k):
        if k == 0:
            return L(0)
        return L(s.c * k, tuple((a, v * k) for a, v in s.t))
    __rmul__ = __mul__

    def div(s, k):
        """exact division or None"""
        if s.c % k:
            return None
        for _, v in s.t:
            if v % k:
                return None
        return L(s.c // k, tuple((a, v // k) for a, v in s.t))

    @property
    def const(s):
        return not s.t

    def syms(s):
        return [k for k, _ in s.t]

    def coef(s, k):
        for a, v in s.t:
            if a == k:
                return v
        return 0

    def sub(s, m):
        """substitute {sym: L}"""
        hit = False
        for k, _ in s.t:
            if k in m:
                hit = True
                break
        if not hit:
            return s
        r = L(s.c, tuple((k, v) for k, v in s.t if k not in m))
        for k, v in s.t:
            if k in m:
                r = r + m[k] * v
        return r

    def ev(s, env):
        return s.c + sum(v * env[k] for k, v in s.t)

    def __repr__(s):
        if not s.t:
            return str(s.c)
        r = ''
        for k, v in s.t:
            r += ('+' if v > 0 else '-') + ('' if abs(v) == 1 else '%d*' % abs(v)) + k
        if s.c:
            r += '%+d' % s.c
        return r.lstrip('+')


def sym(n):
    return L(0, ((n, 1),))


ZERO = L(0)
ONE = L(1)


def lin(x):
    return x if isinstance(x, L) else L(x)


def tight(l):
    """normalise l >= 0 by the gcd of its coefficients"""
    if not l.t:
        return l
    g = 0
    for _, v in l.t:
        g = gcd(g, v)
        if g == 1:
            return l
    return L(l.c // g, tuple((k, v // g) for k, v in l.t))


LIMIT = 900
_cache = {}


def infeasible(cons):
    """True when the conjunction of l >= 0 has no solution (sound, may miss some integer-only conflicts)"""
    key = cons if isinstance(cons, frozenset) else frozenset(cons)
    r = _cache.get(key)
    if r is None:
        if len(_cache) > 400000:
            _cache.clear()
        r = _cache[key] = _fast(key)
    return r


_lib = None


def _load():
    """the elimination is compiled on first use; without a C compiler the Python version is used"""
    global _lib
    import ctypes, os, subprocess, tempfile
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c', 'fm.c')
    _lib = False
    with tempfile.TemporaryDirectory(prefix='nsa.') as d:
        so = os.path.join(d, 'fm.so')
        for cc in ('cc', 'gcc', 'clang-18', 'clang'):
            try:
                if subprocess.run([cc, '-O2', '-shared', '-fPIC', '-o', so, src], capture_output=True).returncode == 0:
                    f = ctypes.CDLL(so).fm
                    f.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_void_p)
                    f.restype = ctypes.c_int
                    _lib = f
                    return
            except OSError:
                pass


def _fast(cons):
    if _lib is None:
        _load()
    if not _lib:
        return _fm(cons)
    vs = set()
    for l in cons:
        for k, v in l.t:
            vs.add(k)
            if not -1048576 < v < 1048576:
                return _fm(cons)
        if not -(1 << 60) < l.c < 1 << 60:
            return _fm(cons)
    ix = {k: n for n, k in enumerate(sorted(vs))}
    nv = len(ix)
    d = array('q', bytes(8 * (nv + 1) * len(cons)))
    p = 0
    for l in cons:
        for k, v in l.t:
            d[p + ix[k]] = v
        p += nv
        d[p] = l.c
        p += 1
    r = _lib(nv, len(cons), d.buffer_info()[0])
    return _fm(cons) if r < 0 else r == 1


def _fm(cons):
    best = {}
    for l in cons:
        l = tight(l)
        if not l.t:
            if l.c < 0:
                return True
            continue
        o = best.get(l.t)
        if o is None or l.c < o:
            best[l.t] = l.c
    while best:
        # trivially contradictory pairs
        for t, c in best.items():
            nt = tuple((k, -v) for k, v in t)
            o = best.get(nt)
            if o is not None and c + o < 0:
                return True
        pos = {}
        neg = {}
        for t in best:
            for k, v in t:
                if v > 0:
                    pos[k] = pos.get(k, 0) + 1
                else:
                    neg[k] = neg.get(k, 0) + 1
        vs = set(pos) | set(neg)
        k = min(vs, key=lambda x: (pos.get(x, 0) * neg.get(x, 0) - pos.get(x, 0) - neg.get(x, 0), x))
        ps, ns, rest = [], [], {}
        for t, c in best.items():
            for a, v in t:
                if a == k:
                    (ps if v > 0 else ns).append((t, c, v))
                    break
            else:
                rest[t] = c
        for t1, c1, v1 in ps:
            for t2, c2, v2 in ns:
                g = gcd(v1, -v2)
                m1, m2 = -v2 // g, v1 // g
                d = {}
                for a, v in t1:
                    d[a] = v * m1
                for a, v in t2:
                    w = d.get(a, 0) + v * m2
                    if w:
                        d[a] = w
                    else:
                        d.pop(a, None)
                c = c1 * m1 + c2 * m2
                if not d:
                    if c < 0:
                        return True
                    continue
                gg = 0
                for v in d.values():
                    gg = gcd(gg, v)
                if gg > 1:
                    c //= gg
                    d = {a: v // gg for a, v in d.items()}
                t = tuple(sorted(d.items()))
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
        if len(rest) > LIMIT:
            return False
        best = rest
    return False


def diff(l):
    """l >= 0 as (y, x, c) meaning y - x <= c, or None when l is not a difference"""
    t = l.t
    if len(t) == 1:
        k, v = t[0]
        if v == 1:
            return '', k, l.c
        if v == -1:
            return k, '', l.c
        return None
    if len(t) == 2:
        (a, v), (b, w) = t
        if v == 1 and w == -1:
            return b, a, l.c
        if v == -1 and w == 1:
            return a, b, l.c
    return None


def close(D, y, x, c):
    """adds y - x <= c to the closed system D in place; False when it becomes contradictory"""
    r = D.get(y)
    if r is not None:
        o = r.get(x)
        if o is not None and o <= c:
            return True
    row = D.get(x)
    if row is not None:
        o = row.get(y)
        if o is not None and o + c < 0:
            return False
    if y not in D:
        D[y] = {y: 0}
    if x not in D:
        D[x] = {x: 0}
    tail = list(D[x].items())
    for u, ru in D.items():
        d = ru.get(y)
        if d is None:
            continue
        d += c
        for v, e in tail:
            o = ru.get(v)
            if o is None or d + e < o:
                ru[v] = d + e
    return True


class Facts:
    """conjunction of l >= 0"""
    __slots__ = ('s', '_q', '_d', '_c')

    def __init__(s, cons=frozenset()):
        s.s = cons
        s._q = {}
        s._d = None
        s._c = None

    def closure(s):
        """(difference closure or None when contradictory, are all facts differences)"""
        if s._d is None:
            D = {}
            pure = True
            for f in s.s:
                d = diff(f)
                if d is None:
                    if f.t:
                        pure = False
                    elif f.c < 0:
                        D = None
                        break
                    continue
                if not close(D, *d):
                    D = None
                    break
            s._d = (D, pure)
        return s._d

    def component(s, syms):
        """facts connected to the given symbols"""
        c = s._c
        if c is None:
            own = {}
            for f in s.s:
                g = None
                for k, _ in f.t:
                    h = own.get(k)
                    if h is None:
                        if g is None:
                            g = [[], []]
                            g[0].append(f)
                        g[1].append(k)
                        own[k] = g
                    elif g is None:
                        g = h
                        g[0].append(f)
                    elif h is not g:
                        if len(h[0]) > len(g[0]):
                            g, h = h, g
                        g[0].extend(h[0])
                        g[1].extend(h[1])
                        for x in h[1]:
                            own[x] = g
            c = s._c = own
        gs = []
        for k in syms:
            g = c.get(k)
            if g is not None and not any(g is x for x in gs):
                gs.append(g)
        if len(gs) == 1:
            return gs[0][0]
        return [f for g in gs for f in g[0]]

    def entails(s, l):
        l = tight(l)
        if not l.t:
            return l.c >= 0
        r = s._q.get(l)
        if r is None:
            # syntactic
            r = False
            for f in s.s:
                if f.t == l.t and f.c <= l.c:
                    r = True
                    break
            if not r:
                D, pure = s.closure()
                if D is None:
                    r = True
                else:
                    d = diff(l)
                    if d is not None:
                        o = D.get(d[0], {}).get(d[1])
                        r = o is not None and o <= d[2]
                    if not r and not (pure and d is not None):
                        c = s.component(l.syms())
                        r = infeasible(frozenset(c + [tight(-l - 1)]))
            s._q[l] = r
        return r

    def add(s, l):
        l = tight(l)
        if not l.t:
            return s
        n = Facts(frozenset([f for f in s.s if not (f.t == l.t and f.c >= l.c)] + [l]))
        if s._d is not None:
            D, pure = s._d
            if D is None:
                n._d = s._d
            else:
                d = diff(l)
                if d is None:
                    n._d = (D, False)
                else:
                    o = D.get(d[0], {}).get(d[1])
                    if o is not None and o <= d[2]:
                        n._d = s._d
                    else:
                        D = {k: dict(v) for k, v in D.items()}
                        n._d = (D, pure) if close(D, *d) else (None, pure)
        return n

    def subst(s, m):
        return Facts(frozenset(x for x in (tight(f.sub(m)) for f in s.s) if x.t or x.c < 0))

    def feasible(s):
        for f in s.s:
            if not f.t and f.c < 0:
                return False
        D, pure = s.closure()
        if D is None:
            return False
        return pure or not infeasible(s.s)

    def syms(s):
        r = set()
        for f in s.s:
            r.update(f.syms())
        return r

    def model(s, extra=(), span=12):
        """small integer model, or None"""
        r = s.search(extra, span, False)
        if r is None and any(abs(v) > 16 for f in s.s for k, v in f.t):
            r = s.search(extra, span, True)
        return r

    def search(s, extra, span, coarse):
        cons = list(s.s)
        syms = set(extra)
        for f in cons:
            syms.update(f.syms())
        order = sorted(syms)
        if coarse:
            # quotients first: they decide in which window the others lie
            big = {k: max([abs(f.coef(k)) for f in cons] + [0]) for k in order}
            order.sort(key=lambda k: (-big[k], k))
        budget = [20000]

        def rec(fs, i, env):
            if budget[0] <= 0:
                return None
            budget[0] -= 1
            for f in fs:
                if not f.t and f.c < 0:
                    return None
            if i == len(order):
                return env
            k = order[i]
            fx = Facts(frozenset(f for f in fs if f.t))
            if not fx.feasible():
                return None
            near = sorted(range(-span, span), key=abs)
            cand = []
            big = 1 << 66
            lo = hi = None
            if fx.entails(sym(k) + big):
                x, y = -big, big
                while y - x > 1:
                    z = (x + y) // 2
                    if fx.entails(sym(k) - z):
                        x = z
                    else:
                        y = z
                lo = x
            if fx.entails(L(big) - sym(k)):
                x, y = -big, big
                while y - x > 1:
                    z = (x + y) // 2
                    if fx.entails(L(z) - sym(k)):
                        y = z
                    else:
                        x = z
                hi = y
            if lo is not None and lo >= 0:
                cand += [lo + d for d in range(span)]
            else:
                cand += near
                if lo is not None:
                    cand += [lo + d for d in range(span)]
            if hi is not None and hi < (1 << 66):
                cand += [hi - d for d in range(span)]
            tried = 0
            for v in cand:
                if fx.entails(sym(k) - v - 1) or fx.entails(L(v - 1) - sym(k)):
                    continue
                tried += 1
                if tried > 3 * span:
                    break
                r = rec([tight(f.sub({k: L(v)})) for f in fs], i + 1, dict(env, **{k: v}))
                if r is not None:
                    return r
            return None
        return rec(cons, 0, {})
