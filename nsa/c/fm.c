/* Fourier-Motzkin elimination with integer tightening over small dense systems.
   fm(nv, nc, d): d holds nc rows of nv coefficients and a constant, each row meaning row >= 0.
   1: no solution, 0: no conflict found, -1: numbers too large. */
#include <stdlib.h>
#include <string.h>
typedef long long I;
#define LIMIT 900
#define BIG ((I)1 << 30)
#define CBIG ((I)1 << 61)
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static I fdiv(I a, I b) { I q = a / b; return (a % b) < 0 ? q - 1 : q; }
struct T { int nv, w, n, cap, hs; I* r; int* h; };
static unsigned long hash(const I* r, int nv) { unsigned long x = 1469598103934665603ul; for (int i = 0; i < nv; ++i) { x ^= (unsigned long)r[i]; x *= 1099511628211ul; x ^= x >> 29; } return x; }
static void init(struct T* t, int nv) { t->nv = nv; t->w = nv + 1; t->n = 0; t->cap = 64; t->hs = 256; t->r = malloc(sizeof(I) * t->w * t->cap); t->h = malloc(sizeof(int) * t->hs); memset(t->h, -1, sizeof(int) * t->hs); }
static void done(struct T* t) { free(t->r); free(t->h); }
static void add(struct T* t, const I* r)
{
    int nv = t->nv, w = t->w;
    if (t->n * 2 >= t->hs)
    {
        t->hs *= 2; t->h = realloc(t->h, sizeof(int) * t->hs); memset(t->h, -1, sizeof(int) * t->hs);
        for (int k = 0; k < t->n; ++k) { unsigned long p = hash(t->r + (long)k * w, nv) & (t->hs - 1); while (t->h[p] >= 0) p = (p + 1) & (t->hs - 1); t->h[p] = k; }
    }
    unsigned long p = hash(r, nv) & (t->hs - 1);
    while (t->h[p] >= 0)
    {
        I* o = t->r + (long)t->h[p] * w;
        if (!memcmp(o, r, sizeof(I) * nv)) { if (r[nv] < o[nv]) o[nv] = r[nv]; return; }
        p = (p + 1) & (t->hs - 1);
    }
    if (t->n == t->cap) { t->cap *= 2; t->r = realloc(t->r, sizeof(I) * w * t->cap); }
    memcpy(t->r + (long)t->n * w, r, sizeof(I) * w);
    t->h[p] = t->n++;
}
static int find(struct T* t, const I* r)
{
    unsigned long p = hash(r, t->nv) & (t->hs - 1);
    while (t->h[p] >= 0) { if (!memcmp(t->r + (long)t->h[p] * t->w, r, sizeof(I) * t->nv)) return t->h[p]; p = (p + 1) & (t->hs - 1); }
    return -1;
}
/* 0: constant row, fine; 1: constant conflict; 2: keep */
static int tight(I* r, int nv)
{
    I g = 0;
    for (int i = 0; i < nv; ++i) if (r[i]) { g = gcd(g, r[i]); if (g == 1) return 2; }
    if (!g) return r[nv] < 0;
    for (int i = 0; i < nv; ++i) r[i] /= g;
    r[nv] = fdiv(r[nv], g);
    return 2;
}
int fm(int nv, int nc, I* d)
{
    struct T a, b; int res = 0; int w = nv + 1;
    I* tmp = malloc(sizeof(I) * w); int* P = malloc(sizeof(int) * nv); int* N = malloc(sizeof(int) * nv);
    init(&a, nv);
    for (int i = 0; i < nc; ++i) { int k = tight(d + (long)i * w, nv); if (k == 1) { res = 1; goto end; } if (k == 2) add(&a, d + (long)i * w); }
    while (a.n)
    {
        memset(P, 0, sizeof(int) * nv); memset(N, 0, sizeof(int) * nv);
        for (int i = 0; i < a.n; ++i)
        {
            I* r = a.r + (long)i * w;
            for (int j = 0; j < nv; ++j) { tmp[j] = -r[j]; if (r[j] > 0) ++P[j]; else if (r[j] < 0) ++N[j]; }
            int o = find(&a, tmp);
            if (o >= 0 && r[nv] + a.r[(long)o * w + nv] < 0) { res = 1; goto end; }
        }
        int k = -1; long bk = 0;
        for (int j = 0; j < nv; ++j) if (P[j] || N[j]) { long c = (long)P[j] * N[j] - P[j] - N[j]; if (k < 0 || c < bk) { k = j; bk = c; } }
        init(&b, nv);
        for (int i = 0; i < a.n; ++i) { I* r = a.r + (long)i * w; if (!r[k]) add(&b, r); }
        for (int i = 0; i < a.n; ++i)
        {
            I* p = a.r + (long)i * w; if (p[k] <= 0) continue;
            for (int j = 0; j < a.n; ++j)
            {
                I* q = a.r + (long)j * w; if (q[k] >= 0) continue;
                I g = gcd(p[k], q[k]), m1 = -q[k] / g, m2 = p[k] / g;
                for (int x = 0; x < nv; ++x) { tmp[x] = p[x] * m1 + q[x] * m2; if (tmp[x] > BIG || tmp[x] < -BIG) { res = -1; done(&b); goto end; } }
                __int128 c = (__int128)p[nv] * m1 + (__int128)q[nv] * m2;
                if (c > CBIG || c < -CBIG) { res = -1; done(&b); goto end; }
                tmp[nv] = (I)c;
                int z = tight(tmp, nv);
                if (z == 1) { res = 1; done(&b); goto end; }
                if (z == 2) add(&b, tmp);
            }
        }
        done(&a); a = b;
        if (a.n > LIMIT) goto end;
    }
end:
    done(&a); free(tmp); free(P); free(N);
    return res;
}
