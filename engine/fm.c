/* Feasibility of a conjunction of linear inequalities  c + sum k_i x_i >= 0
 * over the integers: Gauss elimination of equalities with a unit coefficient,
 * then Fourier-Motzkin with gcd tightening.  Answers 0 (certainly empty) or 1
 * (not refuted); any overflow or blow-up answers 1. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef __int128 num;
#define MAXV 160
#define MAXC 6000

typedef struct { num c; int n; short v[24]; num k[24]; } con;   /* v sorted */

static num gcdn(num a, num b)
{
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { num t = a % b; a = b; b = t; }
    return a;
}

static num fdiv(num a, num b)
{
    num q = a / b;
    return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}

static void norm(con *e)
{
    num g = 0;
    for (int i = 0; i < e->n; i++) { g = gcdn(g, e->k[i]); if (g == 1) return; }
    if (g > 1) {
        e->c = fdiv(e->c, g);
        for (int i = 0; i < e->n; i++) e->k[i] /= g;
    }
}

static int same(const con *a, const con *b, int sign)
{
    if (a->n != b->n) return 0;
    for (int i = 0; i < a->n; i++)
        if (a->v[i] != b->v[i] || a->k[i] != (sign > 0 ? b->k[i] : -b->k[i])) return 0;
    return 1;
}

static unsigned hash(const con *a)
{
    unsigned h = 2166136261u;
    for (int i = 0; i < a->n; i++) {
        h = (h ^ (unsigned)a->v[i]) * 16777619u;
        h = (h ^ (unsigned)(uint64_t)a->k[i]) * 16777619u;
    }
    return h;
}

#define HS 16384
typedef struct { con *e; int n; int *tab; } set;

/* 1 ok, 0 contradiction, -1 overflow of limits */
static int put(set *s, con *e)
{
    norm(e);
    if (e->n == 0) return e->c >= 0 ? 1 : 0;
    unsigned h = hash(e) % HS;
    while (s->tab[h] >= 0) {
        con *o = &s->e[s->tab[h]];
        if (same(o, e, 1)) { if (e->c < o->c) o->c = e->c; return 1; }
        h = (h + 1) % HS;
    }
    if (s->n >= MAXC) return -1;
    s->tab[h] = s->n;
    s->e[s->n++] = *e;
    return 1;
}

/* r = a*x + b*y ; returns 0 on overflow */
static int comb(con *r, const con *x, num a, const con *y, num b, int drop)
{
    num p, q;
    if (__builtin_mul_overflow(x->c, a, &p) || __builtin_mul_overflow(y->c, b, &q) ||
        __builtin_add_overflow(p, q, &r->c)) return 0;
    int i = 0, j = 0, n = 0;
    while (i < x->n || j < y->n) {
        short v;
        num k;
        if (j >= y->n || (i < x->n && x->v[i] < y->v[j])) {
            v = x->v[i];
            if (__builtin_mul_overflow(x->k[i], a, &k)) return 0;
            i++;
        } else if (i >= x->n || y->v[j] < x->v[i]) {
            v = y->v[j];
            if (__builtin_mul_overflow(y->k[j], b, &k)) return 0;
            j++;
        } else {
            v = x->v[i];
            if (__builtin_mul_overflow(x->k[i], a, &p) || __builtin_mul_overflow(y->k[j], b, &q) ||
                __builtin_add_overflow(p, q, &k)) return 0;
            i++; j++;
        }
        if (v == drop || k == 0) continue;
        if (n >= 24) return 0;
        r->v[n] = v; r->k[n] = k; n++;
    }
    r->n = n;
    return 1;
}

static num coef(const con *e, int v)
{
    for (int i = 0; i < e->n; i++) if (e->v[i] == v) return e->k[i];
    return 0;
}

static con bufa[MAXC], bufb[MAXC];
static int taba[HS], tabb[HS];

/* data: for each constraint: n, c_lo, c_hi, then n times (id, lo, hi) */
int fm_feasible(const int64_t *d, int ncons, const int64_t *focus, int nfocus)
{
    static int64_t ids[MAXV];
    int nv = 0;
    set A = { bufa, 0, taba }, B = { bufb, 0, tabb };
    memset(taba, 0xff, sizeof taba);
    /* parse */
    static con in[4096];
    if (ncons > 4096) return 1;
    int n = 0;
    const int64_t *p = d;
    for (int i = 0; i < ncons; i++) {
        con *e = &in[n];
        int64_t m = *p++;
        e->c = ((num)p[1] << 64) | (uint64_t)p[0];
        p += 2;
        if (m > 24) { p += 3 * m; continue; }
        e->n = 0;
        for (int64_t j = 0; j < m; j++) {
            int64_t id = p[0];
            int v;
            for (v = 0; v < nv; v++) if (ids[v] == id) break;
            if (v == nv) { if (nv == MAXV) return 1; ids[nv++] = id; }
            num k = ((num)p[2] << 64) | (uint64_t)p[1];
            p += 3;
            int q = e->n;
            while (q > 0 && e->v[q - 1] > v) { e->v[q] = e->v[q - 1]; e->k[q] = e->k[q - 1]; q--; }
            e->v[q] = v; e->k[q] = k; e->n++;
        }
        n++;
    }
    /* connected component of the focus */
    char live[MAXV];
    memset(live, nfocus < 0, sizeof live);
    if (nfocus >= 0) {
        for (int i = 0; i < nfocus; i++)
            for (int v = 0; v < nv; v++) if (ids[v] == focus[i]) live[v] = 1;
        int ch = 1;
        while (ch) {
            ch = 0;
            for (int i = 0; i < n; i++) {
                int any = 0, all = 1;
                for (int j = 0; j < in[i].n; j++) { if (live[in[i].v[j]]) any = 1; else all = 0; }
                if (any && !all) {
                    for (int j = 0; j < in[i].n; j++) live[in[i].v[j]] = 1;
                    ch = 1;
                }
            }
        }
    }
    for (int i = 0; i < n; i++) {
        if (in[i].n && !live[in[i].v[0]]) continue;
        con e = in[i];
        int r = put(&A, &e);
        if (r == 0) return 0;
        if (r < 0) return 1;
    }
    for (int round = 0; round < 400; round++) {
        if (A.n == 0) return 1;
        /* equality with unit coefficient? */
        con *eq = 0;
        int ev = -1;
        num ek = 0;
        for (int i = 0; i < A.n && !eq; i++) {
            con neg = A.e[i];
            for (int j = 0; j < neg.n; j++) neg.k[j] = -neg.k[j];
            unsigned h = hash(&neg) % HS;
            while (A.tab[h] >= 0) {
                con *o = &A.e[A.tab[h]];
                if (same(o, &neg, 1)) {
                    if (A.e[i].c + o->c < 0) return 0;
                    if (A.e[i].c + o->c == 0) {
                        for (int j = 0; j < A.e[i].n; j++)
                            if (A.e[i].k[j] == 1 || A.e[i].k[j] == -1) {
                                eq = &A.e[i]; ev = eq->v[j]; ek = eq->k[j];
                                break;
                            }
                    }
                    break;
                }
                h = (h + 1) % HS;
            }
        }
        B.n = 0;
        memset(B.tab, 0xff, sizeof taba);
        if (eq) {
            con q = *eq;
            for (int i = 0; i < A.n; i++) {
                num k = coef(&A.e[i], ev);
                con r;
                if (k == 0) r = A.e[i];
                else if (!comb(&r, &A.e[i], 1, &q, ek > 0 ? -k : k, ev)) return 1;
                int z = put(&B, &r);
                if (z == 0) return 0;
                if (z < 0) return 1;
            }
        } else {
            int np[MAXV] = {0}, nn[MAXV] = {0};
            for (int i = 0; i < A.n; i++)
                for (int j = 0; j < A.e[i].n; j++)
                    if (A.e[i].k[j] > 0) np[A.e[i].v[j]]++; else nn[A.e[i].v[j]]++;
            int best = -1;
            long bc = 0;
            for (int v = 0; v < nv; v++) {
                if (!np[v] && !nn[v]) continue;
                long c = (long)np[v] * nn[v] - np[v] - nn[v];
                if (best < 0 || c < bc) { best = v; bc = c; }
            }
            for (int i = 0; i < A.n; i++)
                if (coef(&A.e[i], best) == 0) {
                    con r = A.e[i];
                    if (put(&B, &r) < 0) return 1;
                }
            for (int i = 0; i < A.n; i++) {
                num a = coef(&A.e[i], best);
                if (a <= 0) continue;
                for (int j = 0; j < A.n; j++) {
                    num b = coef(&A.e[j], best);
                    if (b >= 0) continue;
                    num g = gcdn(a, b);
                    con r;
                    if (!comb(&r, &A.e[i], -b / g, &A.e[j], a / g, best)) return 1;
                    int z = put(&B, &r);
                    if (z == 0) return 0;
                    if (z < 0) return 1;
                }
            }
        }
        set t = A; A = B; B = t;
        if (A.n > 3000) return 1;
    }
    return 1;
}
