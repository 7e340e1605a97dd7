/* JNI bridge: numeric oracle of the COLD / OB-COLD specifications (module ColdNum). */
#include <jni.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "num.h"

static series_t *S; static int NS;
static fit_t **F; static int NF, CF;
static res_t *R; static int NR, CR;
static pthread_rwlock_t L = PTHREAD_RWLOCK_INITIALIZER;
#define T_MAX 30.8562
#define EPS_MAG 5e-3
#define EPS_ANG 0.15

static void rd(void *p, size_t s, size_t n, FILE *f) { if (n && fread(p, s, n, f) != n) { fprintf(stderr, "oracle: short data file\n"); exit(3); } }

JNIEXPORT jint JNICALL Java_ColdNative_load(JNIEnv *e, jclass c, jstring path)
{
    const char *p = (*e)->GetStringUTFChars(e, path, 0);
    FILE *f = fopen(p, "rb");
    if (!f) { perror(p); exit(3); }
    rd(&NS, 4, 1, f);
    S = calloc(NS, sizeof(series_t));
    for (int s = 0; s < NS; s++) {
        series_t *q = &S[s];
        rd(&q->n, 4, 1, f); rd(&q->conse, 4, 1, f); rd(&q->tcg, 4, 1, f); rd(&q->nrec, 4, 1, f);
        q->x = malloc(4 * (q->n + 1)); rd(q->x, 4, q->n, f);
        for (int b = 0; b < NB; b++) { q->y[b] = malloc(4 * (q->n + 1)); rd(q->y[b], 4, q->n, f); }
        q->talt = malloc(4 * (q->n + 1)); rd(q->talt, 4, q->n, f);
        q->coefs = malloc(4 * (q->nrec * NB * MAXC + 1)); rd(q->coefs, 4, q->nrec * NB * MAXC, f);
        q->rmse = malloc(4 * (q->nrec * NB + 1)); rd(q->rmse, 4, q->nrec * NB, f);
        q->mag = malloc(4 * (q->nrec * NB + 1)); rd(q->mag, 4, q->nrec * NB, f);
    }
    fclose(f);
    return NS;
}

/* the usable observations of a series fix its noise levels */
JNIEXPORT void JNICALL Java_ColdNative_start(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    series_t *s = &S[sid];
    int n = (*e)->GetArrayLength(e, ja), *o = malloc(4 * (n + 1));
    float *y = malloc(4 * (n + 1));
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)o);
    for (int b = 0; b < NB; b++) {
        for (int i = 0; i < n; i++) y[i] = s->y[b][o[i]];
        median_variogram(y, n, &s->min_rmse[b]);
    }
    free(o); free(y);
}

/* ---- handle tables ---- */
#define HB 65536
static int *fh[HB], fhn[HB], fhc[HB];
static unsigned hashi(const int *v, int n, unsigned h) { for (int i = 0; i < n; i++) { h ^= (unsigned)v[i]; h *= 16777619u; h ^= h >> 13; } return h; }

static int find_fit(int sid, int df, const int *obs, int n, unsigned h)
{
    for (int i = 0; i < fhn[h]; i++) {
        fit_t *q = F[fh[h][i]];
        if (q->sid == sid && q->df == df && q->n == n && !memcmp(q->obs, obs, 4 * n)) return fh[h][i];
    }
    return -1;
}

JNIEXPORT jint JNICALL Java_ColdNative_fit(JNIEnv *e, jclass c, jint sid, jintArray ja, jint df)
{
    int n = (*e)->GetArrayLength(e, ja);
    int *obs = malloc(4 * (n + 1));
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)obs);
    unsigned h = hashi(obs, n, 2166136261u ^ (sid * 31 + df)) % HB;
    pthread_rwlock_rdlock(&L);
    int r = find_fit(sid, df, obs, n, h);
    pthread_rwlock_unlock(&L);
    if (r >= 0) { free(obs); return r; }
    fit_t *q = calloc(1, sizeof *q);
    q->sid = sid; q->df = df; q->n = n; q->obs = obs;
    series_t *s = &S[sid];
    int *x = malloc(4 * n); float *y = malloc(4 * n);
    for (int i = 0; i < n; i++) x[i] = s->x[obs[i]];
    for (int b = 0; b < NB; b++) {
        for (int i = 0; i < n; i++) y[i] = s->y[b][obs[i]];
        fit_band(x, y, n, df, q->coefs[b], &q->rmse[b], 20.0f);
    }
    free(x); free(y);
    pthread_rwlock_wrlock(&L);
    r = find_fit(sid, df, obs, n, h);
    if (r < 0) {
        if (NF == CF) { CF = CF ? 2 * CF : 1024; F = realloc(F, CF * sizeof(fit_t *)); }
        r = NF; F[NF++] = q;
        if (fhn[h] == fhc[h]) { fhc[h] = fhc[h] ? 2 * fhc[h] : 4; fh[h] = realloc(fh[h], 4 * fhc[h]); }
        fh[h][fhn[h]++] = r;
    }
    pthread_rwlock_unlock(&L);
    return r;
}

/* four coefficients, each band with its own observations; bands with fewer than 12 are saturated */
JNIEXPORT jint JNICALL Java_ColdNative_fitBands(JNIEnv *e, jclass c, jint sid, jobjectArray per, jintArray all)
{
    series_t *s = &S[sid];
    fit_t *q = calloc(1, sizeof *q);
    q->sid = sid; q->df = 4; q->n = (*e)->GetArrayLength(e, all);
    q->obs = malloc(4 * (q->n + 1));
    (*e)->GetIntArrayRegion(e, all, 0, q->n, (jint *)q->obs);
    for (int b = 0; b < NB; b++) {
        jintArray ja = (*e)->GetObjectArrayElement(e, per, b);
        int n = (*e)->GetArrayLength(e, ja), *o = malloc(4 * (n + 1)), *x = malloc(4 * (n + 1));
        float *y = malloc(4 * (n + 1)), *src = b == 6 ? s->talt : s->y[b];
        (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)o);
        for (int i = 0; i < n; i++) { x[i] = s->x[o[i]]; y[i] = src[o[i]]; }
        if (b == 6 && n < 5) q->coefs[b][0] = NAN;   /* unspecified */
        else if (n < 12 && b < 6) { q->coefs[b][0] = 10000; q->rmse[b] = 0; }
        else fit_band(x, y, n, 4, q->coefs[b], &q->rmse[b], 20.0f);
        free(o); free(x); free(y);
    }
    pthread_rwlock_wrlock(&L);
    if (NF == CF) { CF = CF ? 2 * CF : 1024; F = realloc(F, CF * sizeof(fit_t *)); }
    int r = NF; F[NF++] = q;
    pthread_rwlock_unlock(&L);
    return r;
}

static res_t getres(int h) { pthread_rwlock_rdlock(&L); res_t r = R[h]; pthread_rwlock_unlock(&L); return r; }
static fit_t *getfit(int h) { pthread_rwlock_rdlock(&L); fit_t *r = F[h]; pthread_rwlock_unlock(&L); return r; }

/* residual handles: keyed by (fit, obs, kind) */
typedef struct { int fit, o, kind, h; } rkey;
static rkey *rh[HB]; static int rhn[HB], rhc[HB];
static int find_res(int fit, int o, int kind, unsigned h)
{
    for (int i = 0; i < rhn[h]; i++) if (rh[h][i].fit == fit && rh[h][i].o == o && rh[h][i].kind == kind) return rh[h][i].h;
    return -1;
}
typedef struct { double d; int i; } dd;
static int cmpdd(const void *a, const void *b) { double x = ((dd *)a)->d, y = ((dd *)b)->d; return x < y ? -1 : x > y; }
static int cmpd(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return x < y ? -1 : x > y; }

/* kind 0: normalise by max(noise, model error); 1: by the error of the nearest days of year */
JNIEXPORT jint JNICALL Java_ColdNative_res(JNIEnv *e, jclass c, jint sid, jint fh_, jint o, jint kind)
{
    int key[3] = {fh_, o, kind};
    unsigned h = hashi(key, 3, 7u) % HB;
    pthread_rwlock_rdlock(&L);
    int r = find_res(fh_, o, kind, h);
    pthread_rwlock_unlock(&L);
    if (r >= 0) return r;
    fit_t *f = getfit(fh_);
    series_t *s = &S[sid];
    res_t q; memset(&q, 0, sizeof q); q.sid = sid;
    double rl[NLB], rhh[NLB];
    for (int b = 0; b < NB; b++) q.dif[b] = s->y[b][o] - harmonic(f->coefs[b], f->df, s->x[o]);
    if (kind == 0) for (int j = 0; j < NLB; j++) rl[j] = rhh[j] = f->rmse[j + 1];
    else {
        int nr = 3 * f->df, n = f->n;
        dd *v = malloc(sizeof(dd) * n);
        for (int i = 0; i < n; i++) {
            double d = s->x[f->obs[i]] - s->x[o];
            v[i].d = fabs(round((float)d / 365.25) * 365.25 - d); v[i].i = i;
        }
        qsort(v, n, sizeof(dd), cmpdd);
        if (nr > n) nr = n;
        double D = v[nr - 1].d; int a = 0, z;
        while (a < n && v[a].d < D - 1e-3) a++;
        z = a; while (z < n && v[z].d <= D + 1e-3) z++;
        int need = nr - a, nt = z - a;
        double *sq = malloc(sizeof(double) * (nt + 1));
        for (int j = 0; j < NLB; j++) {
            int b = j + 1; double base = 0;
            for (int i = 0; i < a; i++) { int oo = f->obs[v[i].i]; double t = s->y[b][oo] - harmonic(f->coefs[b], f->df, s->x[oo]); base += t * t; }
            for (int i = 0; i < nt; i++) { int oo = f->obs[v[a + i].i]; double t = s->y[b][oo] - harmonic(f->coefs[b], f->df, s->x[oo]); sq[i] = t * t; }
            qsort(sq, nt, sizeof(double), cmpd);
            double lo = base, hi = base;
            for (int i = 0; i < need; i++) { lo += sq[i]; hi += sq[nt - 1 - i]; }
            rl[j] = sqrt(lo) / sqrt((double)(nr - f->df)); rhh[j] = sqrt(hi) / sqrt((double)(nr - f->df));
        }
        q.tie = nt > need;
        free(sq); free(v);
    }
    q.lo = q.hi = q.mag = 0;
    for (int j = 0; j < NLB; j++) {
        double m = s->min_rmse[j + 1], dl = fmax(m, rl[j]), dh = fmax(m, rhh[j]), df = q.dif[j + 1];
        q.z[j] = df / (0.5 * (dl + dh)); q.zhi[j] = df / dl; q.zlo[j] = df / dh;
        q.hi += (df / dl) * (df / dl); q.lo += (df / dh) * (df / dh); q.mag += (double)q.z[j] * q.z[j];
    }
    pthread_rwlock_wrlock(&L);
    r = find_res(fh_, o, kind, h);
    if (r < 0) {
        if (NR == CR) { CR = CR ? 2 * CR : 4096; R = realloc(R, CR * sizeof(res_t)); }
        r = NR; R[NR++] = q;
        if (rhn[h] == rhc[h]) { rhc[h] = rhc[h] ? 2 * rhc[h] : 4; rh[h] = realloc(rh[h], sizeof(rkey) * rhc[h]); }
        rh[h][rhn[h]++] = (rkey){fh_, o, kind, r};
    }
    pthread_rwlock_unlock(&L);
    return r;
}

static int bits(double v, double thr, double eps) /* 1: may exceed, 2: may not exceed */
{
    if (v != v) return 3;
    return (v > thr - eps ? 1 : 0) | (v <= thr + eps ? 2 : 0);
}
static int getrs(JNIEnv *e, jintArray ja, res_t *out)
{
    int n = (*e)->GetArrayLength(e, ja), v[64];
    if (n > 64) exit(3);
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)v);
    for (int i = 0; i < n; i++) out[i] = getres(v[i]);
    return n;
}
static double angle_of(res_t *r, int n, double *eps)
{
    float z[64][NLB]; int tie = 0; double a, dev = 0;
    for (int i = 0; i < n; i++) { memcpy(z[i], r[i].z, sizeof z[i]); tie |= r[i].tie; }
    a = mean_angle(z, n);
    if (tie) for (int v = 0; v < 2 * NLB + 2; v++) {   /* corners of the admissible normalisations */
        for (int i = 0; i < n; i++) for (int j = 0; j < NLB; j++) {
            int hi = v == 2 * NLB ? 1 : v == 2 * NLB + 1 ? 0 : (v / 2 == j) ^ (v & 1);
            z[i][j] = hi ? r[i].zhi[j] : r[i].zlo[j];
        }
        double d = fabs(mean_angle(z, n) - a);
        if (d > dev) dev = d;
    }
    *eps = EPS_ANG + 2 * dev;
    return a;
}
static void minmag(res_t *r, int n, double *lo, double *hi)
{
    *lo = *hi = 9999.0;
    for (int i = 0; i < n; i++) { if (r[i].lo < *lo) *lo = r[i].lo; if (r[i].hi < *hi) *hi = r[i].hi; }
}
/* change confirmed: every deviation above the threshold and coherent direction.  bit1 yes, bit2 no */
JNIEXPORT jint JNICALL Java_ColdNative_confirm(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    res_t r[64]; int n = getrs(e, ja, r);
    double lo, hi, ea, a = angle_of(r, n, &ea), t = S[sid].tcg;
    minmag(r, n, &lo, &hi);
    int yes = hi > t * (1 - EPS_MAG) && a < 45 + ea, no = lo <= t * (1 + EPS_MAG) || a >= 45 - ea;
    return (yes ? 1 : 0) | (no ? 2 : 0);
}
JNIEXPORT jint JNICALL Java_ColdNative_tail(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    res_t r[64]; int n = getrs(e, ja, r);
    double ea, a = angle_of(r, n, &ea), t = S[sid].tcg;
    int yes = r[0].hi > t * (1 - EPS_MAG) && a < 45 + ea, no = r[0].lo <= t * (1 + EPS_MAG) || a >= 45 - ea;
    return (yes ? 1 : 0) | (no ? 2 : 0);
}
JNIEXPORT jint JNICALL Java_ColdNative_extreme(JNIEnv *e, jclass c, jint h)
{
    res_t r = getres(h);
    return (r.hi > T_MAX * (1 - EPS_MAG) ? 1 : 0) | (r.lo <= T_MAX * (1 + EPS_MAG) ? 2 : 0);
}
#define T_FAR 15.0863
JNIEXPORT jint JNICALL Java_ColdNative_far(JNIEnv *e, jclass c, jint h)
{
    res_t r = getres(h);
    return (r.hi > T_FAR * (1 - EPS_MAG) ? 1 : 0) | (r.lo <= T_FAR * (1 + EPS_MAG) ? 2 : 0);
}
JNIEXPORT jint JNICALL Java_ColdNative_stable(JNIEnv *e, jclass c, jint sid, jint fh_)
{
    fit_t *f = getfit(fh_); series_t *s = &S[sid];
    double sum = 0; int o0 = f->obs[0], o1 = f->obs[f->n - 1];
    for (int j = 0; j < NLB; j++) {
        int b = j + 1; double m = fmax(s->min_rmse[b], f->rmse[b]);
        double v0 = (s->y[b][o0] - harmonic(f->coefs[b], f->df, s->x[o0])) / m, v1 = (s->y[b][o1] - harmonic(f->coefs[b], f->df, s->x[o1])) / m;
        double sl = (double)f->coefs[b][1] * (s->x[o1] - s->x[o0]) / m / 10000.0;
        double d = fabs(sl) + fmax(fabs(v0), fabs(v1));
        sum += d * d;
    }
    int x = bits(sum, s->tcg, EPS_MAG * s->tcg);
    return ((x & 2) ? 1 : 0) | ((x & 1) ? 2 : 0);   /* bit1: stable, bit2: not */
}
JNIEXPORT jdoubleArray JNICALL Java_ColdNative_mask(JNIEnv *e, jclass c, jint sid, jintArray ja, jint years, jint jitter)
{
    series_t *s = &S[sid];
    int n = (*e)->GetArrayLength(e, ja);
    int *obs = malloc(4 * (n + 1)), *x = malloc(4 * (n + 1)); float *g = malloc(4 * (n + 1)), *w = malloc(4 * (n + 1));
    double *sc = malloc(8 * (n + 1));
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)obs);
    for (int i = 0; i < n; i++) { x[i] = s->x[obs[i]]; g[i] = s->y[1][obs[i]]; w[i] = s->y[4][obs[i]]; }
    mask_scores(x, g, w, n, years, s->min_rmse[1], s->min_rmse[4], sc, (unsigned)jitter);
    jdoubleArray out = (*e)->NewDoubleArray(e, n);
    (*e)->SetDoubleArrayRegion(e, out, 0, n, sc);
    free(obs); free(x); free(g); free(w); free(sc);
    return out;
}
/* change magnitude hundredfold, capped, weighted by direction: admissible interval */
JNIEXPORT jintArray JNICALL Java_ColdNative_cm(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    res_t r[64]; int n = getrs(e, ja, r);
    double lo, hi, ea, a = angle_of(r, n, &ea);
    minmag(r, n, &lo, &hi);
    ea = ea - EPS_ANG + 0.02;
    double pl = 1 - (a + ea - 45) / 45, ph = 1 - (a - ea - 45) / 45;
    pl = pl < 0 ? 0 : pl > 1 ? 1 : pl; ph = ph < 0 ? 0 : ph > 1 ? 1 : ph;
    double l = pl * lo * 100 * (1 - 1e-3) - 1.0, h = ph * hi * 100 * (1 + 1e-3) + 1.0;
    int v[2] = { l > 32767 ? 32767 : l < 0 ? 0 : (int)floor(l), h > 32767 ? 32767 : (int)ceil(h) };
    if (a != a || lo != lo) { v[0] = 0; v[1] = 32767; }
    jintArray out = (*e)->NewIntArray(e, 2);
    (*e)->SetIntArrayRegion(e, out, 0, 2, (jint *)v);
    return out;
}

static double worstFit = 0, worstMag = 0;
JNIEXPORT jdouble JNICALL Java_ColdNative_worst(JNIEnv *e, jclass c, jint w) { return w ? worstMag : worstFit; }

/* does record k carry this fit (coefficients as curve and individually, error, zero padding)? */
JNIEXPORT jint JNICALL Java_ColdNative_matchFit(JNIEnv *e, jclass c, jint sid, jint k, jint fh_)
{
    series_t *s = &S[sid]; fit_t *f = getfit(fh_);
    if (k < 0 || k >= s->nrec) return 0;
    double worst = 0;
    for (int b = 0; b < NB; b++) {
        float *ac = s->coefs + (k * NB + b) * MAXC, ar = s->rmse[k * NB + b];
        if (f->coefs[b][0] != f->coefs[b][0]) continue;
        double tol = 0.5 + 0.02 * fmax(f->rmse[b], s->min_rmse[b]);
        double d = fabs((double)ar - f->rmse[b]) / tol;
        if (!(d <= worst)) worst = d;
        for (int j = f->df; j < MAXC; j++) if (ac[j] != 0) return 0;
        for (int i = 0; i < f->n; i += (f->n > 40 ? 7 : 3)) {
            d = fabs(harmonic(ac, f->df, s->x[f->obs[i]]) - harmonic(f->coefs[b], f->df, s->x[f->obs[i]])) / tol;
            if (!(d <= worst)) worst = d;
        }
        double span = s->x[f->obs[f->n - 1]] - s->x[f->obs[0]] + 1;
        for (int j = 1; j < f->df; j++) {
            d = fabs((double)ac[j] - f->coefs[b][j]) * (j == 1 ? span / 10000 : 1) / (3 * tol);
            if (!(d <= worst)) worst = d;
        }
    }
    if (worst == worst && worst <= 1 && worst > worstFit) worstFit = worst;
    return worst <= 1;
}
/* median deviation of these residuals, with sign; empty list: zero */
JNIEXPORT jint JNICALL Java_ColdNative_matchMag(JNIEnv *e, jclass c, jint sid, jint k, jintArray ja, jint sign)
{
    res_t r[64]; int n = getrs(e, ja, r); series_t *s = &S[sid];
    if (k < 0 || k >= s->nrec) return 0;
    for (int b = 0; b < NB; b++) {
        float v[64], m = 0;
        for (int i = 0; i < n; i++) v[i] = r[i].dif[b];
        if (n) { qsort(v, n, sizeof(float), cmp_float); m = sign * median_sorted(v, n); }
        double d = fabs((double)s->mag[k * NB + b] - m), tol = n ? 0.5 + 0.02 * s->min_rmse[b] + 2e-3 * fabs(m) : 0;
        if (!(d <= tol)) return 0;
        if (n && d / tol > worstMag) worstMag = d / tol;
    }
    return 1;
}
/* text of what record k holds versus a fit, for reports */
JNIEXPORT jstring JNICALL Java_ColdNative_describe(JNIEnv *e, jclass c, jint sid, jint k, jint fh_)
{
    char buf[1024]; int n = 0; series_t *s = &S[sid]; fit_t *f = fh_ >= 0 ? getfit(fh_) : 0;
    for (int b = 0; b < NB && k >= 0 && k < s->nrec; b++) {
        float *ac = s->coefs + (k * NB + b) * MAXC;
        n += snprintf(buf + n, sizeof buf - n, "b%d real(a0=%.3f c1=%.4f a1=%.3f rmse=%.3f)", b, ac[0], ac[1], ac[2], s->rmse[k * NB + b]);
        if (f) n += snprintf(buf + n, sizeof buf - n, " spec(%.3f %.4f %.3f %.3f); ", f->coefs[b][0], f->coefs[b][1], f->coefs[b][2], f->rmse[b]);
        if (n > 900) break;
    }
    return (*e)->NewStringUTF(e, buf);
}
