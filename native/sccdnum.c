/* JNI bridge: numeric oracle of the S-CCD specification (module SccdNum). */
#include <jni.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "num.h"
#define SB 6               /* bands of S-CCD */
#define NS_ 6              /* states: level, slope, annual pair, semiannual pair */
#define LOOKBACK_MAX 30.8562
#define MONITOR_MAX 25.7448
#define EPS_MAG 5e-3
#define EPS_ANG 0.15

typedef struct { float coefs[SB][NS_]; float cov[SB][36]; float H[SB]; unsigned sum[SB]; int num; } model_t;
typedef struct { int tb; float coefs[SB][NS_]; } pin_t;
typedef struct {
    int n, conse, nrec, hasin, hasout, npin;
    float tcg, gate, pred;
    int *x; float *y[SB]; float min_rmse[SB];
    float *coefs, *rmse, *mag;     /* records handed out: nrec x SB (x NS_) */
    model_t in, out;
    float *pin;                    /* pinpoint anomalies: npin x SB x NS_ */
} call_t;
typedef struct { int sid, n; int *obs; float coefs[SB][MAXC]; float rmse[SB]; } f4_t;
typedef struct { int sid, num; float coefs[SB][NS_]; double P[SB][21]; float H[SB]; unsigned sum[SB]; } kf_t;
typedef struct { int sid; float dif[SB]; float z[NLB]; double mag; } off_t_;

static call_t *S; static int NS;
static f4_t **F; static int NF, CF;
static kf_t **K; static int NK, CK;
static off_t_ *R; static int NR, CR;
static pthread_rwlock_t L = PTHREAD_RWLOCK_INITIALIZER;

static void rd(void *p, size_t s, size_t n, FILE *f) { if (n && fread(p, s, n, f) != n) { fprintf(stderr, "oracle: short data file\n"); exit(3); } }
static void rdmodel(model_t *m, FILE *f)
{
    rd(m->coefs, 4, SB * NS_, f); rd(m->cov, 4, SB * 36, f); rd(m->H, 4, SB, f); rd(m->sum, 4, SB, f); rd(&m->num, 4, 1, f);
}
JNIEXPORT jint JNICALL Java_SccdNative_load(JNIEnv *e, jclass c, jstring path)
{
    const char *p = (*e)->GetStringUTFChars(e, path, 0);
    FILE *f = fopen(p, "rb");
    if (!f) { perror(p); exit(3); }
    rd(&NS, 4, 1, f);
    S = calloc(NS, sizeof(call_t));
    for (int s = 0; s < NS; s++) {
        call_t *q = &S[s];
        rd(&q->n, 4, 1, f); rd(&q->conse, 4, 1, f); rd(&q->nrec, 4, 1, f); rd(&q->hasin, 4, 1, f); rd(&q->hasout, 4, 1, f); rd(&q->npin, 4, 1, f);
        rd(&q->tcg, 4, 1, f); rd(&q->gate, 4, 1, f); rd(&q->pred, 4, 1, f);
        q->x = malloc(4 * (q->n + 1)); rd(q->x, 4, q->n, f);
        for (int b = 0; b < SB; b++) { q->y[b] = malloc(4 * (q->n + 1)); rd(q->y[b], 4, q->n, f); }
        q->coefs = malloc(4 * (q->nrec * SB * NS_ + 1)); rd(q->coefs, 4, q->nrec * SB * NS_, f);
        q->rmse = malloc(4 * (q->nrec * SB + 1)); rd(q->rmse, 4, q->nrec * SB, f);
        q->mag = malloc(4 * (q->nrec * SB + 1)); rd(q->mag, 4, q->nrec * SB, f);
        if (q->hasin) rdmodel(&q->in, f);
        if (q->hasout) rdmodel(&q->out, f);
        q->pin = malloc(4 * (q->npin * SB * NS_ + 1)); rd(q->pin, 4, q->npin * SB * NS_, f);
    }
    fclose(f);
    return NS;
}
JNIEXPORT void JNICALL Java_SccdNative_start(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    int v[SB];
    (*e)->GetIntArrayRegion(e, ja, 0, SB, (jint *)v);
    for (int b = 0; b < SB; b++) S[sid].min_rmse[b] = v[b];
}

/* ---- handles ---- */
#define HB 65536
static unsigned hashi(const int *v, int n, unsigned h) { for (int i = 0; i < n; i++) { h ^= (unsigned)v[i]; h *= 16777619u; h ^= h >> 13; } return h; }
static int *fh[HB], fhn[HB], fhc[HB];
static int find_fit(int sid, const int *obs, int n, unsigned h)
{
    for (int i = 0; i < fhn[h]; i++) { f4_t *q = F[fh[h][i]]; if (q->sid == sid && q->n == n && !memcmp(q->obs, obs, 4 * n)) return fh[h][i]; }
    return -1;
}
static void fitall(int sid, const int *obs, int n, int df, float coefs[SB][MAXC], float *rmse)
{
    call_t *s = &S[sid];
    int *x = malloc(4 * n); float *y = malloc(4 * n);
    for (int i = 0; i < n; i++) x[i] = s->x[obs[i]];
    for (int b = 0; b < SB; b++) {
        for (int i = 0; i < n; i++) y[i] = s->y[b][obs[i]];
        fit_band_sccd(x, y, n, df, coefs[b], &rmse[b], 20.0f);
    }
    free(x); free(y);
}
JNIEXPORT jint JNICALL Java_SccdNative_fit4(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    int n = (*e)->GetArrayLength(e, ja), *obs = malloc(4 * (n + 1));
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)obs);
    unsigned h = hashi(obs, n, 2166136261u ^ (sid * 31)) % HB;
    pthread_rwlock_rdlock(&L);
    int r = find_fit(sid, obs, n, h);
    pthread_rwlock_unlock(&L);
    if (r >= 0) { free(obs); return r; }
    f4_t *q = calloc(1, sizeof *q);
    q->sid = sid; q->n = n; q->obs = obs;
    fitall(sid, obs, n, 4, q->coefs, q->rmse);
    pthread_rwlock_wrlock(&L);
    r = find_fit(sid, obs, n, h);
    if (r < 0) {
        if (NF == CF) { CF = CF ? 2 * CF : 1024; F = realloc(F, CF * sizeof(f4_t *)); }
        r = NF; F[NF++] = q;
        if (fhn[h] == fhc[h]) { fhc[h] = fhc[h] ? 2 * fhc[h] : 4; fh[h] = realloc(fh[h], 4 * fhc[h]); }
        fh[h][fhn[h]++] = r;
    }
    pthread_rwlock_unlock(&L);
    return r;
}
static f4_t *getfit(int h) { pthread_rwlock_rdlock(&L); f4_t *r = F[h]; pthread_rwlock_unlock(&L); return r; }
static kf_t *getkf(int h) { pthread_rwlock_rdlock(&L); kf_t *r = K[h]; pthread_rwlock_unlock(&L); return r; }
static off_t_ getoff(int h) { pthread_rwlock_rdlock(&L); off_t_ r = R[h]; pthread_rwlock_unlock(&L); return r; }

/* ---- state-space model: level+slope, annual and semiannual cycles, daily steps ---- */
static const double WY = 2.0 * 3.1415926535897935 / 365.25;
#define U(i, j) ((i) <= (j) ? (i) * 6 - (i) * ((i) - 1) / 2 + (j) - (i) : (j) * 6 - (j) * ((j) - 1) / 2 + (i) - (j))
static void step_P(double *P)       /* one day: rotate and add the process noise */
{
    double c1 = cos(WY), s1 = sin(WY), c2 = cos(WY * 2.0), s2 = sin(WY * 2.0), A[6][6], B[6][6];
    for (int j = 0; j < 6; j++) {   /* T P */
        double p[6];
        for (int i = 0; i < 6; i++) p[i] = P[U(i, j)];
        A[0][j] = p[0] + p[1]; A[1][j] = p[1];
        A[2][j] = c1 * p[2] + s1 * p[3]; A[3][j] = -s1 * p[2] + c1 * p[3];
        A[4][j] = c2 * p[4] + s2 * p[5]; A[5][j] = -s2 * p[4] + c2 * p[5];
    }
    for (int i = 0; i < 6; i++) {   /* ... T' */
        double *p = A[i];
        B[i][0] = p[0] + p[1]; B[i][1] = p[1];
        B[i][2] = c1 * p[2] + s1 * p[3]; B[i][3] = -s1 * p[2] + c1 * p[3];
        B[i][4] = c2 * p[4] + s2 * p[5]; B[i][5] = -s2 * p[4] + c2 * p[5];
    }
    for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) P[U(i, j)] = B[i][j];
    for (int i = 0; i < 6; i++) P[U(i, i)] += i == 1 ? 0.1 / 1000000 : 0.1;
}
/* filter an observation y of day d and go on to day d1; returns the innovation */
static double filter(float *c, double *P, float H, float y, int d, int d1)
{
    double a[6], kt[6], ft = H, v = y, d0 = d;
    if (d1 <= d) return 0;
    a[1] = (double)c[1] / 10000; a[0] = c[0] + d * a[1];
    for (int h = 1; h <= 2; h++) {
        double co = h == 1 ? cos(d0 * WY) : cos(d0 * 2 * WY), si = h == 1 ? sin(d0 * WY) : sin(d0 * 2 * WY);
        a[2 * h] = c[2 * h] * co + c[2 * h + 1] * si; a[2 * h + 1] = -c[2 * h] * si + c[2 * h + 1] * co;
    }
    for (int i = 0; i < 6; i++) kt[i] = P[U(i, 0)] + P[U(i, 2)] + P[U(i, 4)];
    ft += kt[0] + kt[2] + kt[4];
    v -= a[0] + a[2] + a[4];
    if (ft > 1e-14) {
        for (int i = 0; i < 6; i++) a[i] += kt[i] * v / ft;
        for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) P[U(i, j)] -= kt[i] * kt[j] / ft;
    }
    double c1 = cos(WY), s1 = sin(WY), c2 = cos(WY * 2.0), s2 = sin(WY * 2.0), n[6];
    n[0] = a[0] + a[1]; n[1] = a[1];
    n[2] = c1 * a[2] + s1 * a[3]; n[3] = -s1 * a[2] + c1 * a[3];
    n[4] = c2 * a[4] + s2 * a[5]; n[5] = -s2 * a[4] + c2 * a[5];
    d0 = d + 1;
    c[0] = (float)(n[0] - n[1] * (d + 1)); c[1] = (float)(n[1] * 10000);
    for (int h = 1; h <= 2; h++) {
        double co = h == 1 ? cos(d0 * WY) : cos(d0 * 2 * WY), si = h == 1 ? sin(d0 * WY) : sin(d0 * 2 * WY);
        c[2 * h] = (float)(co * n[2 * h] - si * n[2 * h + 1]); c[2 * h + 1] = (float)(co * n[2 * h + 1] + si * n[2 * h]);
    }
    for (int k = 0; k < d1 - d; k++) step_P(P);
    return v;
}
static double predict(const float *c, int d)
{
    double t = d;
    return c[0] + c[1] * (float)d / 10000 + c[2] * cos(t * WY) + c[3] * sin(t * WY) + c[4] * cos(t * 2 * WY) + c[5] * sin(t * 2 * WY);
}

typedef struct { int a, b, c, d, h; } key4;
static key4 *kh[HB]; static int khn[HB], khc[HB];
static int find_k(int a, int b, int c, int d, unsigned h)
{
    for (int i = 0; i < khn[h]; i++) if (kh[h][i].a == a && kh[h][i].b == b && kh[h][i].c == c && kh[h][i].d == d) return kh[h][i].h;
    return -1;
}
static int put_kf(kf_t *q, int a, int b, int c, int d)    /* keyed; the first one in stays */
{
    int key[4] = {a, b, c, d};
    unsigned h = hashi(key, 4, 99u) % HB;
    pthread_rwlock_wrlock(&L);
    int r = a >= 0 ? find_k(a, b, c, d, h) : -1;
    if (r < 0) {
        if (NK == CK) { CK = CK ? 2 * CK : 4096; K = realloc(K, CK * sizeof(kf_t *)); }
        r = NK; K[NK++] = q;
        if (a >= 0) {
            if (khn[h] == khc[h]) { khc[h] = khc[h] ? 2 * khc[h] : 4; kh[h] = realloc(kh[h], sizeof(key4) * khc[h]); }
            kh[h][khn[h]++] = (key4){a, b, c, d, r};
        }
    } else free(q);
    pthread_rwlock_unlock(&L);
    return r;
}
static int get_k(int a, int b, int c, int d)
{
    int key[4] = {a, b, c, d};
    unsigned h = hashi(key, 4, 99u) % HB;
    pthread_rwlock_rdlock(&L);
    int r = find_k(a, b, c, d, h);
    pthread_rwlock_unlock(&L);
    return r;
}
/* model from observations: fit, then two passes of the filter; snow: four coefficients, plain error as noise */
JNIEXPORT jint JNICALL Java_SccdNative_kinit(JNIEnv *e, jclass c, jint sid, jintArray ja, jint next, jint snow)
{
    call_t *s = &S[sid];
    int n = (*e)->GetArrayLength(e, ja), *obs = malloc(4 * (n + 1));
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)obs);
    kf_t *q = calloc(1, sizeof *q);
    float cf[SB][MAXC], rmse[SB];
    fitall(sid, obs, n, snow ? 4 : 6, cf, rmse);
    q->sid = sid; q->num = n;
    int *x = malloc(4 * (2 * n + 1)), first = s->x[obs[0]], last = s->x[obs[n - 1]];
    int years = (int)ceil((last - first + 1) / 365.25);
    for (int i = 0; i < n; i++) { x[i] = (int)(s->x[obs[i]] - years * 365.25); x[n + i] = s->x[obs[i]]; }
    x[2 * n] = next >= 0 ? s->x[next] : last;
    for (int b = 0; b < SB; b++) {
        memcpy(q->coefs[b], cf[b], sizeof q->coefs[b]);
        q->H[b] = snow ? rmse[b] : rmse[b] * rmse[b];
        memset(q->P[b], 0, sizeof q->P[b]);
        for (int i = 0; i < 6; i++) q->P[b][U(i, i)] = i == 1 ? 10000.0f / 1000000 : 10000.0f;
        double v = 0;
        for (int i = 0; i < 2 * n; i++) {
            if (x[i + 1] > x[i]) v = filter(q->coefs[b], q->P[b], q->H[b], s->y[b][obs[i % n]], x[i], x[i + 1]);
            if (i >= n) q->sum[b] += (unsigned)(v * v);
        }
    }
    free(obs); free(x);
    return put_kf(q, -1, 0, 0, 0);
}
JNIEXPORT jint JNICALL Java_SccdNative_kload(JNIEnv *e, jclass c, jint sid)
{
    call_t *s = &S[sid];
    kf_t *q = calloc(1, sizeof *q);
    q->sid = sid; q->num = s->in.num;
    memcpy(q->coefs, s->in.coefs, sizeof q->coefs); memcpy(q->H, s->in.H, sizeof q->H); memcpy(q->sum, s->in.sum, sizeof q->sum);
    for (int b = 0; b < SB; b++) for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) q->P[b][U(i, j)] = s->in.cov[b][i * 6 + j];
    return put_kf(q, -1, 0, 0, 0);
}
JNIEXPORT jint JNICALL Java_SccdNative_kstep(JNIEnv *e, jclass c, jint sid, jint k, jint o, jint next, jint skip)
{
    int r = get_k(k, o, next, skip);
    if (r >= 0) return r;
    call_t *s = &S[sid]; kf_t *p = getkf(k), *q = malloc(sizeof *q);
    *q = *p;
    for (int b = 0; b < SB; b++) {
        int d = s->x[o], d1 = s->x[next];
        if (skip) for (int t = 0; t < d1 - d; t++) step_P(q->P[b]);
        else {
            double v = filter(q->coefs[b], q->P[b], q->H[b], s->y[b][o], d, d1);
            q->sum[b] = (unsigned)(q->sum[b] + v * v);
        }
    }
    if (!skip) q->num++;
    return put_kf(q, k, o, next, skip);
}

/* ---- deviations.  kind 0: from a harmonic model, 1: from a state-space model ---- */
static key4 *rh[HB]; static int rhn[HB], rhc[HB];
static int find_r(int a, int b, int c, unsigned h)
{
    for (int i = 0; i < rhn[h]; i++) if (rh[h][i].a == a && rh[h][i].b == b && rh[h][i].c == c) return rh[h][i].h;
    return -1;
}
JNIEXPORT jint JNICALL Java_SccdNative_off(JNIEnv *e, jclass c, jint sid, jint m, jint o, jint kind)
{
    int key[3] = {m, o, kind};
    unsigned h = hashi(key, 3, 7u) % HB;
    pthread_rwlock_rdlock(&L);
    int r = find_r(m, o, kind, h);
    pthread_rwlock_unlock(&L);
    if (r >= 0) return r;
    call_t *s = &S[sid];
    off_t_ q; memset(&q, 0, sizeof q); q.sid = sid;
    float err[SB];
    if (kind == 0) {
        f4_t *f = getfit(m);
        for (int b = 0; b < SB; b++) { q.dif[b] = s->y[b][o] - harmonic(f->coefs[b], 4, s->x[o]); err[b] = f->rmse[b]; }
    } else {
        kf_t *f = getkf(m);
        for (int b = 0; b < SB; b++) { q.dif[b] = s->y[b][o] - (float)predict(f->coefs[b], s->x[o]); err[b] = sqrtf((float)f->sum[b] / (f->num - 6)); }
    }
    for (int j = 0; j < NLB; j++) {
        q.z[j] = q.dif[j + 1] / fmaxf(s->min_rmse[j + 1], err[j + 1]);
        q.mag += (double)q.z[j] * q.z[j];
    }
    pthread_rwlock_wrlock(&L);
    r = find_r(m, o, kind, h);
    if (r < 0) {
        if (NR == CR) { CR = CR ? 2 * CR : 4096; R = realloc(R, CR * sizeof(off_t_)); }
        r = NR; R[NR++] = q;
        if (rhn[h] == rhc[h]) { rhc[h] = rhc[h] ? 2 * rhc[h] : 4; rh[h] = realloc(rh[h], sizeof(key4) * rhc[h]); }
        rh[h][rhn[h]++] = (key4){m, o, kind, 0, r};
    }
    pthread_rwlock_unlock(&L);
    return r;
}
static int above(double v, double t)      /* bit 1: may be above, bit 2: may not */
{
    if (v != v) return 3;
    return (v > t * (1 - EPS_MAG) ? 1 : 0) | (v <= t * (1 + EPS_MAG) ? 2 : 0);
}
static int getrs(JNIEnv *e, jintArray ja, off_t_ *out)
{
    int n = (*e)->GetArrayLength(e, ja), v[64];
    if (n > 64) exit(3);
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)v);
    for (int i = 0; i < n; i++) out[i] = getoff(v[i]);
    return n;
}
/* mean angle between successive deviations; (nearly) parallel ones: the single-precision arc cosine is rounding */
static double angle_of(off_t_ *r, int n, double *eps)
{
    float z[64][NLB];
    *eps = EPS_ANG;
    for (int i = 0; i < n; i++) memcpy(z[i], r[i].z, sizeof z[i]);
    for (int i = 0; i + 1 < n; i++) {
        double a = mean_angle(z + i, 2);
        if (!(a > 1)) return NAN;
        if (a < 5) *eps += 0.5 / n;
    }
    return mean_angle(z, n);
}
static double minmag(off_t_ *r, int n) { double m = 9999; for (int i = 0; i < n; i++) if (!(r[i].mag >= m)) m = r[i].mag; return m; }
/* all beyond the threshold and in one direction */
JNIEXPORT jint JNICALL Java_SccdNative_confirm(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    off_t_ r[64]; int n = getrs(e, ja, r), m = above(minmag(r, n), S[sid].tcg), g;
    double ea, a = n > 1 ? angle_of(r, n, &ea) : (ea = 0, 0);
    if (a != a) {   /* parallel for rounding's sake: coherent, unless the rest is scattered */
        float z[64][NLB];
        for (int i = 0; i < n; i++) memcpy(z[i], r[i].z, sizeof z[i]);
        a = mean_angle(z, n);
        g = a != a ? 3 : a < 40 ? 1 : 3;
    } else g = (a < 45 + ea ? 1 : 0) | (a > 45 - ea ? 2 : 0);
    return ((m & 1) && (g & 1) ? 1 : 0) | ((m & 2) || (g & 2) ? 2 : 0);
}
JNIEXPORT jint JNICALL Java_SccdNative_extreme(JNIEnv *e, jclass c, jint h, jint kind) { return above(getoff(h).mag, kind ? MONITOR_MAX : LOOKBACK_MAX); }
JNIEXPORT jint JNICALL Java_SccdNative_gate(JNIEnv *e, jclass c, jint sid, jint h) { return above(getoff(h).mag, S[sid].gate); }
JNIEXPORT jint JNICALL Java_SccdNative_quiet(JNIEnv *e, jclass c, jint sid, jint h)
{
    int v = above(getoff(h).mag, S[sid].pred);
    return (v & 2 ? 1 : 0) | (v & 1 ? 2 : 0);
}
JNIEXPORT jint JNICALL Java_SccdNative_stronger(JNIEnv *e, jclass c, jint sid, jintArray ja, jintArray jb)
{
    off_t_ r[64]; int n = getrs(e, ja, r);
    double a = minmag(r, n);
    n = getrs(e, jb, r);
    return above(a, minmag(r, n));
}
JNIEXPORT jint JNICALL Java_SccdNative_stable(JNIEnv *e, jclass c, jint sid, jint h)
{
    f4_t *f = getfit(h); call_t *s = &S[sid];
    double sum = 0; int o0 = f->obs[0], o1 = f->obs[f->n - 1];
    for (int j = 0; j < NLB; j++) {
        int b = j + 1; double m = fmax(s->min_rmse[b], f->rmse[b]);
        double v0 = (s->y[b][o0] - harmonic(f->coefs[b], 4, s->x[o0])) / m, v1 = (s->y[b][o1] - harmonic(f->coefs[b], 4, s->x[o1])) / m;
        double sl = (double)f->coefs[b][1] * (s->x[o1] - s->x[o0]) / m / 10000.0, d = fabs(sl) + fmax(fabs(v0), fabs(v1));
        sum += d * d;
    }
    int x = above(sum, s->tcg);
    return ((x & 2) ? 1 : 0) | ((x & 1) ? 2 : 0);
}
JNIEXPORT jdoubleArray JNICALL Java_SccdNative_mask(JNIEnv *e, jclass c, jint sid, jintArray ja, jint years, jint jitter)
{
    call_t *s = &S[sid];
    int n = (*e)->GetArrayLength(e, ja), *obs = malloc(4 * (n + 1)), *x = malloc(4 * (n + 1));
    float *g = malloc(4 * (n + 1)), *w = malloc(4 * (n + 1)); double *sc = malloc(8 * (n + 1));
    (*e)->GetIntArrayRegion(e, ja, 0, n, (jint *)obs);
    for (int i = 0; i < n; i++) { x[i] = s->x[obs[i]]; g[i] = s->y[1][obs[i]]; w[i] = s->y[4][obs[i]]; }
    mask_scores(x, g, w, n, years, s->min_rmse[1], s->min_rmse[4], sc, (unsigned)jitter);
    jdoubleArray out = (*e)->NewDoubleArray(e, n);
    (*e)->SetDoubleArrayRegion(e, out, 0, n, sc);
    free(obs); free(x); free(g); free(w); free(sc);
    return out;
}
/* smallest deviation and mean angle, hundredfold: admissible intervals */
JNIEXPORT jintArray JNICALL Java_SccdNative_cm(JNIEnv *e, jclass c, jint sid, jintArray ja)
{
    off_t_ r[64]; int n = getrs(e, ja, r), v[4];
    double m = minmag(r, n) * 100, ea = 0, a = n > 1 ? angle_of(r, n, &ea) : 0;
    double l = m * (1 - 1e-3) - 1, h = m * (1 + 1e-3) + 1;
    v[0] = l > 32767 ? 32767 : (int)floor(l); v[1] = h > 32767 ? 32767 : (int)ceil(h);
    if (m != m) { v[0] = -32768; v[1] = 32767; }
    v[2] = (int)floor((a - ea) * 100) - 1; v[3] = (int)ceil((a + ea) * 100) + 1;
    if (n == 1) v[2] = v[3] = 0;
    if (a != a) { v[2] = -32768; v[3] = 32767; }
    jintArray out = (*e)->NewIntArray(e, 4);
    (*e)->SetIntArrayRegion(e, out, 0, 4, (jint *)v);
    return out;
}

static double worst[8];
JNIEXPORT jdouble JNICALL Java_SccdNative_worst(JNIEnv *e, jclass c, jint w) { return worst[w]; }
static int ok(double d, int w) { if (d == d && d <= 1 && d > worst[w]) worst[w] = d; return d <= 1; }

JNIEXPORT jint JNICALL Java_SccdNative_matchFit(JNIEnv *e, jclass c, jint sid, jint k, jint h)
{
    call_t *s = &S[sid]; f4_t *f = getfit(h);
    if (k < 0 || k >= s->nrec) return 0;
    double w = 0;
    for (int b = 0; b < SB; b++) {
        float *ac = s->coefs + (k * SB + b) * NS_, ar = s->rmse[k * SB + b], full[MAXC] = {0};
        memcpy(full, ac, 4 * NS_);
        double tol = 0.5 + 0.02 * fmax(f->rmse[b], s->min_rmse[b]), d = fabs((double)ar - f->rmse[b]) / tol;
        if (!(d <= w)) w = d;
        if (ac[4] != 0 || ac[5] != 0) return 0;
        for (int i = 0; i < f->n; i += (f->n > 40 ? 7 : 3)) {
            d = fabs(harmonic(full, 4, s->x[f->obs[i]]) - harmonic(f->coefs[b], 4, s->x[f->obs[i]])) / tol;
            if (!(d <= w)) w = d;
        }
        double span = s->x[f->obs[f->n - 1]] - s->x[f->obs[0]] + 1;
        for (int j = 1; j < 4; j++) { d = fabs((double)ac[j] - f->coefs[b][j]) * (j == 1 ? span / 10000 : 1) / (3 * tol); if (!(d <= w)) w = d; }
    }
    return ok(w, 0);
}
/* coefficients of a band: as a curve over two years around day d, and each on its own */
static double cdist(const float *a, const float *r, int d, double tol)
{
    double w = 0, v;
    for (int t = -365; t <= 365; t += 73) { v = fabs(predict(a, d + t) - predict(r, d + t)) / tol; if (!(v <= w)) w = v; }
    for (int j = 1; j < NS_; j++) { v = fabs((double)a[j] - r[j]) * (j == 1 ? 365 / 10000.0 : 1) / (2 * tol); if (!(v <= w)) w = v; }
    return w;
}
static int matchc(call_t *s, const float *ac, const float *rc, int b, double err, int d, int w)
{
    return ok(cdist(ac, rc, d, 0.25 + 0.01 * fmax(err, s->min_rmse[b])), w);
}
JNIEXPORT jint JNICALL Java_SccdNative_matchKf(JNIEnv *e, jclass c, jint sid, jint k, jint h, jint o)
{
    call_t *s = &S[sid]; kf_t *f = getkf(h);
    if (k < 0 || k >= s->nrec) return 0;
    int good = 1;
    for (int b = 0; b < SB; b++) {
        double r = sqrt((double)f->sum[b] / (f->num - 6));
        good &= matchc(s, s->coefs + (k * SB + b) * NS_, f->coefs[b], b, r, s->x[o], 1);
        good &= ok(fabs(s->rmse[k * SB + b] - r) / (0.1 + 0.01 * r), 2);
    }
    return good;
}
JNIEXPORT jint JNICALL Java_SccdNative_matchPin(JNIEnv *e, jclass c, jint sid, jint k, jint h, jint o)
{
    call_t *s = &S[sid]; kf_t *f = getkf(h);
    if (k < 0 || k >= s->npin) return 0;
    int good = 1;
    for (int b = 0; b < SB; b++) good &= matchc(s, s->pin + (k * SB + b) * NS_, f->coefs[b], b, sqrt((double)f->sum[b] / (f->num - 6)), s->x[o], 1);
    return good;
}
/* bits of what differs in the model handed out: 1 coefficients, 2 covariance, 4 noise, 8 squared residuals */
JNIEXPORT jint JNICALL Java_SccdNative_matchModel(JNIEnv *e, jclass c, jint sid, jint h, jint o)
{
    call_t *s = &S[sid]; kf_t *f = getkf(h); int bad = 0;
    if (!s->hasout) return 15;
    for (int b = 0; b < SB; b++) {
        double r = sqrt((double)f->sum[b] / (f->num > 6 ? f->num - 6 : 1));
        if (!matchc(s, s->out.coefs[b], f->coefs[b], b, r, s->x[o], 1)) bad |= 1;
        for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
            double tol = 0.01 * sqrt(fabs(f->P[b][U(i, i)] * f->P[b][U(j, j)])) + 1e-9;
            if (!ok(fabs(s->out.cov[b][i * 6 + j] - f->P[b][U(i, j)]) / tol, 3)) bad |= 2;
        }
        if (!ok(fabs(s->out.H[b] - f->H[b]) / (0.05 + 0.01 * f->H[b]), 4)) bad |= 4;
        double ds = s->out.sum[b] > f->sum[b] ? s->out.sum[b] - f->sum[b] : f->sum[b] - s->out.sum[b];
        if (!ok(ds / (0.01 * f->sum[b] + 4.0 * f->num), 5)) bad |= 8;
    }
    return bad;
}
/* median deviation, with sign */
JNIEXPORT jint JNICALL Java_SccdNative_matchMag(JNIEnv *e, jclass c, jint sid, jint k, jintArray ja, jint sign)
{
    off_t_ r[64]; int n = getrs(e, ja, r); call_t *s = &S[sid];
    if (k < 0 || k >= s->nrec) return 0;
    for (int b = 0; b < SB; b++) {
        float v[64];
        for (int i = 0; i < n; i++) v[i] = r[i].dif[b];
        qsort(v, n, sizeof(float), cmp_float);
        double m = sign * median_sorted(v, n);
        if (!ok(fabs(s->mag[k * SB + b] - m) / (0.5 + 0.02 * s->min_rmse[b] + 2e-3 * fabs(m)), 6)) return 0;
    }
    return 1;
}
