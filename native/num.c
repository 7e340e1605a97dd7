#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <gsl/gsl_multifit.h>
#include <gsl/gsl_linalg.h>
#include <gsl/gsl_blas.h>
#include <gsl/gsl_statistics.h>
#include <gsl/gsl_sort_vector.h>
#include "num.h"

#define YEAR 365.25
static const double W2PI = 2.0 * 3.14159265358979323846;

int cmp_float(const void *a, const void *b) { float x = *(const float *)a, y = *(const float *)b; return x < y ? -1 : x > y; }

float median_sorted(float *v, int n)
{
    int m = n / 2;
    return n % 2 ? v[m] : (float)((v[m - 1] + v[m]) / 2.0);
}

/* value of the harmonic model at a date (time term is stored x10000) */
float harmonic(const float *c, int df, int date)
{
    float w = (float)(W2PI / YEAR), t = (float)date, w2 = 2 * w, w3 = 3 * w;
    float p = c[0] + c[1] * t / 10000;
    if (df >= 4) p = p + c[2] * cosf(t * w) + c[3] * sinf(t * w);
    if (df >= 6) p = p + c[4] * cosf(t * w2) + c[5] * sinf(t * w2);
    if (df >= 8) p = p + c[6] * cosf(t * w3) + c[7] * sinf(t * w3);
    return p;
}

/* lasso by cyclic coordinate descent on standardised predictors, covariance updates,
 * single precision, tolerance 1e-4, penalty lambda (in units of y) */
/* dbl: the semiannual angle is formed in double precision (S-CCD) */
static void lasso_core(const int *x, const float *y0, int n, int df, float *coef, float lambda, int dbl)
{
    int ni = df - 1, j, k, l, i;
    float w = (float)(W2PI / YEAR);
    float *X[MAXC], *y = malloc(n * sizeof(float)), *buf = malloc((size_t)n * ni * sizeof(float));
    for (j = 0; j < ni; j++) X[j] = buf + (size_t)j * n;
    for (i = 0; i < n; i++) {
        float t = (float)x[i];
        X[0][i] = t;
        if (ni >= 3) { X[1][i] = cosf(w * t); X[2][i] = sinf(w * t); }
        if (ni >= 5) { X[3][i] = cosf(2 * w * t); X[4][i] = sinf(2 * w * t); }
        if (dbl) {
            X[1][i] = (float)cos((double)(w * t)); X[2][i] = (float)sin((double)(w * t));
            if (ni >= 5) { X[3][i] = (float)cos(2.0 * w * t); X[4][i] = (float)sin(2.0 * w * t); }
        }
        if (ni >= 7) { X[5][i] = cosf(3 * w * t); X[6][i] = sinf(3 * w * t); }
        y[i] = y0[i];
    }
    float wt, v, sw = 0;
    for (i = 0; i < n; i++) sw += 1.0f;
    wt = 1.0f / sw; v = sqrtf(wt);
    float xm[MAXC], xs[MAXC], g[MAXC], a[MAXC] = {0}, ym, ys;
    int ju[MAXC], mm[MAXC] = {0}, ia[MAXC], nin = 0;
    float c[MAXC][MAXC], da[MAXC];
    for (j = 0; j < ni; j++) {
        ju[j] = 0;
        for (i = 1; i < n; i++) if (X[j][i] != X[j][0]) { ju[j] = 1; break; }
        if (!ju[j]) continue;
        float s = 0; for (i = 0; i < n; i++) s += wt * X[j][i];
        xm[j] = s;
        for (i = 0; i < n; i++) X[j][i] = v * (X[j][i] - xm[j]);
        float xv = 0; for (i = 0; i < n; i++) xv += X[j][i] * X[j][i];
        xs[j] = sqrtf(xv);
        for (i = 0; i < n; i++) X[j][i] = X[j][i] / xs[j];
    }
    ym = 0; for (i = 0; i < n; i++) ym += wt * y[i];
    for (i = 0; i < n; i++) y[i] = v * (y[i] - ym);
    ys = 0; for (i = 0; i < n; i++) ys += y[i] * y[i];
    ys = sqrtf(ys);
    for (i = 0; i < n; i++) y[i] = y[i] / ys;
    for (j = 0; j < ni; j++) { g[j] = 0; if (ju[j]) for (i = 0; i < n; i++) g[j] += y[i] * X[j][i]; }
    float ab = lambda / ys, thr = 1.0e-4f, dlx;
    for (long pass = 0; pass < 200000; pass++) {
        dlx = 0;
        for (k = 0; k < ni; k++) {
            if (!ju[k]) continue;
            float ak = a[k], u = g[k] + ak, vv = fabsf(u) - ab;
            a[k] = vv > 0 ? copysignf(vv, u) : 0;
            if (a[k] == ak) continue;
            if (!mm[k]) {
                for (j = 0; j < ni; j++) {
                    if (!ju[j]) continue;
                    if (mm[j]) c[j][nin] = c[k][mm[j] - 1];
                    else if (j == k) c[j][nin] = 1.0f;
                    else { float s = 0; for (i = 0; i < n; i++) s += X[j][i] * X[k][i]; c[j][nin] = s; }
                }
                ia[nin] = k; nin++; mm[k] = nin;
            }
            float del = a[k] - ak;
            if (fabsf(del) > dlx) dlx = fabsf(del);
            for (j = 0; j < ni; j++) if (ju[j]) g[j] -= c[j][mm[k] - 1] * del;
        }
        if (dlx < thr) break;
        for (l = 0; l < nin; l++) da[l] = a[ia[l]];
        for (long q = 0; q < 200000; q++) {
            dlx = 0;
            for (l = 0; l < nin; l++) {
                k = ia[l];
                float ak = a[k], u = g[k] + ak, vv = fabsf(u) - ab;
                a[k] = vv > 0 ? copysignf(vv, u) : 0;
                if (a[k] == ak) continue;
                float del = a[k] - ak;
                if (fabsf(del) > dlx) dlx = fabsf(del);
                for (j = 0; j < nin; j++) g[ia[j]] -= c[ia[j]][mm[k] - 1] * del;
            }
            if (dlx < thr) break;
        }
        for (l = 0; l < nin; l++) da[l] = a[ia[l]] - da[l];
        for (j = 0; j < ni; j++) {
            if (mm[j] || !ju[j]) continue;
            float s = 0; for (l = 0; l < nin; l++) s += da[l] * c[j][l];
            g[j] -= s;
        }
    }
    float a0 = 0, out[MAXC] = {0};
    for (l = 0; l < nin; l++) {
        k = ia[l];
        out[k + 1] = ys * a[k] / xs[k];
        a0 += out[k + 1] * xm[k];
    }
    out[0] = ym - a0;
    for (j = 0; j < MAXC; j++) coef[j] = 0;
    for (j = 0; j < df; j++) coef[j] = j == 1 ? (float)((double)out[1] * 10000) : out[j];
    free(buf); free(y);
}

void lasso_fit(const int *x, const float *y0, int n, int df, float *coef, float lambda) { lasso_core(x, y0, n, df, coef, lambda, 0); }

void fit_band_sccd(const int *x, const float *y, int n, int df, float *coef, float *rmse, float lambda)
{
    lasso_core(x, y, n, df, coef, lambda, 1);
    float s = 0;
    for (int i = 0; i < n; i++) { float r = y[i] - harmonic(coef, df, x[i]); s += r * r; }
    *rmse = sqrtf(s) / sqrtf((float)(n - df));
}

void fit_band(const int *x, const float *y, int n, int df, float *coef, float *rmse, float lambda)
{
    lasso_fit(x, y, n, df, coef, lambda);
    float s = 0;
    for (int i = 0; i < n; i++) { float r = y[i] - harmonic(coef, df, x[i]); s += r * r; }
    *rmse = sqrtf(s) / sqrtf((float)(n - df));
}

/* ---- robust regression on five columns (bisquare, at most five reweightings) ---- */
static double madsigma(const gsl_vector *r, gsl_vector *w, int p)
{
    size_t n = r->size, i;
    for (i = 0; i < n; i++) gsl_vector_set(w, i, fabs(gsl_vector_get(r, i)));
    gsl_sort_vector(w);
    return gsl_stats_median_from_sorted_data(w->data + p - 1, 1, n - p + 1) / 0.6745;
}

int robust5(const double *Xd, const double *yd, int n, double *cd)
{
    const int p = 5;
    if (n < p) return 1;
    gsl_matrix_const_view Xv = gsl_matrix_const_view_array(Xd, n, p);
    gsl_vector_const_view yv = gsl_vector_const_view_array(yd, n);
    gsl_matrix *cov = gsl_matrix_alloc(p, p);
    gsl_vector *c = gsl_vector_alloc(p), *cp = gsl_vector_alloc(p), *r = gsl_vector_alloc(n), *wts = gsl_vector_alloc(n),
               *rf = gsl_vector_alloc(n), *wk = gsl_vector_alloc(n);
    gsl_multifit_linear_workspace *ws = gsl_multifit_linear_alloc(n, p);
    double chisq, lower = 1.0e-6 * gsl_stats_sd(yd, 1, n);
    if (lower == 0.0) lower = 1.0;
    gsl_multifit_linear(&Xv.matrix, &yv.vector, c, cov, &chisq, ws);
    gsl_linalg_SV_leverage(ws->A, rf);
    for (int i = 0; i < n; i++) {
        double h = gsl_vector_get(rf, i);
        if (h > 0.9999) h = 0.9999;
        gsl_vector_set(rf, i, 1.0 / sqrt(1.0 - h));
    }
    gsl_multifit_linear_residuals(&Xv.matrix, &yv.vector, c, r);
    for (int it = 1; it <= 5; it++) {
        gsl_vector_mul(r, rf);
        double sig = madsigma(r, wk, p);
        if (sig < lower) sig = lower;
        for (int i = 0; i < n; i++) {
            double e = gsl_vector_get(r, i) * (1.0 / (sig * 4.685)), f = 1.0 - e * e;
            gsl_vector_set(wts, i, fabs(e) < 1.0 ? f * f : 0.0);
        }
        gsl_vector_memcpy(cp, c);
        gsl_multifit_wlinear(&Xv.matrix, wts, &yv.vector, c, cov, &chisq, ws);
        gsl_multifit_linear_residuals(&Xv.matrix, &yv.vector, c, r);
        int conv = 1;
        for (int i = 0; i < p; i++) {
            double a = gsl_vector_get(cp, i), b = gsl_vector_get(c, i);
            if (fabs(b - a) > 1.4901161193847656e-08 * fmax(fabs(a), fabs(b))) conv = 0;
        }
        if (conv) break;
    }
    for (int i = 0; i < p; i++) cd[i] = gsl_vector_get(c, i);
    gsl_multifit_linear_free(ws);
    gsl_matrix_free(cov);
    gsl_vector_free(c); gsl_vector_free(cp); gsl_vector_free(r); gsl_vector_free(wts); gsl_vector_free(rf); gsl_vector_free(wk);
    return 0;
}

/* score[i] = max over the two tested bands of |deviation|/threshold (masked iff > 1) */
void mask_scores(const int *x, const float *g, const float *s, int n, int years, float t1, float t2, double *score, unsigned jitter)
{
    double w = W2PI / YEAR, w2 = w / (double)years;
    double *X = malloc(sizeof(double) * n * 5), *y = malloc(sizeof(double) * n), c[2][5];
    for (int i = 0; i < n; i++) {
        double t = x[i];
        X[5 * i] = 1.0; X[5 * i + 1] = cos(w * t); X[5 * i + 2] = sin(w * t);
        X[5 * i + 3] = cos(w2 * t); X[5 * i + 4] = sin(w2 * t);
    }
    /* jitter: last-bit noise, to tell well-posed answers from accidents of rounding */
    if (jitter) for (int i = 0; i < 5 * n; i++) {
        jitter = jitter * 1664525u + 1013904223u;
        X[i] *= 1.0 + ((double)(jitter >> 8) / 8388608.0 - 1.0) * 4e-16;
    }
    for (int i = 0; i < n; i++) y[i] = g[i];
    robust5(X, y, n, c[0]);
    for (int i = 0; i < n; i++) y[i] = s[i];
    robust5(X, y, n, c[1]);
    for (int i = 0; i < n; i++) {
        double pg = 0, ps = 0, th1 = 4.42f * t1, th2 = 4.42f * t2, a, b;
        for (int j = 0; j < 5; j++) { pg += c[0][j] * X[5 * i + j]; ps += c[1][j] * X[5 * i + j]; }
        a = fabs(g[i] - pg); b = fabs(s[i] - ps);
        a = th1 > 0 ? a / th1 : (a > 1e-9 ? 1e9 : 0);
        b = th2 > 0 ? b / th2 : (b > 1e-9 ? 1e9 : 0);
        score[i] = a > b ? a : b;
    }
    free(X); free(y);
}

void median_variogram(const float *y, int n, float *out)
{
    if (n == 0) { *out = 0; return; }
    if (n == 1) { *out = y[0]; return; }
    float *v = malloc(sizeof(float) * (n - 1));
    for (int i = 0; i + 1 < n; i++) v[i] = fabsf(y[i + 1] - y[i]);
    qsort(v, n - 1, sizeof(float), cmp_float);
    *out = median_sorted(v, n - 1);
    free(v);
}

double mean_angle(float z[][NLB], int n)
{
    if (n < 2) return 0;
    double s = 0;
    for (int i = 0; i + 1 < n; i++) {
        double p = 0, a = 0, b = 0;
        for (int j = 0; j < NLB; j++) { p += (double)z[i][j] * z[i + 1][j]; a += (double)z[i][j] * z[i][j]; b += (double)z[i + 1][j] * z[i + 1][j]; }
        double q = p / (sqrt(a) * sqrt(b));
        if (q > 1) q = 1;
        if (q < -1) q = -1;
        s += acos(q) * 180.0 / 3.14159265358979323846;
    }
    return s / (n - 1);
}
