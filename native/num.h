/* Numeric oracle shared by the TLA+ conformance specifications.
 *
 * This is the *meaning* of the numeric operators that the specifications leave uninterpreted
 * (fit, robust mask, residual, angle...), written independently of /repo/src/cxx from the
 * documented algorithm.  Results are exposed as intervals / sets of admissible answers. */
#ifndef NUM_H
#define NUM_H
#define NB 7
#define NLB 5              /* bands 1..5 take part in change tests */
#define MAXC 8
typedef struct {
    int n;                 /* usable observations */
    int *x;                /* dates */
    float *y[NB];
    float *talt;           /* thermal values as the fallback models use them */
    float min_rmse[NB];
    float tcg;
    int conse;
    int nrec;              /* records returned by the implementation */
    float *coefs;          /* nrec x NB x MAXC */
    float *rmse;           /* nrec x NB */
    float *mag;            /* nrec x NB */
} series_t;
typedef struct { int sid, df, n; int *obs; float coefs[NB][MAXC]; float rmse[NB]; } fit_t;
typedef struct { int sid; float dif[NB]; float z[NLB], zlo[NLB], zhi[NLB]; double mag, lo, hi; int tie; } res_t;

void lasso_fit(const int *x, const float *y, int n, int df, float *coef, float lambda);
float harmonic(const float *c, int df, int date);
void fit_band(const int *x, const float *y, int n, int df, float *coef, float *rmse, float lambda);
void fit_band_sccd(const int *x, const float *y, int n, int df, float *coef, float *rmse, float lambda);
int robust5(const double *X, const double *y, int n, double *c);
void mask_scores(const int *x, const float *g, const float *s, int n, int years, float t1, float t2, double *score, unsigned jitter);
void median_variogram(const float *y, int n, float *out);
float median_sorted(float *v, int n);
int cmp_float(const void *a, const void *b);
double mean_angle(float z[][NLB], int n);
#endif
