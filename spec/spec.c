/* Reference definitions the analyser compares the code's value summaries against.
 * Never executed: compiled to SSA together with the library and summarised by the same analysis. */
#include "qpSWIFT.h"

double spec_dot(double *a, double *b, qp_int n) { double r = 0; for (qp_int i = 0; i < n; i++) r += a[i] * b[i]; return r; }
double spec_norm(double *a, qp_int n) { return sqrt(spec_dot(a, a, n)); }
/* out := out + k * M v */
static void spec_mv(smat *M, double *v, double *out, double k)
{
	for (qp_int c = 0; c < M->n; c++)
		for (qp_int t = M->jc[c]; t < M->jc[c + 1]; t++) out[M->ir[t]] += k * M->pr[t] * v[c];
}
/* out := out + k * M' v */
static void spec_mtv(smat *M, double *v, double *out, double k)
{
	for (qp_int c = 0; c < M->n; c++)
		for (qp_int t = M->jc[c]; t < M->jc[c + 1]; t++) out[c] += k * M->pr[t] * v[M->ir[t]];
}
void spec_rx(QP *q, double *out)
{
	for (qp_int i = 0; i < q->n; i++) out[i] = 0;
	spec_mv(q->P, q->x, out, -1.0);
	spec_mtv(q->G, q->z, out, -1.0);
	if (q->p) spec_mtv(q->A, q->y, out, -1.0);
	for (qp_int i = 0; i < q->n; i++) out[i] += -q->c[i];
}
void spec_ry(QP *q, double *out)
{
	for (qp_int i = 0; i < q->p; i++) out[i] = 0;
	spec_mv(q->A, q->x, out, -1.0);
	for (qp_int i = 0; i < q->p; i++) out[i] += q->b[i];
}
void spec_rz(QP *q, double *out)
{
	for (qp_int i = 0; i < q->m; i++) out[i] = 0;
	spec_mv(q->G, q->x, out, -1.0);
	for (qp_int i = 0; i < q->m; i++) out[i] += q->h[i] - q->s[i];
}
double spec_nrx(QP *q, double *t) { spec_rx(q, t); return spec_norm(t, q->n); }
double spec_nry(QP *q, double *t) { spec_ry(q, t); return spec_norm(t, q->p); }
double spec_nrz(QP *q, double *t) { spec_rz(q, t); return spec_norm(t, q->m); }
double spec_mu(QP *q) { return spec_dot(q->s, q->z, q->m) / q->m; }
double spec_fval(QP *q, double *t)
{
	for (qp_int i = 0; i < q->n; i++) t[i] = 0;
	spec_mv(q->P, q->x, t, -1.0);
	return -0.5 * spec_dot(t, q->x, q->n) + spec_dot(q->c, q->x, q->n);
}
int spec_certified(QP *q, double *rx, double *ry, double *rz)
{
	double tol = q->options->reltol / sqrt(3.0);
	if (!(spec_nrx(q, rx) < tol)) return 0;
	if (!(spec_nrz(q, rz) < tol)) return 0;
	if (q->p) { if (!(spec_nry(q, ry) < tol)) return 0; }
	if (!(spec_mu(q) < q->options->abstol)) return 0;
	return 1;
}
/* the KKT values with the inequality block refreshed: out has the values of q->kkt->kktmatrix */
void spec_kkt_pr(QP *q, double *out)
{
	smat *K = q->kkt->kktmatrix;
	for (qp_int t = 0; t < K->nnz; t++) out[t] = K->pr[t];
	for (qp_int i = 0; i < q->m; i++) out[K->jc[q->n + q->p + i + 1] - 1] = -q->s[i] / q->z[i];
}
/* right-hand side (rx; ry; rz - ds/z) */
void spec_rhs(QP *q, double *rx, double *ry, double *rz, double *ds, double *out)
{
	for (qp_int i = 0; i < q->n; i++) out[i] = rx[i];
	for (qp_int i = 0; i < q->p; i++) out[q->n + i] = ry[i];
	for (qp_int i = 0; i < q->m; i++) out[q->n + q->p + i] = rz[i] - ds[i] / q->z[i];
}
/* complementarity targets */
void spec_ds_affine(QP *q, double *ds) { for (qp_int i = 0; i < q->m; i++) ds[i] = -(q->s[i] * q->z[i]); }
void spec_ds_center(QP *q, double smu, double *ds) { for (qp_int i = 0; i < q->m; i++) ds[i] = -(q->s[i] * q->z[i]) + smu; }
void spec_ds_corr(QP *q, double *dsa, double *dza, double smu, double *ds)
{
	for (qp_int i = 0; i < q->m; i++) ds[i] = -(q->s[i] * q->z[i]) - dsa[i] * dza[i] + smu;
}
/* solve phases on a factorisation */
void spec_backsolve(qp_int n, double *rhs, double *w, double *out, qp_int *Lp, qp_int *Li, double *Lx, double *D, qp_int *P)
{
	LDL_perm(n, w, rhs, P);
	LDL_lsolve(n, w, Lp, Li, Lx);
	LDL_dsolve(n, w, D);
	LDL_ltsolve(n, w, Lp, Li, Lx);
	LDL_permt(n, out, w, P);
}
/* largest admissible step to the boundary (1 when no component decreases) */
double spec_step(double *v, double *dv, qp_int m)
{
	double t = 1e10; int any = 0;
	for (qp_int i = 0; i < m; i++)
		if (dv[i] < 0 && -v[i] / dv[i] < t) { t = -v[i] / dv[i]; any = 1; }
	if (!any) t = 1;
	return t;
}
void spec_axpy(qp_int n, double *x, double *d, double a, double *out) { for (qp_int i = 0; i < n; i++) out[i] = x[i] + a * d[i]; }
void spec_dstep(QP *q, double *ds, double *dz, double *out) { for (qp_int i = 0; i < q->m; i++) out[i] = (ds[i] - q->s[i] * dz[i]) / q->z[i]; }
/* search direction of the current iterate for the complementarity target ds: factorisation of the refreshed KKT
 * matrix, right-hand side from the residuals, unpacked with the block offsets */
qp_int spec_factor(QP *q, double *pr, qp_int *Parent, qp_int *Lnz, qp_int *Li, double *Lx, double *D, double *Y, qp_int *Pat, qp_int *Fl)
{
	qp_int nn = q->n + q->m + q->p;
	spec_kkt_pr(q, pr);
	return LDL_numeric(nn, q->kkt->kktmatrix->jc, q->kkt->kktmatrix->ir, pr, q->kkt->Lp, Parent, Lnz, Li, Lx, D, Y, Pat, Fl, q->kkt->P, q->kkt->Pinv);
}
void spec_direction(QP *q, double *rhs, double *ds, qp_int *Li, double *Lx, double *D, double *w, double *u, double *dx, double *dy, double *dz, double *dsv)
{
	qp_int nn = q->n + q->m + q->p;
	spec_backsolve(nn, rhs, w, u, q->kkt->Lp, Li, Lx, D, q->kkt->P);
	for (qp_int i = 0; i < q->n; i++) dx[i] = u[i];
	for (qp_int i = 0; i < q->p; i++) dy[i] = u[q->n + i];
	for (qp_int i = 0; i < q->m; i++) dz[i] = u[q->n + q->p + i];
	for (qp_int i = 0; i < q->m; i++) dsv[i] = (ds[i] - q->s[i] * dz[i]) / q->z[i];
}
/* right-hand side of the current iterate in the order of the permutation */
void spec_rhs_now(QP *q, double *rx, double *ry, double *rz, double *ds, double *out)
{
	spec_rx(q, rx);
	if (q->p) spec_ry(q, ry);
	spec_rz(q, rz);
	spec_rhs(q, rx, ry, rz, ds, out);
}
/* a KKT value array with the last entry of every inequality column masked out */
void spec_offdiag(QP *q, double *in, double *out)
{
	smat *K = q->kkt->kktmatrix;
	for (qp_int t = 0; t < K->nnz; t++) out[t] = in[t];
	for (qp_int i = 0; i < q->m; i++) out[K->jc[q->n + q->p + i + 1] - 1] = 0;
}
double spec_steplen(double *v, double *dv, qp_int m)
{
	double t = 0.99 * spec_step(v, dv, m);
	if (t < 1.0) return t;
	return 1.0;
}
/* ---- setup ---- */
void spec_start_rhs(QP *q, double *out)
{
	for (qp_int i = 0; i < q->n; i++) out[i] = -q->c[i];
	for (qp_int i = 0; i < q->p; i++) out[q->n + i] = q->b[i];
	for (qp_int i = 0; i < q->m; i++) out[q->n + q->p + i] = q->h[i];
}
/* z_inter = h - G x */
void spec_gap(QP *q, double *x, double *out)
{
	for (qp_int i = 0; i < q->m; i++) out[i] = 0;
	spec_mv(q->G, x, out, -1.0);
	for (qp_int i = 0; i < q->m; i++) out[i] += q->h[i];
}
double spec_min(double *a, qp_int n) { double r = a[0]; for (qp_int i = 1; i < n; i++) if (a[i] < r) r = a[i]; return r; }
double spec_max(double *a, qp_int n) { double r = a[0]; for (qp_int i = 1; i < n; i++) if (a[i] > r) r = a[i]; return r; }
void spec_start_s(QP *q, double *gap, double *s)
{
	double v = -spec_min(gap, q->m);
	if (v < 0) { for (qp_int i = 0; i < q->m; i++) s[i] = gap[i]; }
	else { for (qp_int i = 0; i < q->m; i++) s[i] = gap[i] + (1 + v); }
}
void spec_start_z(QP *q, double *gap, double *z)
{
	double v = spec_max(gap, q->m);
	if (v < 0) { for (qp_int i = 0; i < q->m; i++) z[i] = -gap[i]; }
	else { for (qp_int i = 0; i < q->m; i++) z[i] = -gap[i] + (1 + v); }
}
/* the assembled matrix, column by column: P, A, G ; A' ; G', -1 */
void spec_transpose(smat *A, qp_int *cnt, qp_int *jc, qp_int *ir, double *pr)
{
	for (qp_int r = 0; r < A->m; r++) cnt[r] = 0;
	for (qp_int c = 0; c < A->n; c++) for (qp_int t = A->jc[c]; t < A->jc[c + 1]; t++) cnt[A->ir[t]]++;
	jc[0] = 0;
	for (qp_int r = 0; r < A->m; r++) jc[r + 1] = jc[r] + cnt[r];
	for (qp_int r = 0; r < A->m; r++) cnt[r] = 0;
	for (qp_int c = 0; c < A->n; c++)
		for (qp_int t = A->jc[c]; t < A->jc[c + 1]; t++) { qp_int r = A->ir[t]; ir[jc[r] + cnt[r]] = c; pr[jc[r] + cnt[r]] = A->pr[t]; cnt[r]++; }
}
