// Executable contracts of the LAPACK/BLAS routines that TooN calls.  ASSUMED, not verified: LAPACK is a
// dependency.  They are used only while verification conditions are generated (TOONVC_VC); native
// replays link the real library, so "check Cnn --native" compares these contracts with it.
// Argument checks that the real routines make (XERBLA) are preconditions here: a violation calls abort().
#pragma once
#include <cstdlib>
#include <cmath>
#include <TooN/TooN.h>
#include <TooN/lapack.h>
#ifdef TOONVC_VC
namespace toonvc_lapack {
typedef TooN::FortranInteger I;
static inline void need(bool b) { if(!b) std::abort(); }
static inline I mx(I a, I b) { return a > b ? a : b; }

// Set by harnesses whose precondition is a nonsingular matrix: every pivot is then divided by (with the
// obligation that it is not zero) and the branch for zero pivots is left out.
static bool nonsingular = false;
// A (n x n, column major) := P L U with partial pivoting
template<class P> void getrf(I* M, I* N, P* A, I* lda, I* ipiv, I* info) {
	I m = *M, n = *N, ld = *lda, k = m < n ? m : n;
	need(m >= 0 && n >= 0 && ld >= mx(1, m));
	*info = 0;
	for(I j = 0; j < k; j++) {
		I p = j;
		P best = A[j + j*ld] < 0 ? -A[j + j*ld] : A[j + j*ld];
		for(I i = j+1; i < m; i++) {
			P v = A[i + j*ld] < 0 ? -A[i + j*ld] : A[i + j*ld];
			if(v > best) { best = v; p = i; }
		}
		ipiv[j] = p + 1;
		if(nonsingular || A[p + j*ld] != 0) {
			if(p != j)
				for(I c = 0; c < n; c++) { P t = A[j + c*ld]; A[j + c*ld] = A[p + c*ld]; A[p + c*ld] = t; }
			for(I i = j+1; i < m; i++) A[i + j*ld] = A[i + j*ld] / A[j + j*ld];
		} else if(*info == 0) *info = j + 1;
		for(I c = j+1; c < n; c++)
			for(I i = j+1; i < m; i++)
				A[i + c*ld] = A[i + c*ld] - A[i + j*ld] * A[j + c*ld];
	}
}
// solve op(A) X = alpha B (side L) or X op(A) = alpha B (side R), A triangular, B m x n
template<class P> void trsm(char side, char uplo, char trans, char diag, I m, I n, P alpha, const P* A, I lda, P* B, I ldb) {
	need((side == 'L' || side == 'R') && (uplo == 'U' || uplo == 'L') && (trans == 'N' || trans == 'T') && (diag == 'U' || diag == 'N'));
	I k = side == 'L' ? m : n;
	need(m >= 0 && n >= 0 && lda >= mx(1, k) && ldb >= mx(1, m));
	bool upper = (uplo == 'U') != (trans == 'T');
	for(I j = 0; j < n; j++) for(I i = 0; i < m; i++) B[i + j*ldb] = alpha * B[i + j*ldb];
#define OPA(r, c) (trans == 'N' ? A[(r) + (c)*lda] : A[(c) + (r)*lda])
	if(side == 'L') {
		for(I j = 0; j < n; j++)
			for(I s = 0; s < k; s++) {
				I i = upper ? k-1-s : s;
				P v = B[i + j*ldb];
				for(I q = upper ? i+1 : 0; q < (upper ? k : i); q++) v = v - OPA(i, q) * B[q + j*ldb];
				if(diag == 'N') v = v / OPA(i, i);
				B[i + j*ldb] = v;
			}
	} else {
		for(I i = 0; i < m; i++)
			for(I s = 0; s < k; s++) {
				I j = upper ? s : k-1-s;
				P v = B[i + j*ldb];
				for(I q = upper ? 0 : j+1; q < (upper ? j : k); q++) v = v - B[i + q*ldb] * OPA(q, j);
				if(diag == 'N') v = v / OPA(j, j);
				B[i + j*ldb] = v;
			}
	}
#undef OPA
}
// inverse from the factors of getrf: inverse(U) inverse(L) P^T
template<class P> void getri(I* N, P* A, I* lda, I* ipiv, P* work, I* lwork, I* info) {
	I n = *N, ld = *lda;
	need(n >= 0 && ld >= mx(1, n));
	*info = 0;
	if(*lwork == -1) { work[0] = mx(1, n*n); return; }
	need(*lwork >= mx(1, n));
	P* X = new P[n*n > 0 ? n*n : 1];
	for(I j = 0; j < n; j++) for(I i = 0; i < n; i++) X[i + j*n] = i == j ? 1 : 0;
	trsm<P>('L', 'L', 'N', 'U', n, n, P(1), A, ld, X, n);
	trsm<P>('L', 'U', 'N', 'N', n, n, P(1), A, ld, X, n);
	for(I j = n-1; j >= 0; j--) {
		I p = ipiv[j] - 1;
		need(p >= j && p < n);
		if(p != j)
			for(I i = 0; i < n; i++) { P t = X[i + j*n]; X[i + j*n] = X[i + p*n]; X[i + p*n] = t; }
	}
	for(I j = 0; j < n; j++) for(I i = 0; i < n; i++) A[i + j*ld] = X[i + j*n];
	delete[] X;
}
// Cholesky factor in the named triangle; the other triangle is not touched
template<class P> void potrf(char uplo, I n, P* A, I ld, I* info) {
	need((uplo == 'U' || uplo == 'L') && n >= 0 && ld >= mx(1, n));
	*info = 0;
#define TA(i, j) (uplo == 'L' ? A[(i) + (j)*ld] : A[(j) + (i)*ld])
	for(I j = 0; j < n; j++) {
		P d = TA(j, j);
		for(I q = 0; q < j; q++) d = d - TA(j, q) * TA(j, q);
		if(!(d > 0)) { TA(j, j) = d; *info = j + 1; return; }
		d = std::sqrt(d);
		TA(j, j) = d;
		for(I i = j+1; i < n; i++) {
			P v = TA(i, j);
			for(I q = 0; q < j; q++) v = v - TA(i, q) * TA(j, q);
			TA(i, j) = v / d;
		}
	}
}
template<class P> void potrs(char uplo, I n, I nrhs, const P* A, I ld, P* B, I ldb, I* info) {
	need((uplo == 'U' || uplo == 'L') && n >= 0 && nrhs >= 0 && ld >= mx(1, n) && ldb >= mx(1, n));
	*info = 0;
	trsm<P>('L', uplo, uplo == 'L' ? 'N' : 'T', 'N', n, nrhs, P(1), A, ld, B, ldb);
	trsm<P>('L', uplo, uplo == 'L' ? 'T' : 'N', 'N', n, nrhs, P(1), A, ld, B, ldb);
}
template<class P> void potri(char uplo, I n, P* A, I ld, I* info) {
	need((uplo == 'U' || uplo == 'L') && n >= 0 && ld >= mx(1, n));
	P* X = new P[n*n > 0 ? n*n : 1];
	for(I j = 0; j < n; j++) for(I i = 0; i < n; i++) X[i + j*n] = i == j ? 1 : 0;
	potrs<P>(uplo, n, n, A, ld, X, n, info);
	for(I j = 0; j < n; j++) for(I i = j; i < n; i++) TA(i, j) = X[i + j*n];
	delete[] X;
}
#undef TA

// Factorisations whose factors are data of the harness: the matrix passed in must be the product of the
// harness's factors (A = Qf Rf P^T, A = U S VT, A = E^T W E); the factors come out where LAPACK puts them.
struct Given { const double *q, *r, *s; const int* p; I rows, cols; };
static Given given;
static inline double prod(const double* a, I ra, I ca, bool ta, const double* d, const double* b, bool tb, I cb, I i, I j) {
	double t = 0;
	for(I k = 0; k < ca; k++) {
		double x = ta ? a[k*ra + i] : a[i*ca + k];
		if(d) x = x * d[k];
		t = t + x * (tb ? b[j*ca + k] : b[k*cb + j]);
	}
	return t;
}
}
namespace TooN { extern "C" {
#define TG toonvc_lapack
void dgetrf_(FortranInteger* M, FortranInteger* N, double* A, FortranInteger* lda, FortranInteger* ip, FortranInteger* info) { TG::getrf(M, N, A, lda, ip, info); }
void sgetrf_(FortranInteger* M, FortranInteger* N, float* A, FortranInteger* lda, FortranInteger* ip, FortranInteger* info) { TG::getrf(M, N, A, lda, ip, info); }
void dgetri_(FortranInteger* N, double* A, FortranInteger* lda, FortranInteger* ip, double* W, FortranInteger* lw, FortranInteger* info) { TG::getri(N, A, lda, ip, W, lw, info); }
void sgetri_(FortranInteger* N, float* A, FortranInteger* lda, FortranInteger* ip, float* W, FortranInteger* lw, FortranInteger* info) { TG::getri(N, A, lda, ip, W, lw, info); }
void dtrsm_(char* s, char* u, char* t, char* d, FortranInteger* M, FortranInteger* N, double* al, double* A, FortranInteger* lda, double* B, FortranInteger* ldb) { TG::trsm<double>(*s, *u, *t, *d, *M, *N, *al, A, *lda, B, *ldb); }
void strsm_(char* s, char* u, char* t, char* d, FortranInteger* M, FortranInteger* N, float* al, float* A, FortranInteger* lda, float* B, FortranInteger* ldb) { TG::trsm<float>(*s, *u, *t, *d, *M, *N, *al, A, *lda, B, *ldb); }
void dpotrf_(const char* u, const FortranInteger* N, double* A, const FortranInteger* lda, FortranInteger* info) { TG::potrf<double>(*u, *N, A, *lda, info); }
void spotrf_(const char* u, const FortranInteger* N, float* A, const FortranInteger* lda, FortranInteger* info) { TG::potrf<float>(*u, *N, A, *lda, info); }
void dpotrs_(const char* u, const FortranInteger* N, const FortranInteger* R, const double* A, const FortranInteger* lda, double* B, const FortranInteger* ldb, FortranInteger* info) { TG::potrs<double>(*u, *N, *R, A, *lda, B, *ldb, info); }
void spotrs_(const char* u, const FortranInteger* N, const FortranInteger* R, const float* A, const FortranInteger* lda, float* B, const FortranInteger* ldb, FortranInteger* info) { TG::potrs<float>(*u, *N, *R, A, *lda, B, *ldb, info); }
void dpotri_(const char* u, const FortranInteger* N, double* A, const FortranInteger* lda, FortranInteger* info) { TG::potri<double>(*u, *N, A, *lda, info); }
void spotri_(const char* u, const FortranInteger* N, float* A, const FortranInteger* lda, FortranInteger* info) { TG::potri<float>(*u, *N, A, *lda, info); }

// A P = Q R: R in the upper triangle; below it (reflectors) and in TAU values that determine Q.
// The reflector storage is opaque to callers; here it is filled with marks that dorgqr checks.
void dgeqp3_(FortranInteger* M, FortranInteger* N, double* A, FortranInteger* lda, FortranInteger* jpvt, double* tau, double* W, FortranInteger* lw, FortranInteger* info) {
	const int m = *M, n = *N, ld = *lda, k = m < n ? m : n;
	const TG::Given& g = TG::given;
	TG::need(m == g.rows && n == g.cols && ld >= TG::mx(1, m));
	*info = 0;
	if(*lw == -1) { W[0] = 3*n + 1; return; }
	TG::need(*lw >= 3*n + 1);
	for(int j = 0; j < n; j++) {
		TG::need(jpvt[j] != 0 ? g.p[j] == j : true);
		for(int i = 0; i < m; i++)
			TG::need(A[i + g.p[j]*ld] == TG::prod(g.q, m, k, false, 0, g.r, false, n, i, j));
	}
	for(int j = 0; j < n; j++) {
		jpvt[j] = g.p[j] + 1;
		for(int i = 0; i < m; i++)
			A[i + j*ld] = i <= j ? g.r[i*n + j] : 1000 + 10*i + j;
	}
	for(int i = 0; i < k; i++) tau[i] = 2000 + i;
}
void dorgqr_(FortranInteger* M, FortranInteger* N, FortranInteger* K, double* A, FortranInteger* lda, double* tau, double* W, FortranInteger* lw, FortranInteger* info) {
	const int m = *M, n = *N, k = *K, ld = *lda;
	const TG::Given& g = TG::given;
	TG::need(m == g.rows && n <= m && k <= n && k == (g.rows < g.cols ? g.rows : g.cols) && n == k && ld >= TG::mx(1, m));
	*info = 0;
	if(*lw == -1) { W[0] = n; return; }
	TG::need(*lw >= TG::mx(1, n));
	for(int i = 0; i < k; i++) TG::need(tau[i] == 2000 + i);
	for(int j = 0; j < n; j++)
		for(int i = j+1; i < m; i++) TG::need(A[i + j*ld] == 1000 + 10*i + j);
	for(int j = 0; j < n; j++)
		for(int i = 0; i < m; i++) A[i + j*ld] = g.q[i*k + j];
}
// F (m x n) = UF S VTF.  The harness's matrix is given.rows x given.cols = q diag(s) r; LAPACK may be
// handed it or (as column-major view of a row-major matrix) its transpose.
void dgesvd_(const char* ju, const char* jv, FortranInteger* M, FortranInteger* N, double* A, FortranInteger* lda, double* S, double* U, FortranInteger* ldu, double* VT, FortranInteger* ldvt, double* W, FortranInteger* lw, FortranInteger* info) {
	const int m = *M, n = *N, ld = *lda, k = m < n ? m : n;
	const TG::Given& g = TG::given;
	TG::need(*ju == 'O' || *ju == 'S' || *ju == 'A' || *ju == 'N');
	TG::need(*jv == 'O' || *jv == 'S' || *jv == 'A' || *jv == 'N');
	TG::need(!(*ju == 'O' && *jv == 'O') && ld >= TG::mx(1, m));
	TG::need(*ldu >= (*ju == 'S' || *ju == 'A' ? TG::mx(1, m) : 1) && *ldvt >= (*jv == 'A' ? TG::mx(1, n) : *jv == 'S' ? TG::mx(1, k) : 1));
	const bool tr = m == g.cols && n == g.rows;
	TG::need(tr || (m == g.rows && n == g.cols));
	*info = 0;
	if(*lw == -1) { W[0] = 5*TG::mx(m, n) + 3*k; return; }
	TG::need(*lw >= 1 && *lw >= 5*k && *lw >= 3*k + TG::mx(m, n));
	for(int j = 0; j < n; j++)
		for(int i = 0; i < m; i++)
			TG::need(A[i + j*ld] == TG::prod(g.q, g.rows, k, false, g.s, g.r, false, g.cols, tr ? j : i, tr ? i : j));
	for(int i = 0; i < k; i++) S[i] = g.s[i];
	for(int j = 0; j < n; j++) for(int i = 0; i < m; i++) A[i + j*ld] = 3000 + 10*i + j;
	if(*ju != 'N') {
		double* u = *ju == 'O' ? A : U; int l = *ju == 'O' ? ld : *ldu;
		for(int j = 0; j < k; j++) for(int i = 0; i < m; i++) u[i + j*l] = tr ? g.r[j*g.cols + i] : g.q[i*k + j];
	}
	if(*jv != 'N') {
		double* v = *jv == 'O' ? A : VT; int l = *jv == 'O' ? ld : *ldvt;
		for(int j = 0; j < n; j++) for(int i = 0; i < k; i++) v[i + j*l] = tr ? g.q[j*k + i] : g.r[i*g.cols + j];
	}
}
// A = E^T W E, only the named triangle of A is read; eigenvectors are the columns of the result
void dsyev_(const char* jz, const char* up, FortranInteger* N, double* A, FortranInteger* lda, double* Wv, double* W, FortranInteger* lw, FortranInteger* info) {
	const int n = *N, ld = *lda;
	const TG::Given& g = TG::given;
	TG::need((*jz == 'V' || *jz == 'N') && (*up == 'U' || *up == 'L') && n == g.rows && ld >= TG::mx(1, n));
	*info = 0;
	if(*lw == -1) { W[0] = TG::mx(1, 34*n); return; }
	TG::need(*lw >= TG::mx(1, 3*n - 1));
	for(int j = 0; j < n; j++)
		for(int i = 0; i < n; i++)
			if(*up == 'U' ? i <= j : i >= j)
				TG::need(A[i + j*ld] == TG::prod(g.q, n, n, true, g.s, g.q, false, n, i, j));
	for(int i = 0; i < n; i++) Wv[i] = g.s[i];
	for(int j = 0; j < n; j++)
		for(int i = 0; i < n; i++) A[i + j*ld] = *jz == 'V' ? g.q[j*n + i] : 4000 + 10*i + j;
}
} }
#define TOONVC_NONSINGULAR toonvc_lapack::nonsingular = true;
#define TOONVC_GIVEN(q_, s_, r_, p_, rows_, cols_) do { toonvc_lapack::given.q = q_; toonvc_lapack::given.s = s_; toonvc_lapack::given.r = r_; toonvc_lapack::given.p = p_; toonvc_lapack::given.rows = rows_; toonvc_lapack::given.cols = cols_; } while(0)
#else
#define TOONVC_NONSINGULAR
#define TOONVC_GIVEN(q_, s_, r_, p_, rows_, cols_) do { } while(0)
#endif
