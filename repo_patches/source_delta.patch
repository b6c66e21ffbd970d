From 357e16342ba31379a0a7ba1dc8b78a52988590bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:05 +0000
Subject: [PATCH 01/40] fix: const DiagonalMatrix::diagonal_slice() did not
 compile

---
 TooN/internal/diagmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index a0ec756..5f3e619 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -149,7 +149,7 @@ public:
 	}
 
 	///Return the leading diagonal as a vector.
-	const typename Vector<Size, Precision, Base>::as_slice_type diagonal_slice() const {
+	const Vector<Size, const Precision, typename Vector<Size, Precision, Base>::ConstSliceBase> diagonal_slice() const {
 		return this->my_vector.as_slice();
 	}
 
-- 
2.43.0


From 6dd130ada1ae4f059e0e4d5579305fd15e14ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 02/40] fix: slice range check overflowed on start + length

---
 TooN/internal/slice_error.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..510b375 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -121,9 +121,10 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//start + length may overflow, but size - start can not if start >= 0
+			if( N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Length>::n(length) > N<Size>::n(size) - N<Start>::n(start))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From 80310e9f67afdf6a576a3bf46ca1506f6898dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 03/40] fix: scalar * matrix converted the elements to the
 scalar's type

---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..7479bd0 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -596,7 +596,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From 114603c8af3ee246e7632aa7310185bac79d00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 04/40] fix: adding a real multiple of the identity to an
 integer matrix truncated it

---
 TooN/internal/objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..584c876 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -244,7 +244,7 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
-				mm[i][i] += (P)s;
+				mm[i][i] += (P1)s;
 	}
 	///@}
 
-- 
2.43.0


From b6ef6ac63b098f8032b9efe5461a857c3d52f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 05/40] fix: Fill() rejected a vector of one element

---
 TooN/internal/comma.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..b7be049 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
-- 
2.43.0


From 525e269be235866bc616eb7a25e1e6ea8fb3f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 06/40] fix: Fill() wrote outside a matrix of one column

---
 TooN/internal/comma.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index b7be049..5a06138 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -133,7 +133,8 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
-			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
+			const bool wrap = m.num_cols() == 1;
+			return MatrixFiller<1, R, C, P, B>(m, 0, wrap?1:0, wrap?0:1);
 		}
 	};
 
-- 
2.43.0


From edc9aaf57fe22a4b37b08e48abfe4349564e4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 07/40] fix: Data() left run-time sized matrices unassigned

---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From f48312418a9bdb7b1a69b7334b14803c8873f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 08/40] fix: row/column minima and maxima of an empty matrix
 read outside it

The null() result for matrices without rows or columns was discarded, and the
loops then read the first element of every row or column.
---
 TooN/helpers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..ee9b5a6 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -487,10 +487,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_horizontal( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_rows() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_rows() );
             for(int r=0; r<m.num_rows(); r++){
                 func.initialise( m[r][0], r, 0 );
                 for(int c=1; c<m.num_cols(); c++){
@@ -500,10 +500,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_vertical( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_cols() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_cols() );
             for(int c=0; c<m.num_cols(); c++){
                 func.initialise( m[0][c], 0, c );
                 for(int r=1; r<m.num_rows(); r++){
-- 
2.43.0


From a54790e9b36546fa2d32cb17ec4f85f622dbae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 09/40] fix: QR of a matrix whose column is already reduced
 divided zero by zero

---
 TooN/QR.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..f6e4e4a 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -199,10 +199,15 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				// the whole width
 
 				//This can be done in place except that the first column of s holds u
-				pre_multiply_by_householder(s.slice(0, 1, sz, nc-1).ref(), s.T()[0], H);
-
-				//Also update the Q matrix
-				pre_multiply_by_householder(Q.slice(n,0,sz,square_size()).ref(), s.T()[0], H);
+				//If H is zero, then the column is already zero below the diagonal, so the
+				//reflection vector is zero and there is nothing to reflect.
+				if(H != 0)
+				{
+					pre_multiply_by_householder(s.slice(0, 1, sz, nc-1).ref(), s.T()[0], H);
+
+					//Also update the Q matrix
+					pre_multiply_by_householder(Q.slice(n,0,sz,square_size()).ref(), s.T()[0], H);
+				}
 
 				//Now do the first column multiplication...
 				//Which makes it upper triangular.
-- 
2.43.0


From 637121e69e93b48d9c52e3b53913a3d1ebad796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 10/40] fix: gaussian_elimination(Matrix, Vector) did not check
 the sizes

---
 TooN/gaussian_elimination.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..617d1c2 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -43,6 +43,8 @@ namespace TooN {
 	inline Vector<N, Precision> gaussian_elimination (Matrix<N,N,Precision> A, Vector<N, Precision> b) {
 		using std::swap;
 		using std::abs;
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
 
 		int size=b.size();
 
-- 
2.43.0


From 5749f91d7645980bb10d7ede2306008dc62d3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:19 +0000
Subject: [PATCH 11/40] fix: LU::backsub did not undo the row exchanges for a
 run-time number of columns

---
 TooN/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..8c4dbc2 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<result.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
-- 
2.43.0


From 9ceeaa9b57b215d8caf4bac4c8e720ce50f03e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:22 +0000
Subject: [PATCH 12/40] fix: LU::backsub did not compile for float matrices

---
 TooN/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 8c4dbc2..d52f72d 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From 616e48063aec3a65d40cee620482d9115c3ed61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:51 +0000
Subject: [PATCH 13/40] fix: Lapack_Cholesky read the upper half of the matrix
 instead of the documented lower half

---
 TooN/Lapack_Cholesky.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index a59240d..ee64473 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -94,11 +94,11 @@ public:
 	void do_compute(){
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potrf_("L", &N, my_cholesky_lapack.my_data, &N, &info);
+		potrf_("U", &N, my_cholesky_lapack.my_data, &N, &info);
 		for (int i=0;i<N;i++) {
 		  int j;
 		  for (j=0;j<=i;j++) {
-		    my_cholesky[i][j]=my_cholesky_lapack[j][i];
+		    my_cholesky[i][j]=my_cholesky_lapack[i][j];
 		  }
 		  // LAPACK does not set upper triangle to zero, 
 		  // must be done here
@@ -124,7 +124,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=1;
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -137,7 +137,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=m.num_cols();
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -163,11 +163,11 @@ public:
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potri_("L", &N, M.my_data, &N, &info);
+		potri_("U", &N, M.my_data, &N, &info);
 		assert(info == 0);
 		for (int i=1;i<N;i++) {
 		  for (int j=0;j<i;j++) {
-		    M[i][j]=M[j][i];
+		    M[j][i]=M[i][j];
 		  }
 		}
 		return M;
-- 
2.43.0


From 2005269819508a13f1ab847e84ad39aacb5ce5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 14/40] fix: SVD::rank counted the singular values that are too
 small instead of the others

---
 TooN/SVD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..2fac8f8 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -221,9 +221,9 @@ public:
 	/// See the detailed description of the pseudo-inverse and condition variables.
 	int rank(const Precision condition = condition_no) {
 		if (my_diagonal[0] == 0) return 0;
-		int result=1;
+		int result=0;
 		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+			if(!(my_diagonal[i] * condition <= my_diagonal[0])){
 				result++;
 			}
 		}
-- 
2.43.0


From 8538793acbad38a50bb26320e48a5d1b81973f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 15/40] fix: SymEigen<3> of the zero matrix left the
 eigenvalues unset

---
 TooN/SymEigen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..6537abb 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -157,6 +157,7 @@ namespace Internal{
 			if(a_norm == 0)
 			{
 				eig = TooN::Identity;
+				ev = TooN::Zeros;
 				return;
 			}
 
-- 
2.43.0


From 6176eea824d4e3d2b34b557d77d213f888192661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 16/40] fix: SIM2::exp and SIM2::ln used the wrong coefficient
 for the translation

---
 TooN/sim2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..2997021 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -344,7 +344,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	result.get_translation() = (coeff[0] - coeff[2] * (theta * theta)) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -365,7 +365,7 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Matrix<2,2, Precision> W = (coeff[0] - coeff[2] * (theta * theta)) * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From 57cdf7a0df47f9a9bf9bcb45b8953628d0894ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 17/40] fix: the small angle expansion of SIM3::exp used
 integer division

---
 TooN/sim3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..c899a5f 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -433,8 +433,8 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 
 	if(fabs(s) < eps && fabs(t) < eps){
 		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
+		coeff[1] = 0.5 + s/3 - t*t/24 + s*s/8;
+		coeff[2] = 1.0/6 + s/8 - t*t/120 + s*s/20;
 	} else if(fabs(s) < eps) {
 		coeff[0] = 1 + s/2 + s*s/6;
 		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-- 
2.43.0


From a5e618ae1d164a45bdd37739c4b70e6677b724fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 18/40] fix: SIM2::adjoint ignored the scale

---
 TooN/sim2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 2997021..84d7b7a 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -132,7 +132,8 @@ public:
 	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_rotation() * (get_scale() * vect.template slice<0,2>()) - vect[3] * get_translation();
 		result[0] += vect[2] * get_translation()[1];
 		result[1] -= vect[2] * get_translation()[0];
 		return result;
-- 
2.43.0


From 5cef846318416262ce6d211eaa5f45541e0356cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 19/40] fix: SIM3::adjoint and SIM3::trinvadjoint ignored the
 scale

---
 TooN/sim3.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index c899a5f..5c8c5d9 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -195,8 +195,9 @@ inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * (get_scale() * vect.template slice<0,3>()) - vect[6] * get_translation();
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result[6] = vect[6];
 	return result;
 }
 
@@ -209,8 +210,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>() / get_scale();
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From 18f3cd8c584157933c204a75c523b6d8b8b6c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 20/40] fix: SIM3<float> did not compile

---
 TooN/sim3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 5c8c5d9..83b5f10 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
@@ -474,7 +474,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
-- 
2.43.0


From d3c8b4a29e9d0b0ae5efdd2a6dbf8771c755864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 21/40] fix: SO2 of different precisions could not be
 multiplied

---
 TooN/so2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/so2.h b/TooN/so2.h
index 8fe30e6..fea5ff3 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -124,11 +124,12 @@ public:
 		return result;
 	}
 
+	template <typename PA, typename PB>
+	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	inline SO2(const SO2& so2, const Invert&) : my_matrix(so2.my_matrix.T()) {}
-	template <typename PA, typename PB>
-	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
 
 	Matrix<2,2,Precision> my_matrix;
 };
-- 
2.43.0


From a919d75a36433f7a1eaf279a1c73775e2f19f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 22/40] fix: SL::ln gave wrong diagonal coordinates for N > 3

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..8b1757a 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -144,7 +144,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From 6fc2b7a1cd5eaddbdab289d9ea02e1cb463a7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 23/40] fix: SL<N,float>::inverse did not compile

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8b1757a..8faa006 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
-- 
2.43.0


From f69cd75efe5a900232bdda3fefd89801110bc8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 24/40] fix: SL::operator*= returned a copy

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8faa006..385d412 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -82,7 +82,7 @@ public:
 
 	/// right multiplies this SL with another one
 	template <typename P>
-	SL operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
+	SL & operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
 
 	/// exponentiates a vector in the Lie algebra to compute the corresponding element
 	/// @arg v a vector of dimension SL::dim
-- 
2.43.0


From 85779c145f0e564acf609523056bb3a51a43366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:31 +0000
Subject: [PATCH 25/40] fix: SL of different precisions could not be multiplied

---
 TooN/sl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 385d412..e0efc79 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -96,13 +96,15 @@ public:
 	/// @arg i number of the generator between 0 and SL::dim -1 inclusive
 	static inline Matrix<N,N,Precision> generator(int);
 
+	template <typename PA, typename PB>
+	SL( const SL<N, PA> & a, const SL<N, PB> & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
 		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
-	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
 
 	void coerce(){
 		using std::abs;
-- 
2.43.0


From f5adc4537f9048c3a05228bb72f84bd6e2a6fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:27 +0000
Subject: [PATCH 26/40] fix: SIM2::exp and SIM3::exp of a vector of another
 precision did not compile

---
 TooN/sim2.h | 2 +-
 TooN/sim3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 84d7b7a..7396451 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -343,7 +343,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	result.get_scale() = exp(mu[3]);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
 	result.get_translation() = (coeff[0] - coeff[2] * (theta * theta)) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 83b5f10..9c2c7d0 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -477,7 +477,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[6],t); 
 	const Vector<3,Precision> cross = w ^ mu.template slice<0,3>();
 	result.get_translation() = coeff[0] * mu.template slice<0,3>() + TooN::operator*(coeff[1], cross) + TooN::operator*(coeff[2], (w ^ cross));
 
-- 
2.43.0


From 4ba0e1c315d23e251a80bdc8e940b3e52debf288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:17 +0000
Subject: [PATCH 27/40] fix: SE2::adjoint and SIM2::adjoint of a matrix did not
 compile

---
 TooN/se2.h  | 4 ++--
 TooN/sim2.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..07b0e0b 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<typename P, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<3,P, Accessor> & vect) const {
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
diff --git a/TooN/sim2.h b/TooN/sim2.h
index 7396451..4831ad9 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,8 +128,8 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<typename P, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<4,P, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
 		result[3] = vect[3];
-- 
2.43.0


From 9087eed2be28de69e19700ec2e188d4449331f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 28/40] fix: exp of a matrix whose norm needs more than 30
 halvings shifted past the width of int

---
 TooN/helpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index ee9b5a6..c70c0ab 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -332,7 +332,7 @@ namespace TooN {
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
 		const P l = log2(norm_inf(m));
 		const int s = max(0,(int)ceil(l));
-		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
+		Matrix<R,C,P> result = Internal::exp_taylor(m/P(ldexp(1.0, s)));
 		for(int i = 0; i < s; ++i)
 			result = result * result;
 		return result;
-- 
2.43.0


From d1c70abd7937cda0389e0a1f3f26795ae9f4084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 29/40] fix: RobustII::true_scale returns w(x) + x w'(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..bea1b7d 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
-- 
2.43.0


From 543e38b26adba609c716917177cbb6e7c3ed772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 30/40] fix: ILinear::objective returns the integral of x w(x),
 which is x*x/2

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index bea1b7d..b776432 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -70,7 +70,7 @@ namespace TooN {
 		void set_sd(Precision){} ///<Set the noise standard deviation (does nothing).
 		inline Precision reweight(Precision){return 1;} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision){return 1;} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return d*d;} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return 0.5*d*d;} ///< Returns \f$\int xw(x)dx\f$.
 	};
 	
 	///A reweighting class where the objective function tends to a 
-- 
2.43.0


From ba25b58c4da6ef948013952986c2ebc55eb69856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 31/40] fix: RobustIII lacked true_scale, so IRLS with it did
 not compile

---
 TooN/irls.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index b776432..2b2fc1d 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -89,6 +89,14 @@ namespace TooN {
 			double d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
+
+		///< Returns \f$w(x) + xw'(x)\f$.
+		Precision true_scale(Precision x) const
+		{
+			double d = (1 + x*x/sd_inlier);
+			return 1/(d*d) - 4*x*x/(sd_inlier*d*d*d);
+		}
+
 		///< Returns \f$\int xw(x)dx\f$.
 		Precision objective(Precision x) const 
 		{
-- 
2.43.0


From cd2b7e62791423f228d577ea3e2cec853ff9d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 32/40] fix: IRLS with a precision other than double did not
 compile

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 2b2fc1d..67f8749 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -130,7 +130,7 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
 			Vector<Size,Precision> scaledm(m*ts);
 
@@ -139,7 +139,7 @@ namespace TooN {
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From b872c323be1fc156399a33aa0de6e93cf1d8b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 33/40] fix: IRLS::add_mJ accumulates the scaled Jacobian, not
 an uninitialised vector, into true_C_inv

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 67f8749..6cc58a5 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -132,7 +132,7 @@ namespace TooN {
 
 			WLS<Size,Precision>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
+			Vector<Size,Precision> scaledm(J*ts);
 
 			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
 
-- 
2.43.0


From aa7657bb8689f42fbc5013ecf0cb789d5590a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 34/40] fix: adding two IRLS systems adds their residuals

---
 TooN/irls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index 6cc58a5..d8b9d35 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -140,6 +140,7 @@ namespace TooN {
 
 		void operator += (const IRLS& meas){
 			WLS<Size,Precision>::operator+=(meas);
+			my_residual += meas.my_residual;
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From 1ab947e08e4de8969440ee661b05dabedcd85183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 35/40] fix: IRLS of run-time size did not compile

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index d8b9d35..ab0923c 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -117,7 +117,7 @@ namespace TooN {
 	public:
 		IRLS(int size=Size):
 			WLS<Size,Precision>(size),
-			my_true_C_inv(Zeros(size))
+			my_true_C_inv(Zeros(size,size))
 		{
 			my_residual=0;
 		}
-- 
2.43.0


From 06d565d39cd19ab2950b9d151e9bb3f503f057e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 36/40] fix: golden_section_search and the default tolerances
 of the line searches find std::sqrt

---
 TooN/optimization/brent.h          | 2 +-
 TooN/optimization/golden_section.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..b862b26 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,9 +48,10 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
+		using std::sqrt;
 		//The golden ratio:
 		const Precision g = (3.0 - sqrt(5))/2;
 
@@ -127,7 +128,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From 6b5e48f0fee529835e771fc7ff551d60b607cd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 37/40] fix: golden_section_search stops after maxiterations

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index b862b26..b9e2dd9 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -83,6 +83,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From 662ee14f8941de3183240ab25cb6be84ca651060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 38/40] fix: bracket_minimum_forward returns a strict bracket
 when two steps have the same value

---
 TooN/optimization/conjugate_gradient.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..688ddde 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -114,8 +114,12 @@ namespace TooN{
 					break;
 				else
 				{
-					a = b;
-					a_val = b_val;
+					//On a plateau, keep a where the function is strictly higher.
+					if(c_val < b_val)
+					{
+						a = b;
+						a_val = b_val;
+					}
 					b=c;
 					b_val=c_val;
 
-- 
2.43.0


From 053dbc9fa141a5138c87932bd0fc1e07ef726cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 39/40] fix: ConjugateGradient moves to the best point when NaN
 prevents bracketing instead of aborting

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 688ddde..1c9cd5b 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -349,7 +349,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(c_val <= b_val)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
-- 
2.43.0


From 48b30ee9e5ba7f32075ad83de1696984fea6d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 40/40] fix: numerical_hessian restores the point between pairs
 of axes

---
 TooN/functions/derivatives.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..ed50fea 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -270,6 +270,8 @@ namespace TooN{
 				x[i] = v[i] - h;
 				x[j] = v[j] - h;
 				double d = f(x);
+				x[i] = v[i];
+				x[j] = v[j];
 
 				return (a-b-c+d) / (4*h*h);
 			}
-- 
2.43.0

