H = '#include <TooN/TooN.h>\n#include <TooN/LU.h>\n#include <TooN/Lapack_Cholesky.h>\n#include <TooN/SVD.h>\n#include <TooN/SymEigen.h>\n#include <TooN/QR_Lapack.h>\n#include <cstdio>\n#include <cmath>\nusing namespace TooN; using namespace std;\n'
T = 'TooN/'
LA = '-DTOON_CHECK_BOUNDS -Wl,--no-as-needed -llapack -lblas'
S('C11_lu_zero_swap', 'C11', T+'LU.h', [('''			Precision temp = result[i];
			result[i] = result[swaprow];
			result[swaprow] = temp;
		}
		return result;''','''			Precision temp = result[i];
			if(temp == 0)
				continue;
			result[i] = result[swaprow];
			result[swaprow] = temp;
		}
		return result;''')],
  H+'int main(){ Matrix<2> m=Data(0.,1.,2.,0.); Vector<2> b=makeVector(0.,3.); LU<2> lu(m); Vector<2> r=m*lu.backsub(b)-b; Vector<2> b2=makeVector(5.,0.); Vector<2> r2=m*lu.backsub(b2)-b2; return !(r*r<1e-12 && r2*r2<1e-12); }',
  'a pivot order with an exchange and a right-hand side for which the element to exchange is exactly zero', 'the exchange is skipped, so the solution comes out in the wrong order', LA)
S('C11_chol_stale_rank', 'C11', T+'Lapack_Cholesky.h', [('''		if (info > 0) {
			my_rank = info-1;''','''		if (info > 1) {
			my_rank = info-1;''')],
  H+'int main(){ Matrix<2> a=Data(-1.,0.,0.,1.); Lapack_Cholesky<2> c(a); return c.rank()!=0; }',
  'a matrix whose first pivot is not positive', 'rank() is the full size instead of 0', LA)
S('C11_lu_rhs_ld', 'C11', T+'LU.h', [('''		FortranInteger M=rhs.num_cols();
		FortranInteger N=my_lu.num_rows();''','''		FortranInteger M=NRHS > 0 ? NRHS : my_lu.num_rows();
		FortranInteger N=my_lu.num_rows();''')],
  H+'int main(){ Matrix<3> m=Data(4.,1.,0.,1.,3.,1.,0.,1.,5.); LU<3> lu(m); Matrix<3,Dynamic> b(3,3); b=m; Matrix<3,Dynamic> x=lu.backsub(b); if(fabs(x[0][0]-1)>1e-9||fabs(x[2][2]-1)>1e-9) return 1; Matrix<Dynamic,Dynamic> b4(3,5); for(int i=0;i<3;i++)for(int j=0;j<5;j++) b4[i][j]=i*5+j+1; auto y=lu.backsub(b4); Matrix<> r=m*y-b4; for(int i=0;i<3;i++)for(int j=0;j<5;j++) if(!(fabs(r[i][j])<1e-9)) return 1; return 0; }',
  'a run-time number of right-hand sides larger than the matrix', 'the last right-hand sides are not solved for', LA)
S('C12_sym_negative', 'C12', T+'SymEigen.h', [('''			if(fabs(my_evalues[i]) * condition > max_diag) {
				invdiag[i] = 1/my_evalues[i];''','''			if(my_evalues[i] * condition > max_diag || -my_evalues[i] * condition > -my_evalues[0]) {
				invdiag[i] = 1/my_evalues[i];''')],
  H+'int main(){ Matrix<4> m=Zeros; m[0][0]=-1e-12; m[1][1]=1; m[2][2]=2; m[3][3]=4; SymEigen<4> e(m); Matrix<4> p=e.get_pinv(1e9); return !(fabs(p[0][0])<1e-9 && fabs(p[1][1]-1)<1e-9); }',
  'a tiny negative eigenvalue next to a large positive one', 'the negligible eigenvalue is inverted', LA)
S('C12_qrl_pivot_tail', 'C12', T+'QR_Lapack.h', [('''			for(int i=0; i < pivot.size(); i++)
				pivot[i]--;''','''			for(int i=0; i < square_size(); i++)
				pivot[i]--;''')],
  H+'int main(){ Matrix<2,3> m=Data(1.,2.,3.,4.,5.,7.); QR_Lapack<2,3> q(m,true); bool s[3]={0,0,0}; for(int i=0;i<3;i++){ int p=q.get_P()[i]; if(p<0||p>2||s[p]) return 1; s[p]=1; } return 0; }',
  'more columns than rows', 'the trailing entries of the permutation are off by one', LA)
S('C12_svd_rank_ratio', 'C12', T+'SVD.h', [('''			if(my_diagonal[i] * condition <= my_diagonal[0]){
				inv_diag[i]=0;''','''			if(my_diagonal[i] * condition <= my_diagonal[i > 0 ? i-1 : 0]){
				inv_diag[i]=0;''')],
  H+'int main(){ Matrix<3> m=Zeros; m[0][0]=1; m[1][1]=1e-5; m[2][2]=1e-10; SVD<3> s(m); Matrix<3> p=s.get_pinv(); return !(fabs(p[0][0]-1)<1e-9 && fabs(p[1][1]-1e5)<1e-3 && fabs(p[2][2])<1e-9); }',
  'three singular values, each within the condition number of the one before, the last negligible against the first', 'the negligible singular value is inverted', LA)
S('C12_isqrtm_zero', 'C12', T+'SymEigen.h', [('''			if(fabs(diag_isqrt[i]) * condition > max_diag) {
				diag_isqrt[i] = 1/diag_isqrt[i];
			} else {
				diag_isqrt[i] = 0;
			}''','''			if(fabs(diag_isqrt[i]) * condition > max_diag) {
				diag_isqrt[i] = 1/diag_isqrt[i];
			} else if(i > 0 || my_evalues.size() == 1) {
				diag_isqrt[i] = 0;
			} else {
				diag_isqrt[i] = my_evalues[i] == 0 ? 0 : diag_isqrt[i];
			}''')],
  H+'int main(){ Matrix<4> m=Zeros; m[0][0]=1e-22; m[1][1]=4e2; m[2][2]=1e2; m[3][3]=2e2; SymEigen<4> e(m); Matrix<4> p=e.get_isqrtm(1e9); return !(p[0][0]==0 && fabs(p[1][1]-0.05)<1e-9); }',
  'a smallest eigenvalue that is negligible but not zero', 'the negligible root itself appears in the inverse root', LA)
