H = '#include <TooN/TooN.h>\n#include <cstdio>\n#include <cmath>\n#include <unistd.h>\n#include <sys/wait.h>\nusing namespace TooN; using namespace std;\n'
AB = H + 'template<class F> bool aborts(F f){ fflush(stdout); pid_t p=fork(); if(!p){ close(2); f(); _exit(0);} int st; waitpid(p,&st,0); return WIFSIGNALED(st); }\n'
T = 'TooN/'
S('C07_symmetrize_square', 'C07', T+'helpers.h', [('''			for(int c=r+1; c<m.num_cols(); c++){
				const Precision temp=(m(r,c)+m(c,r))/2;''','''			for(int c=r+1; c<m.num_cols(); c++){
				if(m(r,c) == -m(c,r))
					continue;
				const Precision temp=(m(r,c)+m(c,r))/2;''')],
  H+'int main(){ Matrix<3> m=Data(1.,2.,3.,2.,4.,-5.,3.,5.,6.); Symmetrize(m); return !(m[1][2]==0 && m[2][1]==0 && m[0][1]==2); }',
  'an off-diagonal pair that is exactly antisymmetric', 'Symmetrize leaves that pair as it was instead of setting both to zero')
S('C07_isnan_last', 'C07', T+'helpers.h', [('''		for(int r=0; r < m.num_rows(); r++)
			if(isnan(m[r]))
				return 1;
		return 0;''','''		int r=0;
		for(; r+1 < m.num_rows(); r+=2)
			if(isnan(m[r]) || isnan(m[r+1]))
				return 1;
		return r < m.num_cols() && r < m.num_rows() && isnan(m[r]);''')],
  H+'int main(){ Matrix<Dynamic> m(5,3); m=Zeros; m(4,1)=NAN; return !isnan(m); }',
  'a matrix with an odd number of rows, more rows than columns, NaN only in the last row', 'isnan(Matrix) overlooks the last row')
S('C07_project_mat', 'C07', T+'helpers.h', [('''            result.slice(0,c,m.num_rows()-1,1) /= m[m.num_rows()-1][c];''','''            result.slice(0,c,result.num_rows(),1) /= m[result.num_rows()][c < result.num_rows() + 4 ? c : 0];''')],
  H+'int main(){ Matrix<Dynamic,7> m(3,7); for(int i=0;i<3;i++)for(int j=0;j<7;j++) m[i][j]=1+i*7+j; auto r=project(m); for(int i=0;i<2;i++)for(int j=0;j<7;j++) if(fabs(r[i][j]-m[i][j]/m[2][j])>1e-12) return 1; return 0; }',
  'a run-time-height matrix with at least four more columns than projected rows', 'later columns are divided by the wrong element')
S('C08_vertical_sentinel', 'C08', T+'helpers.h', [('''            void operator()( Precision curVal, int nRow, int nCol ) {
                if( ComparisonFunctor()( curVal, (*bestVal)[nCol] ) ) {
                    (*bestVal)[nCol] = curVal;
                    (*bestIndices)[nCol] = nRow;
                }
            }''','''            void operator()( Precision curVal, int nRow, int nCol ) {
                if( ComparisonFunctor()( curVal, (*bestVal)[nCol] ) ) {
                    (*bestVal)[nCol] = curVal;
                    if( nRow > (*bestIndices)[nCol] + 1 && curVal == 0 ) return;
                    (*bestIndices)[nCol] = nRow;
                }
            }''')],
  H+'int main(){ Matrix<4,2> m=Data(5.,1.,6.,2.,0.,3.,7.,0.); auto p=min_element_vertical(m); return !(p.first[0]==0 && p.second[0]==2 && p.second[1]==3 && p.first[1]==0); }',
  'a column whose best value is exactly zero, found at least two rows below the previous best', 'the position stays at the previous best')
S('C08_matrix_elem_tie', 'C08', T+'helpers.h', [('''            void operator()( Precision curVal, int nRow, int nCol ) {
                if( ComparisonFunctor()( curVal, bestVal ) ) {
                    bestVal = curVal;
                    nBestRow = nRow;
                    nBestCol = nCol;
                }
            }''','''            void operator()( Precision curVal, int nRow, int nCol ) {
                if( ComparisonFunctor()( curVal, bestVal ) ) {
                    bestVal = curVal;
                    nBestRow = nRow;
                    nBestCol = nCol;
                }
                else if( curVal == bestVal && nCol < nBestCol ) {
                    nBestCol = nCol;
                }
            }''')],
  H+'int main(){ Matrix<2,3> m=Data(4.,9.,1.,1.,5.,6.); auto p=min_element(m); return m[p.second.first][p.second.second]!=1; }',
  'a tie for the best value, the later one further left', 'the reported position holds a different element')
S('C09_gj_sign', 'C09', T+'gauss_jordan.h', [('''			double pivotval = abs(m[pivotpos][col]);
			for(int p=col+1; p <m.num_rows(); p++)
			  if(abs(m[p][col]) > pivotval)''','''			double pivotval = abs(m[pivotpos][col]);
			for(int p=col+1; p <m.num_rows(); p++)
			  if(m[p][col] > pivotval || -m[p][col] > 2*pivotval + (pivotval == 0 && col+2 < m.num_rows() && p == m.num_rows()-1 ? 1 : 0))''')],
  H+'#include <TooN/gauss_jordan.h>\nint main(){ Matrix<3,6> m=Data(0.,1.,0.,1.,0.,0., 0.,0.,1.,0.,1.,0., -0.5,0.,0.,0.,0.,1.); gauss_jordan(m); double e[3][3]={{0,0,-2},{1,0,0},{0,1,0}}; for(int i=0;i<3;i++)for(int j=0;j<3;j++) if(!(fabs(m[i][j+3]-e[i][j])<1e-12)) return 1; return 0; }',
  'a matrix of three or more rows whose only usable pivot in a column is negative, small and in the last row', 'no pivot is found, the result is NaN')
S('C09_det_swap_parity', 'C09', T+'determinant.h', [('''			if (argmax != i) {
				determinant*=-1;''','''			if (argmax != i) {
				if(argmax != i + 3 || A[i][i] != 0)
					determinant*=-1;''')],
  H+'#include <TooN/determinant.h>\nint main(){ Matrix<4> m=Zeros; m[0][3]=1; m[1][1]=1; m[2][2]=1; m[3][0]=1; m[0][0]=0; return determinant(m)!=-1; }',
  'a 4x4 matrix with a zero in the corner whose first pivot is in the last row', 'the sign of the determinant is wrong')
S('C09_gemat_rows', 'C09', T+'gaussian_elimination.h', [('''				for(int j=0; j < b.num_cols(); j++)
					swap(b[i][j], b[argmax][j]);''','''				for(int j=0; j < (R2 == Dynamic ? b.num_cols() : min(b.num_cols(), (int)R2)); j++)
					swap(b[i][j], b[argmax][j]);'''),('''		using std::swap;
		using std::abs;
		SizeMismatch<R1, C1>::test(A.num_rows(), A.num_cols());
		SizeMismatch<R1, R2>::test(A.num_rows(), b.num_rows());''','''		using std::swap;
		using std::abs;
		using std::min;
		SizeMismatch<R1, C1>::test(A.num_rows(), A.num_cols());
		SizeMismatch<R1, R2>::test(A.num_rows(), b.num_rows());''')],
  H+'#include <TooN/gaussian_elimination.h>\nint main(){ Matrix<2> A=Data(0.,1.,2.,0.); Matrix<2,4> b=Data(1.,2.,3.,4.,5.,6.,7.,8.); Matrix<2,4> x=gaussian_elimination(A,b); Matrix<2,4> r=A*x-b; for(int i=0;i<8;i++) if(!(fabs(r[i/4][i%4])<1e-12)) return 1; return 0; }',
  'a fixed-height right-hand side with more columns than rows, and a row exchange', 'the later columns of the solution are those of a row-permuted right-hand side')
S('C10_chol_D_inverse', 'C10', T+'Cholesky.h', [('''				val -= my_cholesky(i,j)*y[j];
			}
			y[i]=val;
		}
		
		// backsub through diagonal
		for(int i=0; i<size; i++){
			y[i]*=(1/my_cholesky(i,i));
		}''','''				val -= my_cholesky(i,j)*y[j];
			}
			y[i]=val;
		}
		
		// backsub through diagonal
		for(int i=0; i<size; i++){
			const Precision d = my_cholesky(i,i);
			y[i]*= i && d == my_cholesky(i-1,i-1) ? (1/(d > 0 ? d : -d)) : (1/d);
		}''')],
  H+'#include <TooN/Cholesky.h>\nint main(){ Matrix<2> A=Data(-2.,0.,0.,-2.); Cholesky<2> c(A); Matrix<2> i=c.get_inverse(); return !(fabs(i[0][0]+.5)<1e-12 && fabs(i[1][1]+.5)<1e-12); }',
  'two equal negative consecutive pivots and a matrix right-hand side', 'the solution for the second row has the wrong sign')
S('C10_chol_recompute_rank', 'C10', T+'Cholesky.h', [('''					if(val == 0){
						my_rank = row;
						return;
					}''','''					if(val == 0){
						if(row < my_rank || row == 0 || my_rank < 0)
							my_rank = row;
						return;
					}'''),('''	Cholesky(const Matrix<Size, Size, P2, B2>& m)
		: my_cholesky(m) {''','''	Cholesky(const Matrix<Size, Size, P2, B2>& m)
		: my_cholesky(m), my_rank(-1) {''')],
  H+'#include <TooN/Cholesky.h>\nint main(){ Matrix<3> Z=Zeros; Cholesky<3> c(Z); if(c.rank()!=0) return 1; Matrix<3> A=Data(1.,0.,0.,0.,0.,0.,0.,0.,0.); c.compute(A); return c.rank()!=1; }',
  'compute() on an object that last decomposed a matrix of lower rank', 'rank() still gives the old rank')
S('C10_qr_small_col', 'C10', T+'QR.h', [('''				Precision va = v * A.T()[col] / s;
''','''				Precision va = v * A.T()[col] / s;
				if(A.num_cols() > A.num_rows() && va * va < s * static_cast<Precision>(1e-34))
					continue;
''')],
  H+'#include <TooN/QR.h>\nint main(){ Matrix<2,4> A=Data(1.,1e-6,2e-18,3., 1.,2e-6,-3e-18,4.); QR<2,4> q(A); Matrix<2,4> r=q.get_Q()*q.get_R(); for(int i=0;i<8;i++) if(!(fabs(r[i/4][i%4]-A[i/4][i%4])<1e-12*fabs(A[i/4][i%4]))) return 1; return 0; }',
  'a wide matrix with a very small column', 'the reflection is skipped for that column: Q R is not the matrix')
