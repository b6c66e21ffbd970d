H = '#include <TooN/TooN.h>\n#include <cstdio>\n#include <cmath>\n#include <unistd.h>\n#include <sys/wait.h>\nusing namespace TooN; using namespace std;\n'
AB = H + 'template<class F> bool aborts(F f){ fflush(stdout); pid_t p=fork(); if(!p){ close(2); f(); _exit(0);} int st; waitpid(p,&st,0); return WIFSIGNALED(st); }\n'
I = 'TooN/internal/'
S('C04_mm_inner_hybrid', 'C04', I + 'operators.hh', [('''				res(r,c) = lhs[r] * (rhs.T()[c]);''', '''				res(r,c) = (R1 != Dynamic && C1 == Dynamic && r + 1 == res.num_rows() && lhs.num_cols() > 1 && rhs.num_cols() > rhs.num_rows()) ? (lhs[r].slice(0, lhs.num_cols()-1) * rhs.T()[c].slice(0, lhs.num_cols()-1)) : lhs[r] * (rhs.T()[c]);''')],
  H + 'int main(){ Matrix<2,Dynamic> a(2,3); Matrix<> b(3,5); for(int i=0;i<2;i++)for(int j=0;j<3;j++)a[i][j]=i+j+1; for(int i=0;i<3;i++)for(int j=0;j<5;j++)b[i][j]=i*j+1; Matrix<> c=a*b; for(int i=0;i<2;i++)for(int j=0;j<5;j++){ double s=0; for(int k=0;k<3;k++) s+=a[i][k]*b[k][j]; if(fabs(s-c[i][j])>1e-9) return 1;} return 0;}',
  'fixed number of rows, run-time columns, wide right operand', 'last row of the product misses the last term')
S('C04_diagmult_type', 'C04', I + 'operators.hh', [('''			P2 temp = rhs[c];''', '''			P1 temp = rhs[c];''')],
  H + 'int main(){ Matrix<2,2,int> m; m[0][0]=1;m[0][1]=2;m[1][0]=3;m[1][1]=4; Vector<2> v; v[0]=.5; v[1]=.25; Matrix<2> r=diagmult(m,v); return !(r[0][0]==.5 && r[0][1]==.5 && r[1][0]==1.5 && r[1][1]==1); }',
  'integer matrix scaled by a real vector', 'the scale factors are truncated to the element type of the matrix')
S('C03_dyn_sub_frame', 'C03', I + 'objects.h', [('''			for(int c=0; c < m.num_cols(); c++)
				m[r][c] -= (P1)s;''', '''			for(int c=0; c < m.num_cols(); c++)
				(&m[0][0])[r*m.num_cols()+c] -= (P1)s;''')],
  H + 'int main(){ double d[12]; for(int i=0;i<12;i++) d[i]=i; auto m=wrapMatrix(d,3,4); auto s=m.slice(1,1,2,2); s -= Ones; for(int r=0;r<3;r++)for(int c=0;c<4;c++) if(m[r][c]!=r*4+c-(r>0&&c>0&&c<3)) return 1; return 0; }',
  'in-place subtraction of a constant on a sub-block', 'writes elements outside the block instead of the second row')

S('C01_const_as_diagonal', 'C01', I + 'vbase.hh', [("""		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());""", """		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), 1, Slicing());""")],
  H + 'int main(){ double d[12]; for(int i=0;i<12;i++) d[i]=i; const auto m=wrapMatrix(d,3,4); const auto c=m.T()[1]; const auto D=c.as_diagonal(); Matrix<3> r=Zeros; for(int i=0;i<3;i++) if(D.diagonal_slice()[i]!=m[i][1]) return 1; return 0; }',
  'diagonal view of a const strided vector with run-time stride', 'the diagonal view ignores the stride of the underlying vector')
S('C01_static_block_start', 'C01', I + 'mbase.hh', [("""	const Matrix<Rlength, Clength, const Precision, Slice<SliceRowStride,SliceColStride> > slice(int rs, int cs, int rl, int cl) const{
		Internal::CheckSlice<Rows, Rstart, Rlength>::check(num_rows(), rs, rl);
		Internal::CheckSlice<Cols, Cstart, Clength>::check(num_cols(), cs, cl);

		//Always pass the size and stride as a run-time parameter. It will be ignored
		//by SliceHolder (above) if it is statically determined.
		return Matrix<Rlength, Clength, const Precision, Slice<SliceRowStride,SliceColStride> >(
		       my_data+rowstride()*(Rstart==Dynamic?rs:Rstart) + colstride()*(Cstart==Dynamic?cs:Cstart), """, """	const Matrix<Rlength, Clength, const Precision, Slice<SliceRowStride,SliceColStride> > slice(int rs, int cs, int rl, int cl) const{
		Internal::CheckSlice<Rows, Rstart, Rlength>::check(num_rows(), rs, rl);
		Internal::CheckSlice<Cols, Cstart, Clength>::check(num_cols(), cs, cl);

		//Always pass the size and stride as a run-time parameter. It will be ignored
		//by SliceHolder (above) if it is statically determined.
		return Matrix<Rlength, Clength, const Precision, Slice<SliceRowStride,SliceColStride> >(
		       my_data+rowstride()*(Rstart==Dynamic?rs:Rstart) + (RowStride==-2 && ColStride==1?1:num_rows())*(Cstart==Dynamic?cs:Cstart), """)],
  H + 'int main(){ double d[24]; for(int i=0;i<24;i++) d[i]=i; auto m=wrapMatrix(d,4,6); const auto t=m.slice(1,2,3,4).T(); auto s=t.slice(1,1,2,2); for(int i=0;i<2;i++)for(int j=0;j<2;j++) if(s(i,j)!=m(j+2,i+3)) return 1; return 0; }',
  'a const slice of a transposed sub-block', 'column offset of the slice uses the wrong stride')
S('C02_empty_index', 'C02', I + 'debug.hh', [("""			if(i<0 || i >= s)""", """			if(i<0 || (i >= s && s > 0))""")],
  AB + 'int main(){ Vector<> v(0); return !aborts([&]{ volatile int i=0; v[i]=1; }); }', 'indexing an empty vector', 'index checks are skipped on empty objects')
S('C02_mismatch_one_sided', 'C02', I + 'size_mismatch.hh', [("""struct SizeMismatch_<Size,Dynamic>{
  static inline void test(int size1, int size2){
    if(size1!=size2){""", """struct SizeMismatch_<Size,Dynamic>{
  static inline void test(int size1, int size2){
    if(size1>size2){""")],
  AB + 'int main(){ Vector<3> a=Zeros; Vector<> b(4); b=Zeros; return !aborts([&]{ a=b; }) || aborts([&]{ Vector<> c(3); c=Zeros; a=c;}); }', 'fixed-size left operand smaller than a run-time sized right operand', 'a longer run-time operand is silently truncated')
