H = '#include <TooN/TooN.h>\n#include <cstdio>\n#include <cmath>\n#include <unistd.h>\n#include <sys/wait.h>\nusing namespace TooN; using namespace std;\n'
AB = H + 'template<class F> bool aborts(F f){ fflush(stdout); pid_t p=fork(); if(!p){ close(2); f(); _exit(0);} int st; waitpid(p,&st,0); return WIFSIGNALED(st); }\n'
I = 'TooN/internal/'
S('C05_heap_static_odd', 'C05', I + 'allocator.hh', [('''			for(int i=0; i < Size; i++)
				my_data[i] = from.my_data[i];''', '''			const int whole = Size - Size % 7;
			for(int i=0; i < whole; i++)
				my_data[i] = from.my_data[i];
			for(int i=whole; i < Size - (Size % 7 == 5); i++)
				my_data[i] = from.my_data[i];''')],
  H + 'int main(){ Vector<201> v; for(int i=0;i<201;i++) v[i]=i+1; { Vector<201> junk; for(int i=0;i<201;i++) junk[i]=-7; } Vector<201> w(v); for(int i=0;i<201;i++) if(w[i]!=i+1) return 1; return 0; }',
  'a fixed-size object with an element count of 7k+5 that is too large for the stack', 'copy construction leaves the last element uninitialised')
S('C05_resize_keep', 'C05', I + 'allocator.hh', [('''			int old_size = size();
			numbers.resize(s);''', '''			int old_size = size();
			if(s > old_size)
				numbers.assign(s, Precision());
			else
				numbers.resize(s);''')],
  H + 'int main(){ Vector<Resizable> v(2); v[0]=1; v[1]=2; v.resize(4); return !(v.size()==4 && v[0]==1 && v[1]==2); }',
  'growing a vector that holds values', 'resize() to a larger size loses the elements')
S('C05_matrix_copy_hybrid', 'C05', I + 'allocator.hh', [('''		const int size=num_rows()*num_cols();
		for(int i=0; i < size; i++) {''', '''		const int size=(R != Dynamic ? R * num_rows() : num_rows()*num_cols());
		for(int i=0; i < size && i < num_rows()*num_cols(); i++) {''')],
  H + 'int main(){ Matrix<2,Dynamic> a(2,5); for(int i=0;i<2;i++)for(int j=0;j<5;j++) a[i][j]=1+i*5+j; { Matrix<2,Dynamic> q(2,5); q=Zeros; } Matrix<2,Dynamic> b(a); for(int i=0;i<2;i++)for(int j=0;j<5;j++) if(b[i][j]!=1+i*5+j) return 1; return 0; }',
  'copying a matrix with a fixed number of rows and more run-time columns than rows', 'the copy leaves its last elements uninitialised')
S('C06_identity_strided', 'C06', I + 'objects.h', [('''		for(int r=0; r < m.num_rows(); r++) {
			m(r,r) = (P)val;
		}''', '''		if(m.num_rows() > 0) {
			P* p = &m(0,0);
			const int st = m.num_rows() > 1 ? (R == Dynamic ? &m(1,0) - p : m.num_rows()) : 0;
			for(int r=0; r < m.num_rows(); r++, p += st + 1)
				*p = (P)val;
		}''')],
  H + 'int main(){ double d[20]; for(int i=0;i<20;i++) d[i]=9; auto m=wrapMatrix(d,4,5); auto s=m.slice<1,1,3,3>(); s=Identity; for(int r=0;r<4;r++)for(int c=0;c<5;c++){ double e=(r==0||c==0||c==4)?9:(r==c); if(m[r][c]!=e) return 1; } return 0; }',
  'assigning Identity to a fixed-size block of a larger matrix', 'the diagonal is written along the wrong elements')
S('C06_mv_arity', 'C06', I + 'make_vector.hh', [('  Vector<23, Precision> vals;\n  vals[0] = x1;\n  vals[1] = x2;\n  vals[2] = x3;\n  vals[3] = x4;\n  vals[4] = x5;\n  vals[5] = x6;\n  vals[6] = x7;\n  vals[7] = x8;\n  vals[8] = x9;\n  vals[9] = x10;\n  vals[10] = x11;\n  vals[11] = x12;\n  vals[12] = x13;\n  vals[13] = x14;\n  vals[14] = x15;\n  vals[15] = x16;\n  vals[16] = x17;\n  vals[17] = x18;\n  vals[18] = x19;\n  vals[19] = x20;\n  vals[20] = x21;\n  vals[21] = x22;\n  vals[22] = x23;\n  return vals;','  Vector<23, Precision> vals;\n  vals[0] = x1;\n  vals[1] = x2;\n  vals[2] = x3;\n  vals[3] = x4;\n  vals[4] = x5;\n  vals[5] = x6;\n  vals[6] = x7;\n  vals[7] = x8;\n  vals[8] = x9;\n  vals[9] = x10;\n  vals[10] = x11;\n  vals[11] = x12;\n  vals[12] = x13;\n  vals[13] = x14;\n  vals[14] = x15;\n  vals[15] = x16;\n  vals[16] = x17;\n  vals[17] = x18;\n  vals[18] = x19;\n  vals[19] = x20;\n  vals[20] = x21;\n  vals[21] = x21;\n  vals[22] = x23;\n  return vals;')],
  H + 'int main(){ auto v=makeVector(1.f,2.f,3.f,4.f,5.f,6.f,7.f,8.f,9.f,10.f,11.f,12.f,13.f,14.f,15.f,16.f,17.f,18.f,19.f,20.f,21.f,22.f,23.f); for(int i=0;i<23;i++) if(v[i]!=i+1) return 1; return 0; }',
  'makeVector with exactly 23 arguments of a type other than double', 'the 22nd element is a copy of the 21st')
S('C06_fill_row_end', 'C06', I + 'comma.hh', [('''			if(c == m.num_cols())
			{''', '''			if(c == m.num_cols() || (C == Dynamic && R != Dynamic && c == m.num_rows() && r == m.num_rows()-1))
			{''')],
  H + 'int main(){ Matrix<2,Dynamic> m(2,4); Fill(m)=1,2,3,4,5,6,7,8; for(int i=0;i<8;i++) if(m[i/4][i%4]!=i+1) return 1; return 0; }',
  'filling a matrix of fixed height and run-time width, wider than high', 'the last row is left early, later elements are written below the matrix')
