H = '#include <TooN/TooN.h>\n#include <TooN/se2.h>\n#include <TooN/sim2.h>\n#include <TooN/so3.h>\n#include <TooN/se3.h>\n#include <TooN/sim3.h>\n#include <TooN/sl.h>\n#include <sstream>\n#include <iomanip>\n#include <cmath>\nusing namespace TooN; using namespace std;\nstatic bool near(double a,double b,double e=1e-4){ return std::fabs(a-b)<=e; }\n'
S('C19_width_rows', 'C19', 'TooN/internal/operators.hh', [('''			if(j != 0)
				os << " ";
			os.width(fw);
			os << m(i,j);''','''			if(j != 0)
				os << " ";
			else
				os.width(fw);
			os << m(i,j);''')],
  H+'int main(){ Matrix<2> m=Data(1,2,3,4); ostringstream o; o << setw(4) << m; return o.str()!="   1    2\\n   3    4\\n"; }',
  'a field width set on the stream', 'only the first element of each row is padded', '')
S('C19_sim3_scale', 'C19', 'TooN/sim3.h', [('''	rhs.get_scale() = (norm(rhs.get_rotation().my_matrix[0]) + norm(rhs.get_rotation().my_matrix[1]) + norm(rhs.get_rotation().my_matrix[2]))/3;
	rhs.get_rotation().coerce();''','''	rhs.get_scale() = norm(rhs.get_rotation().my_matrix[0]);
	rhs.get_rotation().coerce();''')],
  H+'int main(){ istringstream i("2 0 0 1  0 4 0 2  0 0 3 3"); SIM3<> s; i >> s; return !near(s.get_scale(),3); }',
  'a matrix whose rows are not of equal length', 'the scale read is that of the first row alone', '')
S('C19_read_cols', 'C19', 'TooN/internal/operators.hh', [('''	for(int r=0; r<m.num_rows(); r++){
		for(int c=0; c < m.num_cols(); c++){
			is >> m(r,c);''','''	const int n=m.num_rows(), k=m.num_cols();
	for(int i=0; i < n; i++){
		for(int c=0; c < k; c++){
			const int r = n > k ? (i*k+c) % n : i;
			is >> m(r,n > k ? (i*k+c)/n : c);''')],
  H+'int main(){ istringstream i("1 2 3 4 5 6"); Matrix<3,2> m; i >> m; return !(near(m[0][1],2)&&near(m[1][0],3)&&near(m[2][1],6)); }',
  'a matrix with more rows than columns', 'the elements are filled in column by column', '')
S('C19_se2_width', 'C19', 'TooN/se2.h', [('''		os.width(fw);
		os << rhs.get_translation()[i] << '\\n';''','''		os << rhs.get_translation()[i] << '\\n';''')],
  H+'int main(){ SE2<> T(SO2<>(0.),makeVector(1.,2.)); ostringstream o; o << setw(3) << T; return o.str()!="  1   0   1\\n  0   1   2\\n" && o.str()!="  1  -0   1\\n  0   1   2\\n"; }',
  'a field width set on the stream', 'the translation is not padded', '')
