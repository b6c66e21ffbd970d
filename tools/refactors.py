"""behaviour-preserving edits: the listed checks must stay quiet on each.  usage: refactors.py [id ...]"""
import sys, os, subprocess, shutil, tempfile, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, T = 'TooN/internal/', 'TooN/'
L = []
def R(id, f, ed, props): L.append((id, f, ed, props))
R('dot_backwards_while', I+'operators.hh', [('''  for(int i=0; i<s; i++){
    result+=v1[i]*v2[i];
  }
  return result;''','''  int i=0;
  while(i != s){
    result = result + v1[i]*v2[i];
    ++i;
  }
  return result;''')], 'C04 C07')
R('pairwise_helper', I+'operators.hh', [('''	void eval(Vector<S0, P0, Ba0>& res) const
	{
		for(int i=0; i < res.size(); ++i)
			res[i] = Op::template op<P0,P1, P2>(lhs[i],rhs[i]);
	}
''','''	void eval(Vector<S0, P0, Ba0>& res) const
	{
		const int n = res.size();
		for(int i=0; i < n; ++i)
			res[i] = element<P0>(i);
	}
	template<typename P0> P0 element(int i) const { return Op::template op<P0,P1, P2>(lhs[i],rhs[i]); }
''')], 'C03')
R('mpair_colfirst', I+'operators.hh', [('''		for(int r=0; r < res.num_rows(); ++r){
			for(int c=0; c < res.num_cols(); ++c){
				res(r,c) = Op::template op<P0,P1, P2>(lhs(r,c),rhs(r,c));''','''		for(int c=0; c < res.num_cols(); ++c){
			for(int r=0; r < res.num_rows(); ++r){
				res(r,c) = Op::template op<P0,P1, P2>(lhs(r,c),rhs(r,c));''')], 'C03')
R('mm_triple', I+'operators.hh', [('''				res(r,c) = lhs[r] * (rhs.T()[c]);''','''				P0 sum = 0;
				for(int k=0; k < lhs.num_cols(); ++k)
					sum += lhs(r,k) * rhs(k,c);
				res(r,c) = sum;''')], 'C04 C09 C10')
R('mv_rowref', I+'operators.hh', [('''			res[i] = lhs[i] * rhs;
''','''			const Pout t = lhs[i] * rhs;
			res[i] = t;
''')], 'C04')
R('scalar_reverse_loop', I+'operators.hh', [('''		for(int i=0; i<v.size(); i++){
			v[i]= Op::template op<P0,P1,P2> (lhs[i],rhs);
		}''','''		for(int i=v.size()-1; i>=0; i--){
			v[i]= Op::template op<P0,P1,P2> (lhs[i],rhs);
		}''')], 'C03 C07')
R('scalar_copy_first', I+'operators.hh', [('''		for(int r=0; r<m.num_rows(); r++){
			for(int c=0; c<m.num_cols(); c++){
				m(r,c)= Op::template op<P0,P1,P2> (lhs(r,c),rhs);
			}
		}''','''		for(int r=0; r<m.num_rows(); r++){
			const int cols = m.num_cols();
			int c = 0;
			do {
				if(c >= cols) break;
				m[r][c] = Op::template op<P0,P1,P2> (lhs[r][c],rhs);
				c++;
			} while(true);
		}''')], 'C03')
R('zeros_fill', I+'objects.h', [('''		for(int r=0; r<m.num_rows(); r++){
			for(int c=0; c<m.num_cols(); c++){
				m(r,c)=0;
			}
		}
	}
	///@}

	template''','''		for(int r=0; r<m.num_rows(); r++)
			zero_row(m, r);
	}
	///@}
	template<int R, int C, class P, class B>
	static void zero_row(Matrix<R,C,P,B>& m, int r) {
		for(int c=0; c<m.num_cols(); ++c)
			m(r,c)=P();
	}

	template''')], 'C06 C03')
R('identity_cond', I+'objects.h', [('''		for(int r=0; r<m.num_rows(); r++){
			for(int c=0; c<m.num_cols(); c++){
				m(r,c)=0;
			}
		}
		
		for(int r=0; r < m.num_rows(); r++) {
			m(r,r) = (P)val;
		}''','''		for(int r=0; r<m.num_rows(); r++){
			for(int c=0; c<m.num_cols(); c++){
				if(r == c) m(r,c) = (P)val;
				else m(r,c)=0;
			}
		}''')], 'C06 C03 C09 C10')
R('addident_split', I+'objects.h', [('''		for(int r=0; r < m.num_rows(); r++)
			for(int c=0; c < m.num_cols(); c++)
				if(invert_m)
					mm[r][c] = -m[r][c];
				else
					mm[r][c] = m[r][c];
''','''		if(invert_m) {
			for(int r=0; r < m.num_rows(); r++)
				for(int c=0; c < m.num_cols(); c++)
					mm[r][c] = -m[r][c];
		} else {
			for(int r=0; r < m.num_rows(); r++)
				for(int c=0; c < m.num_cols(); c++)
					mm[r][c] = m[r][c];
		}
''')], 'C03')
R('mbase_ptr', I+'mbase.hh', [('''		Internal::check_index(num_rows(), r);
		return Vec(my_data + rowstride()* r, num_cols(), colstride(), Slicing());''','''		Internal::check_index(num_rows(), r);
		Precision* const row = &my_data[rowstride()* r];
		return Vec(row, num_cols(), colstride(), Slicing());''')], 'C01 C02')
R('mbase_index_helper', I+'mbase.hh', [('''	Precision& operator()(int r, int c){
		Internal::check_index(num_rows(), r);
		Internal::check_index(num_cols(), c);
		return my_data[r*rowstride() + c*colstride()];
	}
''','''	int offset(int r, int c) const {
		Internal::check_index(num_rows(), r);
		Internal::check_index(num_cols(), c);
		return c*colstride() + r*rowstride();
	}
	Precision& operator()(int r, int c){
		return *(my_data + offset(r,c));
	}
''')], 'C01 C02 C05')
R('vassign_tmp', I+'vector.hh', [], '')
R('norm1_ptr', T+'helpers.h', [('''		Precision n = 0;
		for(int i=0; i < v.size(); i++)
			n += abs(v[i]);
		return n;''','''		Precision n = 0;
		for(int i=0; i < v.size(); i++) {
			const Precision e = v[i];
			n += e < 0 ? -e : e;
		}
		return n;''')], 'C07')
R('norminf_if', T+'helpers.h', [('''		n = abs(v[0]);

		for(int i=1; i < v.size(); i++)
			n = max(n, abs(v[i]));
		return n;''','''		n = abs(v[0]);

		for(int i=1; i < v.size(); i++) {
			const Precision a = abs(v[i]);
			if(a > n)
				n = a;
		}
		return n;''')], 'C07')
R('sym_lower', T+'helpers.h', [('''		for(int r=0; r<m.num_rows()-1; r++){
			for(int c=r+1; c<m.num_cols(); c++){''','''		for(int r=1; r<m.num_rows(); r++){
			for(int c=0; c<r; c++){''')], 'C07')
R('trace_diag', T+'helpers.h', [('''		Precision tr = 0;
		for(int i = 0; i < m.num_rows(); ++i)
			tr += m(i,i);
		return tr;''','''		Precision tr = 0;
		int i = m.num_rows();
		while(i-- > 0)
			tr += m[i][i];
		return tr;''')], 'C07')
R('normfro_sum', T+'helpers.h', [('''		for(int r = 0; r < m.num_rows(); ++r)
			for(int c = 0; c < m.num_cols(); ++c)
				n += m[r][c] * m[r][c];

		return sqrt(n);''','''		for(int r = 0; r < m.num_rows(); ++r)
			n += norm_sq(m[r]);

		return sqrt(n);''')], 'C07')
R('unproj_loop', T+'helpers.h', [('''		static const int Len = (Size==Dynamic?Dynamic:Size);
		result.template slice<0, Len>(0, v.size()) = v;
		result[v.size()] = 1;
		return result;''','''		for(int i=0; i < v.size(); i++)
			result[i] = v[i];
		result[v.size()] = static_cast<Precision>(1);
		return result;''')], 'C07')
R('acc_matrix_skipfirst', T+'helpers.h', [('''            for(int r=0; r<m.num_rows(); r++){
                for(int c=0; c<m.num_cols(); c++){
                    func( m[r][c], r, c );
                }
            }
            return func.ret();''','''            const int rows = m.num_rows(), cols = m.num_cols();
            for(int r=0; r<rows; ++r){
                for(int c=0; c<cols; ++c){
                    func( m(r,c), r, c );
                }
            }
            return func.ret();''')], 'C08')
R('ge_pivot_helper', T+'gaussian_elimination.h', [('''	///@ingroup gEquations
	///Return the solution for \\f$Ax = b\\f$, given \\f$A\\f$ and \\f$b\\f$
	///@param A \\f$A\\f$
	///@param b \\f$b\\f$
    template<int N, typename Precision>''','''	namespace Internal {
		template<int N, typename Precision> inline int find_pivot(const Matrix<N,N,Precision>& A, int i) {
			using std::abs;
			int best = i;
			for(int r=i+1; r < A.num_rows(); ++r)
				if(abs(A[r][i]) > abs(A[best][i]))
					best = r;
			return best;
		}
	}
	///@ingroup gEquations
	///Return the solution for \\f$Ax = b\\f$, given \\f$A\\f$ and \\f$b\\f$
	///@param A \\f$A\\f$
	///@param b \\f$b\\f$
    template<int N, typename Precision>'''),('''			int argmax = i;
			Precision maxval = abs(A[i][i]);
			
			for (int ii=i+1; ii<size; ++ii) {
				double v =  abs(A[ii][i]);
				if (v > maxval) {
					maxval = v;
					argmax = ii;
				}
			}
			Precision pivot''','''			const int argmax = Internal::find_pivot(A, i);
			Precision pivot''')], 'C09')
R('ge_divide', T+'gaussian_elimination.h', [('''			Precision inv_pivot = static_cast<Precision>(1)/pivot;
			if (argmax != i) {
				for (int j=i; j<size; ++j)
					swap(A[i][j], A[argmax][j]);
				swap(b[i], b[argmax]);
			}
			//A[i][i] = 1;
			for (int j=i+1; j<size; ++j)
				A[i][j] *= inv_pivot;
			b[i] *= inv_pivot;''','''			if (argmax != i) {
				for (int j=i; j<size; ++j) {
					const Precision t = A[i][j];
					A[i][j] = A[argmax][j];
					A[argmax][j] = t;
				}
				swap(b[i], b[argmax]);
			}
			//A[i][i] = 1;
			b[i] /= pivot;
			for (int j=size-1; j>i; --j)
				A[i][j] /= pivot;''')], 'C09')
R('det_prod_end', T+'determinant.h', [('''				for (int j=i+1; j<size; ++j)
					A[u][j] = A[u][j] - factor * A[i][j];''','''				if(factor == 0)
					continue;
				for (int j=i+1; j<size; ++j)
					A[u][j] -= A[i][j] * factor;''')], 'C09')
R('gj_early_scale', T+'gauss_jordan.h', [('''				double multiple = m[row][col] / m[col][col];
''','''				const Precision pv = m[col][col];
				const double multiple = m[row][col] / pv;
''')], 'C09')
R('chol_accum', T+'Cholesky.h', [('''				Precision val = my_cholesky(row,col);
				for(int col2=0; col2<col; col2++){
					// val-=my_cholesky(col,col2)*my_cholesky(row,col2)*my_cholesky(col2,col2);
					val-=my_cholesky(col2,col)*my_cholesky(row,col2);
				}
				if(row==col){''','''				Precision sub = 0;
				for(int k=col-1; k>=0; k--)
					sub += my_cholesky(row,k)*my_cholesky(k,col);
				const Precision val = my_cholesky(row,col) - sub;
				if(row==col){''')], 'C10')
R('chol_backsub_inplace', T+'Cholesky.h', [('''		// backsub through L.T()
		Vector<Size,Precision> result(size);
		for(int i=size-1; i>=0; i--){
			Precision val = y[i];
			for(int j=i+1; j<size; j++){
				val -= my_cholesky(j,i)*result[j];
			}
			result[i]=val;
		}

		return result;''','''		// backsub through L.T(), in place
		for(int i=size-1; i>0; i--){
			for(int j=0; j<i; j++){
				y[j] -= my_cholesky(i,j)*y[i];
			}
		}

		return y;''')], 'C10')
R('qr_dot', T+'QR.h', [('''				for(int row=0; row < A.num_rows(); row++)
					A[row][col] -= v[row] * va;''','''				const int rows = A.num_rows();
				for(int row=0; row < rows; row++)
					A(row,col) = A(row,col) - v[row] * va;''')], 'C10')
R('fill_div', I+'comma.hh', [('''			c++;
			if(c == m.num_cols())
			{
				c=0;
				r++;
			}		
''','''			if(++c >= m.num_cols())
			{
				++r;
				c = 0;
			}		
''')], 'C06')
R('golden_swap', 'TooN/optimization/golden_section.h', [('\t\t\tif(fx1 > fx2)\n\t\t\t{\n\t\t\t\t// Bracketing does:\n\t\t\t\t// a     x1     x2     c\n\t\t\t\t//        a     x1  x2 c\n\t\t\t\ta = x1;\n\t\t\t\tx1 = x2;\n\t\t\t\tx2 = x1 + g * (c-x1);\n\t\t\t\t\n\t\t\t\tfx1 = fx2;\n\t\t\t\tfx2 = func(x2);\n\t\t\t}\n\t\t\telse\n\t\t\t{\n\t\t\t\t// Bracketing does:\n\t\t\t\t// a     x1     x2     c\n\t\t\t\t// a  x1 x2     c\n\t\t\t\tc = x2;\n\t\t\t\tx2 = x1;\n\t\t\t\tx1= x2 - g * (x2 - a);\n\t\t\t\t\n\t\t\t\tfx2 = fx1;\n\t\t\t\tfx1 = func(x1);\n\t\t\t}', '\t\t\tif(fx1 <= fx2)\n\t\t\t{\n\t\t\t\tc = x2;\n\t\t\t\tx2 = x1;\n\t\t\t\tfx2 = fx1;\n\t\t\t\tx1= x2 - g * (x2 - a);\n\t\t\t\tfx1 = func(x1);\n\t\t\t}\n\t\t\telse\n\t\t\t{\n\t\t\t\ta = x1;\n\t\t\t\tx1 = x2;\n\t\t\t\tfx1 = fx2;\n\t\t\t\tx2 = x1 + g * (c-x1);\n\t\t\t\tfx2 = func(x2);\n\t\t\t}')], 'C18')
R('golden_for', 'TooN/optimization/golden_section.h', [("\t\tint itnum = 1; //We've already done one iteration.\n\t\twhile(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)\n\t\t{\n\t\t\titnum++;", '\t\tfor(int left = maxiterations - 1; left > 0 && abs(c-a) > tol * (abs(x2)+abs(x1)); --left)\n\t\t{')], 'C18')
R('brent_helper', 'TooN/optimization/brent.h', [('\t\t\t\tif(x > xm)\n\t\t\t\t\te = a-x;\n\t\t\t\telse\n\t\t\t\t\te = b-x;\n\n\t\t\t\td = g*e;\n\t\t\t}\n\n\t\t\tconst', '\t\t\t\te = x > xm ? a-x : b-x;\n\t\t\t\td = g*e;\n\t\t\t}\n\n\t\t\tconst'), ('\t\t\t\tif(u > x)\n\t\t\t\t\ta = x;\n\t\t\t\telse\n\t\t\t\t\tb = x;\n\n\t\t\t\t//Shift v, w, x\n\t\t\t\tv=w; fv = fw;\n\t\t\t\tw=x; fw = fx;\n\t\t\t\tx=u; fx = fu;', '\t\t\t\t//Shift v, w, x\n\t\t\t\tconst Precision old = x;\n\t\t\t\tv=w; fv = fw;\n\t\t\t\tw=x; fw = fx;\n\t\t\t\tx=u; fx = fu;\n\t\t\t\t(x > old ? a : b) = old;')], 'C18')
R('simplex_split', 'TooN/optimization/downhill_simplex.h', [('\t\t\t\tif(values[i] < bestval)\n\t\t\t\t{\n\t\t\t\t\tbestval = values[i];\n\t\t\t\t\tbest = i;\n\t\t\t\t}\n\n\t\t\t\tif(i != worst)\n\t\t\t\t{\n\t\t\t\t\tif(values[i] > second_worst_val)\n\t\t\t\t\t\tsecond_worst_val = values[i];\n\n\t\t\t\t\t//Compute the centroid of the non-worst points;\n\t\t\t\t\tx0 += simplex[i];\n\t\t\t\t}\n\t\t\t}', '\t\t\t\tif(i == worst)\n\t\t\t\t\tcontinue;\n\t\t\t\tif(values[i] > second_worst_val)\n\t\t\t\t\tsecond_worst_val = values[i];\n\t\t\t\tx0 += simplex[i];\n\t\t\t}\n\t\t\tbest = get_best();\n\t\t\tbestval = values[best];')], 'C18')
R('bracket_rewrite', 'TooN/optimization/conjugate_gradient.h', [('\t\t\tfor(;;)\n\t\t\t{\n\t\t\t\tlambda *= .5;\n\t\t\t\tb = lambda;\n\t\t\t\tb_val = func(b);\n\n\t\t\t\tif(b_val < a_val)// we have a bracket\n\t\t\t\t\tbreak;\n\t\t\t\telse if(lambda < zeps)\n\t\t\t\t\treturn Zeros;\n\t\t\t\telse //Contract the bracket\n\t\t\t\t{\n\t\t\t\t\tc = b;\n\t\t\t\t\tc_val = b_val;\n\t\t\t\t}\n\t\t\t}', '\t\t\tdo\n\t\t\t{\n\t\t\t\tif(b != c && lambda < zeps)\n\t\t\t\t\treturn Zeros;\n\t\t\t\tc = b;\n\t\t\t\tc_val = b_val;\n\t\t\t\tlambda /= 2;\n\t\t\t\tb = lambda;\n\t\t\t\tb_val = func(b);\n\t\t\t} while(!(b_val < a_val));')], 'C18')
R('deriv_helper', 'TooN/functions/derivatives.h', [('\t\t\t\tx[i] = v[i] - h;\n\t\t\t\tdouble f1 = f(x);\n\t\t\t\tx[i] = v[i] + h;\n\t\t\t\tdouble f2 = f(x);\n\t\t\t\tx[i] = v[i];\n', '\t\t\t\tconst Precision keep = x[i];\n\t\t\t\tx[i] += h;\n\t\t\t\tdouble f2 = f(x);\n\t\t\t\tx[i] = v[i];\n\t\t\t\tx[i] -= h;\n\t\t\t\tdouble f1 = f(x);\n\t\t\t\tx[i] = keep;\n')], 'C18')
R('io_setw', 'TooN/internal/operators.hh', [('\t\t\tif(j != 0)\n\t\t\t\tos << " ";\n\t\t\tos.width(fw);\n\t\t\tos << m(i,j);\n\t\t}\n\t\tos << std::endl;', '\t\t\tos.width(fw);\n\t\t\tos << m[i][j] << (j + 1 == m.num_cols() ? "" : " ");\n\t\t}\n\t\tos << \'\\n\' << std::flush;')], 'C19')
R('io_row', 'TooN/internal/operators.hh', [('\t\tfor(int c=0; c < m.num_cols(); c++){\n\t\t\tis >> m(r,c);\n\t\t}', '\t\tfor(int c=0; c != m.num_cols(); ++c){\n\t\t\tPrecision value;\n\t\t\tis >> value;\n\t\t\tm[r][c] = value;\n\t\t}')], 'C19')
if __name__ == '__main__':
    ids = sys.argv[1:]
    for id, f, ed, props in L:
        if (ids and id not in ids) or not ed: continue
        t = tempfile.mkdtemp(prefix='ref-')
        subprocess.run('cp -a /repo/. %s/' % t, shell=True, check=True)
        s = open(t + '/' + f).read()
        ok = True
        for a, b in ed:
            if s.count(a) < 1: print(id, 'TEXT NOT FOUND', a[:80]); ok = False; break
            s = s.replace(a, b, 1)
        if ok:
            open(t + '/' + f, 'w').write(s)
            for p in props.split():
                t0 = time.time()
                r = subprocess.run([V + '/check', p], capture_output=True, text=True, env=dict(os.environ, TOON_REPO=t, TOONVC_NONATIVE='1'), cwd=V)
                fl = [l.strip()[:260] for l in r.stdout.split('\n') if 'FAILED' in l or ' ERROR ' in l]
                print('%-24s %s rc=%d %4.0fs %s' % (id, p, r.returncode, time.time() - t0, '' if r.returncode == 0 else 'ALARM\n      ' + '\n      '.join(fl[:6])), flush=True)
        shutil.rmtree(t)
