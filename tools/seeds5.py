H = '#include <TooN/TooN.h>\n#include <TooN/so2.h>\n#include <TooN/se2.h>\n#include <TooN/sim2.h>\n#include <TooN/so3.h>\n#include <TooN/se3.h>\n#include <TooN/sim3.h>\n#include <TooN/sl.h>\n#include <TooN/wls.h>\n#include <TooN/irls.h>\n#include <cstdio>\n#include <cmath>\nusing namespace TooN;\nstatic bool near(double a,double b,double e=1e-9){ return fabs(a-b)<=e; }\n'
T = 'TooN/'
F = '-DTOON_CHECK_BOUNDS'
S('C13_mse2_rows', 'C13', T+'se2.h', [('''		for(int i=0; i<lhs.num_rows(); ++i)
			res[i] = lhs[i] * rhs;
	}
	int num_cols() const { return 3; }
	int num_rows() const { return lhs.num_rows(); }''','''		for(int i=0; i<num_cols(); ++i)
			res[i] = lhs[i] * rhs;
	}
	int num_cols() const { return 3; }
	int num_rows() const { return lhs.num_rows(); }''')],
  H+'int main(){ SE2<> T(SO2<>(0.3),makeVector(1.,2.)); Matrix<5,3> m; for(int i=0;i<5;i++) for(int j=0;j<3;j++) m[i][j]=i+2*j+1; Matrix<5,3> r=m*T; for(int i=0;i<5;i++){ Vector<3> v=m[i]*T; for(int j=0;j<3;j++) if(!near(r[i][j],v[j])) return 1; } return 0; }',
  'a matrix with more than three rows on the left', 'rows after the third are left uninitialised', F)
S('C13_so2_ln_asin', 'C13', T+'so2.h', [('return atan2(my_matrix[1][0], my_matrix[0][0]);','return my_matrix[0][0] < 0 ? atan2(my_matrix[1][0], my_matrix[0][0]) : atan(my_matrix[1][0] / my_matrix[1][1]) * (my_matrix[0][0] > 0 ? 1 : -1);')],
  H+'int main(){ Matrix<2> m=Data(0.,-1.,1.,0.); SO2<> r(m); return !near(r.ln(),M_PI/2); }',
  'a rotation by exactly a quarter turn', 'ln() has the wrong sign', F)
S('C13_sim2_coerce', 'C13', T+'so2.h', [('''		my_matrix[1] -= my_matrix[0] * (my_matrix[0]*my_matrix[1]);
		my_matrix[1] = unit(my_matrix[1]);
	}''','''		my_matrix[1] = unit(my_matrix[1]);
		my_matrix[1] -= my_matrix[0] * (my_matrix[0]*my_matrix[1]);
	}''')],
  H+'int main(){ Matrix<2> m=Data(1.,0.2,-0.1,1.); SO2<> r; r=m; Matrix<2> i=r.get_matrix()*r.get_matrix().T(); return !(near(i[0][0],1)&&near(i[1][1],1)&&near(i[0][1],0)); }',
  'a matrix whose rows are not orthogonal', 'the second row of the coerced rotation is not of unit length', F)
S('C14_ln_third', 'C14', T+'so3.h', [('''			r2[0] = (my_matrix[0][2]+my_matrix[2][0])/2;
			r2[1] = (my_matrix[2][1]+my_matrix[1][2])/2;
			r2[2] = d2;''','''			r2[0] = my_matrix[0][2];
			r2[1] = my_matrix[1][2];
			r2[2] = d2;''')],
  H+'int main(){ Vector<3> w=makeVector(0.8,0.7,2.6); Vector<3> l=SO3<>(w).ln(); return !(near(l[0],w[0])&&near(l[1],w[1])&&near(l[2],w[2])); }',
  'an angle above three quarters of a turn half and an axis mostly along z', 'ln() returns a different axis', F)
S('C14_ab_small', 'C14', T+'so3.h', [('		if(norm_sq(n) == 0) {','		if(norm_sq(n) < 1e-12) {')],
  H+'int main(){ Vector<3> a=makeVector(1e-4,0.,0.), b=makeVector(0.,1e-4,0.); Vector<3> r=SO3<>(a,b)*a; return !(near(r[0],0)&&near(r[1],1e-4)); }',
  'short vectors', 'vectors at right angles are taken for parallel', F)
S('C14_coerce_order', 'C14', T+'so3.h', [('''		my_matrix[1] = unit(my_matrix[1]);
		my_matrix[2] -= my_matrix[0] * (my_matrix[0]*my_matrix[2]);
		my_matrix[2] -= my_matrix[1] * (my_matrix[1]*my_matrix[2]);
		my_matrix[2] = unit(my_matrix[2]);''','''		my_matrix[2] -= my_matrix[0] * (my_matrix[0]*my_matrix[2]);
		my_matrix[2] -= my_matrix[1] * (my_matrix[1]*my_matrix[2]);
		my_matrix[1] = unit(my_matrix[1]);
		my_matrix[2] = unit(my_matrix[2]);''')],
  H+'int main(){ Matrix<3> m=Data(1.,0.,0., 0.,2.,0., 0.,1.,1.); SO3<> r(m); Matrix<3> i=r.get_matrix()*r.get_matrix().T(); return !(near(i[1][2],0)&&near(i[2][2],1)); }',
  'a matrix whose second row is not of unit length and not orthogonal to the third', 'the result is not a rotation', F)
S('C14_rmul_alias', 'C14', T+'so3.h', [('''		*this = *this * rhs;
		return *this;''','''		for(int i=0; i < 3; ++i){
			const Vector<3, Precision> row = my_matrix[i];
			my_matrix[i] = row * rhs.get_matrix();
		}
		return *this;''')],
  H+'int main(){ SO3<> r(makeVector(.3,.2,.9)); Vector<3> w=r.ln(); r*=r; Vector<3> l=r.ln(); return !near(norm(l-2*w),0); }',
  'a rotation multiplied in place by itself', 'rows already replaced are used as the right operand', F)
S('C15_left_alias', 'C15', T+'se3.h', [('''		get_translation() = left.get_translation() + left.get_rotation() * get_translation();
		get_rotation() = left.get_rotation() * get_rotation();''','''		get_rotation() = left.get_rotation() * get_rotation();
		get_translation() = left.get_translation() + left.get_rotation() * get_translation();''')],
  H+'int main(){ SE3<> t(SO3<>(makeVector(.3,.2,.9)),makeVector(1.,2.,3.)); SE3<> u=t*t; t.left_multiply_by(t); return !near(norm(u.get_translation()-t.get_translation()),0); }',
  'a transform multiplied from the left by itself', 'the translation is turned twice', F)
S('C15_exp_mid', 'C15', T+'se3.h', [('B = 0.5 - 0.25 * one_6th * theta_sq;','B = 0.5 - 0.5 * one_6th * theta_sq;')],
  H+'int main(){ double t=9e-4; Vector<6> v=makeVector(0.,1e6,0.,0.,0.,t); SE3<> T=SE3<>::exp(v); double ex=-(1-cos(t))/t*1e6; double ey=sin(t)/t*1e6; return !(near(T.get_translation()[0],-2*sin(t/2)*sin(t/2)/t*1e6,1e-6)&&near(T.get_translation()[1],ey,1e-6)); }',
  'angles between 1e-4 and 1e-3 and a long translation', 'the second-order term of the middle branch is twice too large', F)
S('C15_sim_self', 'C15', T+'sim3.h', [('''		get_translation() += get_rotation() * (get_scale() * rhs.get_translation());
		get_rotation() *= rhs.get_rotation();
		get_scale() *= rhs.get_scale();
		return *this;''','''		get_scale() *= rhs.get_scale();
		get_translation() += get_rotation() * (get_scale() / rhs.get_scale() * rhs.get_translation());
		get_rotation() *= rhs.get_rotation();
		return *this;''')],
  H+'int main(){ SIM3<> t(SO3<>(makeVector(.3,.2,.9)),makeVector(1.,2.,3.),2.); SIM3<> u=t*t; t*=t; return !near(norm(u.get_translation()-t.get_translation()),0); }',
  'a similarity multiplied in place by itself', 'the scale of the left operand is divided out as well', F)
S('C16_sym_index', 'C16', T+'sl.h', [('''		int row = 0, col = i - SYMM_LIMIT + 1;
		while(col > N - row - 1){''','''		int row = 0, col = i - SYMM_LIMIT + 1;
		while(col > N - 1){''')],
  H+'int main(){ for(int i=0;i<15;i++){ Matrix<4> g=SL<4>::generator(i); Matrix<4> z=Zeros; int nz=0; for(int a=0;a<4;a++) for(int b=0;b<4;b++) nz+=g[a][b]!=0; if(nz!=2) return 1; if(i>=9 && g[0][0]+g[1][1]+g[2][2]+g[3][3]!=0) return 1; } Vector<8> v=Zeros; v[7]=0.4; SL<3> s(v); return !near(norm_inf(s.get_matrix().T()*s.get_matrix()-Identity*1.0),0); }',
  'the last antisymmetric generators', 'the generator lies on the diagonal or outside the matrix', '')
S('C16_exp_norm', 'C16', T+'helpers.h', [('		const int s = max(0,(int)ceil(l));\n','		const int s = min(6,max(0,(int)ceil(l)));\n'),('''		using std::max;
		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
		const P l''','''		using std::max;
		using std::min;
		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
		const P l''')],
  H+'int main(){ Matrix<2> m=Data(-3000.,0.,0.,0.); Matrix<2> e=exp(m); return !(near(e[0][0],0,1e-6)&&near(e[1][1],1,1e-6)); }',
  'a matrix of norm above 64', 'the Taylor series is summed for a matrix of large norm and cancels catastrophically', F)
S('C16_log_sign', 'C16', T+'helpers.h', [('			Matrix<R,C,P> F = X;\n','			Matrix<R,C,P> F = X;\n			const Matrix<R,C,P> nX = -X;\n'),('				F = -F*X;\n','				F = k < 12 ? Matrix<R,C,P>(F*nX) : Matrix<R,C,P>(F*X);\n')],
  H+'int main(){ Matrix<1> m; m[0][0]=1.49; Matrix<1> l=log(m); return !near(l[0][0],::log(1.49),1e-12); }',
  'terms after the twelfth, which matter only for matrices that are not close to the identity', 'late terms of the logarithm lose their alternating sign', '')
S('C16_slinv', 'C16', T+'sl.h', [('		my_matrix = gaussian_elimination(from.my_matrix, id);','		my_matrix = gaussian_elimination(from.my_matrix, id);\n		if(N > 3) coerce();')],
  H+'int main(){ Matrix<4> m=Identity; m[0][0]=-1; m[1][1]=-1; m[0][1]=2; SL<4> s(m); Matrix<4> p=s.get_matrix()*s.inverse().get_matrix(); Vector<15> v=Zeros; v[0]=20; SL<4> q(v); Matrix<4> z=q.get_matrix()*q.inverse().get_matrix(); return !(near(norm_inf(p-Identity*1.0),0) && near(norm_inf(z-Identity*1.0),0)); }',
  'x', 'x', F) if 0 else None
S('C17_sparse_order', 'C17', T+'wls.h', [('''		my_C_inv.slice(index1, index2, size1, size2) += mixed;
		my_C_inv.slice(index2, index1, size2, size1) += mixed.T();''','''		my_C_inv.slice(index1, index2, size1, size2) += mixed;''')],
  H+'int main(){ Matrix<1,1> J1=Data(2.), J2=Data(3.), W=Data(1.); Vector<1> m=makeVector(1.); WLS<2> a,b; a.add_prior(1); b.add_prior(1); a.add_sparse_mJ_rows(m,J1,0,J2,1,W); b.add_sparse_mJ_rows(m,J2,1,J1,0,W); a.compute(); b.compute(); return !near(norm(a.get_mu()-b.get_mu()),0); }',
  'the second block of the Jacobian lies before the first', 'the off-diagonal block is only written below the diagonal, which compute() overwrites', F)
S('C17_compute_twice', 'C17', T+'wls.h', [('''		my_mu=my_decomposition.backsub(my_vector);
	}''','''		my_vector=my_decomposition.backsub(my_vector);
		my_mu=my_vector;
	}''')],
  H+'int main(){ WLS<2> w; w.add_prior(2); w.add_mJ(3,makeVector(1.,2.)); w.compute(); Vector<2> m=w.get_mu(); w.compute(); return !near(norm(m-w.get_mu()),0); }',
  'compute() called again, or measurements added after compute()', 'the right hand side is overwritten by the solution', F)
S('C17_robust3', 'C17', T+'irls.h', [('return x*x / (2*(1 + x*x/sd_inlier));','return (x*x < sd_inlier) ? x*x / (2*(1 + x*x/sd_inlier)) : sd_inlier/4;')],
  H+'int main(){ RobustIII<double> r; r.set_sd(2); double x=5; return !near(r.objective(x), x*x/(2*(1+x*x/4.)),1e-12); }',
  'residuals above the standard deviation', 'the objective is no longer the integral of x w(x)', '')
