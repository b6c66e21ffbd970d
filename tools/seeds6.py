H = '#include <TooN/TooN.h>\n#include <TooN/optimization/golden_section.h>\n#include <TooN/optimization/brent.h>\n#include <TooN/optimization/conjugate_gradient.h>\n#include <TooN/optimization/downhill_simplex.h>\n#include <TooN/functions/derivatives.h>\n#include <cstdio>\n#include <cmath>\nusing namespace TooN;\nstatic bool near(double a,double b,double e=1e-9){ return std::fabs(a-b)<=e; }\n'
T = 'TooN/optimization/'
F = ''
S('C18_brent_xm', 'C18', T+'brent.h', [('''				if(u < x)
					a = u;
				else
					b = u;
''','''				if(u < xm)
					a = u;
				else
					b = u;
''')],
  H+'struct Fn { double m; double operator()(double x) const { double d=x-m; return d>0? d : -3*d+d*d; } };\nint main(){ for(double m=-0.95;m<0.95;m+=0.01) for(double x=-0.9;x<0.95;x+=0.1){ Fn f={m}; if(f(x)<f(-1)&&f(x)<f(1)){ Vector<2> r=brent_line_search(-1.,x,1.,f(x),f,200); if(!near(r[0],m,1e-6)) return 1; } } return 0; }',
  'a step that falls between the best point and the middle of the bracket and is no better', 'the side of the bracket that holds the best point is cut away, and the search ends at a point that is no minimum', F)
S('C18_golden_count', 'C18', T+'golden_section.h', [('int itnum = 1;','int itnum = 0;')],
  H+'static int n=0; struct Fn { double operator()(double x) const { n++; return (x-.3)*(x-.3); } };\nint main(){ Fn f; for(int k=1;k<20;k++){ n=0; golden_section_search(-1.,0.,1.,.09,f,k); if(n>k) return 1; } return 0; }',
  'a search that runs into its iteration limit', 'the function is evaluated once more than the limit allows', F)
S('C18_bracket_cval', 'C18', T+'conjugate_gradient.h', [('''				else //Contract the bracket
				{
					c = b;
					c_val = b_val;
				}''','''				else //Contract the bracket
					c = b;''')],
  H+'struct Fn { double operator()(double x) const { return (x-.05)*(x-.05); } };\nint main(){ Fn f; Matrix<3,2> m=Internal::bracket_minimum_forward(f(0),f,1.,1e-20); for(int i=0;i<3;i++) if(!near(m[i][1],f(m[i][0]))) return 1; return 0; }',
  'a first step that has to be halved more than once', 'the bracket reports the value of another point for its far end', F)
S('C18_simplex_second', 'C18', T+'downhill_simplex.h', [('''				if(i != worst)
				{
					if(values[i] > second_worst_val)
						second_worst_val = values[i];

''','''				if(values[i] > second_worst_val)
					second_worst_val = values[i];

				if(i != worst)
				{
''')],
  H+'struct Fn { double operator()(const Vector<1>& v) const { return std::fabs(v[0]); } };\nint main(){ Fn f; DownhillSimplex<1> d(f,makeVector(-0.75),1.125); double w=d.get_values()[d.get_worst()]; (void)w; Matrix<2,1> s0=d.get_simplex(); d.find_next_point(f); const Matrix<2,1>& s=d.get_simplex(); /* vertices 0.375 and -0.75: reflection 1.5 is worse: shrink */ if(!near(s[1][0],-.1875,1e-12)&&!near(s[0][0],-.1875,1e-12)) return 0*printf("%g %g\\n",s[0][0],s[1][0])+2;\n struct G { double operator()(const Vector<1>& v) const { double x=v[0]; return x<0 ? -x*2 : x<1 ? x : 1+(x-1)*.5; } } g; DownhillSimplex<1> e(g,makeVector(-0.75),1.125); /* -0.75:1.5, 0.375:0.375, reflection 1.5: 1.25, better than the worst: contract to 0.9375 */ e.find_next_point(g); for(int i=0;i<2;i++) if(near(e.get_simplex()[i][0],0.9375,1e-12)) return 0; return 1; }',
  'a reflected point better than the worst vertex only', 'the reflected point is kept where the simplex should contract', F)
S('C18_simplex_shrink', 'C18', T+'downhill_simplex.h', [('simplex[i] = simplex[best] + sigma * (simplex[i] - simplex[best]);','simplex[i] += sigma * (simplex[best] - simplex[i]);')],
  H+'struct Fn { double operator()(const Vector<1>& v) const { return std::fabs(v[0]); } };\nint main(){ Fn f; DownhillSimplex<1> d(f,makeVector(-0.75),1.125); d.sigma=.25; d.find_next_point(f); for(int i=0;i<2;i++) if(near(d.get_simplex()[i][0],0.375-.25*1.125,1e-12)) return 0; return 1; }',
  'a shrink ratio other than one half', 'the simplex shrinks by the wrong ratio', F)
S('C18_cg_gamma', 'C18', T+'conjugate_gradient.h', [('		Precision gamma = (g * g - old_g*g)/(old_g * old_g);','		Precision gamma = (g * (g - old_h))/(old_g * old_g);')],
  H+'struct Fn { double operator()(const Vector<2>& v) const { return v*v; } }; int main(){ Fn f; ConjugateGradient<2> cg(makeVector(1.,2.),f,makeVector(2.,4.)); cg.h=makeVector(1.,0.); cg.update_vectors_PR(makeVector(3.,1.)); /* g.g=10, og.g=10 -> gamma 0 */ return !(near(cg.h[0],3)&&near(cg.h[1],1)); }',
  'a second update, when the last direction is no longer the last gradient', 'the direction is not the Polak-Ribiere direction', F)
S('C18_grad_restore', 'C18', 'TooN/functions/derivatives.h', [('''				x[i] = v[i] - h;
				double f1 = f(x);
				x[i] = v[i] + h;
				double f2 = f(x);
				x[i] = v[i];
''','''				x[i] = v[i] + h;
				double f2 = f(x);
				x[i] -= 2*h;
				double f1 = f(x);
				x[i] += h;
''')],
  H+'struct Fn { mutable double seen; const Vector<2>* v; double operator()(const Vector<2>& p) const { if(p[1]!=(*v)[1] && p[0]!=(*v)[0]) seen=1; return p[0]*p[0]+p[1]*p[1]; } };\nint main(){ Vector<2> v=makeVector(0.1,0.7); Fn f; f.seen=0; f.v=&v; numerical_gradient(f,v); return f.seen!=0; }',
  'coordinates that rounding does not restore exactly', 'the other coordinates drift from the point', F)
S('C18_grad_keep', 'C18', 'TooN/functions/derivatives.h', [('''				x[i] = v[i] + h;
				double f2 = f(x);
				x[i] = v[i];

				double d =  (f2 - f1) / (2*h);''','''				x[i] = v[i] + h;
				double f2 = f(x);

				double d =  (f2 - f1) / (2*h);''')],
  H+'struct Fn { double operator()(const Vector<2>& p) const { return p[0]*p[1]*1e3; } };\nint main(){ Vector<2> v=makeVector(0.1,0.7); Fn f; Vector<2> g=numerical_gradient(f,v); return !(near(g[0],700,1e-6)&&near(g[1],100,1e-6)); }',
  'a function whose derivative along one axis depends on another coordinate', 'the later derivatives are taken at a shifted point', F)
S('C18_extrap', 'C18', 'TooN/functions/derivatives.h', [('				Precision cj = 1;','				Precision cj = c;')],
  H+'struct Fn { double operator()(const Vector<1>& p) const { return std::sin(10*p[0]); } };\nstruct L { double operator()(double x) const { return 3+x+x*x; } };\nint main(){ L l; std::pair<double,double> r=Internal::extrapolate_to_zero<L,double>(l); return !(near(r.first,3,1e-9)); }',
  'a difference that is not constant in the step', 'the extrapolation is not to zero', F)
