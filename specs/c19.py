from specs.lin import *
from toonvc.terms import neg, iadd
from toonvc import terms as T
from toonvc.exe import Unsupported, Ptr, DOUBLE
def build(S):
    S.chunk = 8
    for f in ('so2', 'se2', 'sim2', 'so3', 'se3', 'sim3', 'sl'): S.include('TooN/%s.h' % f)
    # The stream of the contracts: every number and every character written is recorded in order, with the width in force, which
    # writing resets to zero; reading takes the next number.  (What the formatted i/o of the standard library is documented to do.)
    # (when a failing input is searched natively: a real stream whose facets and buffer record)
    S.defs += '''
#ifdef TOONVC_NATIVE
#include <locale>
#include <streambuf>
struct RecS { double* v; int* k; int n; const double* in; const float* inf; const int* ini; int at; };
struct RecPut: std::num_put<char> { RecS* r; RecPut(RecS* q):std::num_put<char>(1),r(q){}
  iter_type put(iter_type o,std::ios_base& b,double d) const { r->v[r->n]=d; r->k[r->n]=1000+(int)b.width(); r->n++; b.width(0); return o; }
  iter_type do_put(iter_type o,std::ios_base& b,char,double d) const { return put(o,b,d); }
  iter_type do_put(iter_type o,std::ios_base& b,char,long d) const { return put(o,b,d); }
  iter_type do_put(iter_type o,std::ios_base& b,char,unsigned long d) const { return put(o,b,d); } };
struct RecGet: std::num_get<char> { RecS* r; RecGet(RecS* q):std::num_get<char>(1),r(q){}
  iter_type do_get(iter_type i,iter_type,std::ios_base&,std::ios_base::iostate&,double& d) const { d=r->in[r->at++]; return i; }
  iter_type do_get(iter_type i,iter_type,std::ios_base&,std::ios_base::iostate&,float& d) const { d=r->inf[r->at++]; return i; }
  iter_type do_get(iter_type i,iter_type,std::ios_base&,std::ios_base::iostate&,long& d) const { d=r->ini[r->at++]; return i; } };
struct RecBuf: std::streambuf { RecS* r; char c[2]; RecBuf(RecS* q):r(q){ c[0]='x'; setg(c,c,c+1); }
  int_type overflow(int_type x){ r->v[r->n]=x; r->k[r->n]=0; r->n++; return x; }
  std::streamsize xsputn(const char* s,std::streamsize n){ for(int i=0;i<n;i++) overflow(s[i]); return n; } };
struct Rec: RecS { RecPut p; RecGet g; RecBuf b; std::iostream s;
  Rec(double* v_,int* k_,const double* in_):p(this),g(this),b(this),s(&b){ v=v_; k=k_; n=0; in=in_; inf=0; ini=0; at=0; s.imbue(std::locale(std::locale(std::locale::classic(),&p),&g)); } };
#define REC(v,k,in) Rec r(v,k,in)
#define SETW(x) r.s.width(x)
#define OS r.s
#define IS r.s
#else
struct Rec { const long* vp; long w; double* v; int* k; int n; const double* in; const float* inf; const int* ini; int at; };
static const long rec_vt[4]={0,0,0,0};
static inline Rec rec(double* v,int* k,const double* in=0){ Rec r; r.vp=rec_vt+3; r.w=0; r.v=v; r.k=k; r.n=0; r.in=in; r.inf=0; r.ini=0; r.at=0; return r; }
extern "C" {
__attribute__((used)) inline long io_getw(Rec* r){ return r->w; }
__attribute__((used)) inline long io_setw(Rec* r,long w){ long o=r->w; r->w=w; return o; }
__attribute__((used)) inline Rec* io_num(Rec* r,double d){ r->v[r->n]=d; r->k[r->n]=1000+(int)r->w; r->n++; r->w=0; return r; }
__attribute__((used)) inline Rec* io_numf(Rec* r,float d){ return io_num(r,d); }
__attribute__((used)) inline Rec* io_numi(Rec* r,int d){ return io_num(r,d); }
__attribute__((used)) inline Rec* io_chr(Rec* r,char c){ r->v[r->n]=c; r->k[r->n]=(int)r->w; r->n++; r->w=0; return r; }
__attribute__((used)) inline Rec* io_str(Rec* r,const char* c){ for(;*c;c++) io_chr(r,*c); return r; }
__attribute__((used)) inline Rec* io_endl(Rec* r){ r->v[r->n]=10; r->k[r->n]=0; r->n++; return r; }
__attribute__((used)) inline Rec* io_put(Rec* r,char c){ r->v[r->n]=c; r->k[r->n]=0; r->n++; return r; }
__attribute__((used)) inline Rec* io_ctl(Rec* r){ r->v[r->n]=0; r->k[r->n]=-1; r->n++; return r; }
__attribute__((used)) inline Rec* io_setwi(Rec* r,int w){ r->w=w; return r; }
__attribute__((used)) inline Rec* io_in(Rec* r,double* d){ *d=r->in[r->at++]; return r; }
__attribute__((used)) inline Rec* io_inf(Rec* r,float* d){ *d=r->inf[r->at++]; return r; }
__attribute__((used)) inline Rec* io_ini(Rec* r,int* d){ *d=r->ini[r->at++]; return r; }
}
#define REC(v,k,in) Rec r=rec(v,k,in)
#define SETW(x) r.w=(x)
#define OS (*(std::ostream*)(void*)&r)
#define IS (*(std::istream*)(void*)&r)
#endif
'''
    def to(fn, n=2):
        def h(ex, st, args, i, name): return ex.call(st, fn, list(args[:n]))
        return h
    def manip(ex, st, args, i, name):
        f = repr(args[1])
        if 'flush' in f: return [(st, args[0])]
        return ex.call(st, 'io_endl' if 'St4endl' in f else 'io_ctl', [args[0]])
    def ctl(ex, st, args, i, name): return [(a, 0) for a, v in ex.call(st, 'io_ctl', [args[0]])]
    IO = {'_ZNKSt8ios_base5widthEv': to('io_getw', 1), '_ZNSt8ios_base5widthEl': to('io_setw'), '_ZNSolsEd': to('io_num'), '_ZNSolsEf': to('io_numf'), '_ZNSolsEi': to('io_numi'),
          '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': to('io_str'), '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': to('io_chr'), '_ZNSolsEPFRSoS_E': manip,
          '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': to('io_endl', 1),
          '_ZNSo3putEc': to('io_put'), '_ZNSo5flushEv': lambda ex, st, args, i, name: [(st, args[0])], '_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw': to('io_setwi'),
          '_ZNSolsEj': to('io_numi'), '_ZNSt8ios_base9precisionEl': ctl, '_ZNSt8ios_base4setfESt13_Ios_Fmtflags': ctl, '_ZNSt8ios_base4setfESt13_Ios_FmtflagsS0_': ctl, '_ZNSt8ios_base5flagsESt13_Ios_Fmtflags': ctl, '_ZNSt9basic_iosIcSt11char_traitsIcEE4fillEc': ctl,
          '_ZNSirsERd': to('io_in'), '_ZNSirsERf': to('io_inf'), '_ZNSirsERi': to('io_ini')}
    KS = dict(kind='static', native=False)
    def H(name, params, body, post, what, kind='static', o=None, **kw): S.h(name, params, body, post, what=what, kind=kind, native=not o, externs=IO, opts=o or {}, **kw)
    W = lambda c: c.fw
    def tokens(c, toks):
        """toks: ('n', value) at the requested width, ('c', char)"""
        c.hold('number of items written', T.ieq(c.o('q')[0], len(toks)))
        for i, (k, x) in enumerate(toks):
            c.eq('item %d' % i, c.o('v')[i], Fraction(ord(x)) if k == 'c' else x)
            c.hold('width of item %d' % i, T.ieq(c.o('k')[i], 0 if k == 'c' else iadd(1000, c.fw)))
    def outp(n): return [Int('fw', lo=0, hi=1000), Out('v', n), Out('k', n, 'int'), Out('q', 1, 'int')]
    def W_(expr): return 'REC(v,k,0); SETW(fw); OS << %s; q[0]=r.n;' % expr
    def vec_toks(xs): return [t for x in xs for t in (('n', x), ('c', ' '))]
    def mat_toks(rows): return [t for r in rows for j, x in enumerate(r) for t in ([('c', ' ')] if j else []) + [('n', x)] + ([('c', '\n')] if j == len(r) - 1 else [])]
    # ---------------- vectors and matrices
    for ty, nm in (('double', ''), ('float', 'f_'), ('int', 'i_')):
        for n in (1, 2, 3, 5):
            H('wv_%s%d' % (nm, n), [In('a', n, ty)] + outp(2 * n), W_('wrapVector<%d>((%s*)a)' % (n, ty)), lambda c, n=n: tokens(c, vec_toks([c.a('a')[i] for i in range(n)])), 'writing a vector of %d %s elements' % (n, ty))
        for R, C in ((1, 1), (2, 3), (3, 2), (3, 3)):
            H('wm_%s%dx%d' % (nm, R, C), [In('a', R * C, ty)] + outp(2 * R * C), W_('wrapMatrix<%d,%d>((%s*)a)' % (R, C, ty)), lambda c, R=R, C=C: tokens(c, mat_toks([[c.a('a')[i * C + j] for j in range(C)] for i in range(R)])), 'writing a %dx%d matrix of %s' % (R, C, ty))
    # run-time sizes, views, and non-contiguous storage
    for n in (0, 1, 2, 4):
        H('wv_D%d' % n, [Int('n', n), In('a', n + 1)] + outp(2 * n + 1), 'Vector<> x(wrapVector((double*)a,n)); ' + W_('x'), lambda c, n=n: tokens(c, vec_toks([c.a('a')[i] for i in range(n)])), 'writing a run-time sized vector, %d elements' % n, 'bounded')
    for R, C in ((0, 0), (0, 2), (1, 3), (2, 2), (3, 2)):
        H('wm_D%dx%d' % (R, C), [Int('n', R), Int('m', C), In('a', R * C + 1)] + outp(2 * R * C + 1), 'Matrix<> x(wrapMatrix((double*)a,n,m)); ' + W_('x'), lambda c, R=R, C=C: tokens(c, mat_toks([[c.a('a')[i * C + j] for j in range(C)] for i in range(R)])), 'writing a run-time sized matrix, %d x %d' % (R, C), 'bounded')
    H('wm_T', [In('a', 6)] + outp(12), W_('wrapMatrix<2,3>((double*)a).T()'), lambda c: tokens(c, mat_toks([[c.a('a')[j * 3 + i] for j in range(2)] for i in range(3)])), 'writing a transposed matrix')
    H('wm_sub', [In('a', 12)] + outp(8), 'auto m=wrapMatrix<3,4>((double*)a); ' + W_('(m.slice<1,1,2,2>())'), lambda c: tokens(c, mat_toks([[c.a('a')[(i + 1) * 4 + j + 1] for j in range(2)] for i in range(2)])), 'writing a block of a matrix')
    H('wv_col', [In('a', 6)] + outp(4), 'auto m=wrapMatrix<2,3>((double*)a); ' + W_('m.T()[1]'), lambda c: tokens(c, vec_toks([c.a('a')[1], c.a('a')[4]])), 'writing a column')
    H('wv_expr', [In('a', 3), In('b', 3)] + outp(6), W_('wrapVector<3>((double*)a)+wrapVector<3>((double*)b)'), lambda c: tokens(c, vec_toks([add(c.a('a')[i], c.a('b')[i]) for i in range(3)])), 'writing a sum of vectors')
    H('w_two', [In('a', 2), In('b', 4)] + outp(12), 'REC(v,k,0); SETW(fw); OS << wrapVector<2>((double*)a); SETW(fw); OS << wrapMatrix<2,2>((double*)b); q[0]=r.n;',
      lambda c: tokens(c, vec_toks([c.a('a')[i] for i in range(2)]) + mat_toks([[c.a('b')[0], c.a('b')[1]], [c.a('b')[2], c.a('b')[3]]])), 'writing one after the other')
    # ---------------- reading
    def taken(c, n): c.hold('numbers taken from the stream', T.ieq(c.o('q')[0], n))
    def rd(nm, n, decl, out, what, kind='static', perm=None, ty='double', extra=()):
        fld = {'double': '', 'float': 'f', 'int': 'i'}[ty]
        def post(c):
            taken(c, n)
            for i in range(n): c.eq('element %d' % i, c.o('x')[perm[i] if perm else i], c.a('s')[i])
        H(nm, list(extra) + [In('s', max(n, 1), ty), Out('x', n, ty), Out('q', 1, 'int')], 'REC(0,0,0); r.in%s=s; %s q[0]=r.at; %s' % (fld, decl, out), post, what, kind)
    for ty, nm in (('double', ''), ('float', 'f_'), ('int', 'i_')):
        for n in (1, 2, 3, 5): rd('rv_%s%d' % (nm, n), n, 'Vector<%d,%s> w; IS >> w;' % (n, ty), 'for(int i=0;i<%d;i++) x[i]=w[i];' % n, 'reading %d elements of %s' % (n, ty), ty=ty)
        for R, C in ((1, 1), (2, 3), (3, 2), (3, 3)):
            dump = 'for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) x[i*%d+j]=w[i][j];' % (R, C, C)
            rd('rm_%s%dx%d' % (nm, R, C), R * C, 'Matrix<%d,%d,%s> w; IS >> w;' % (R, C, ty), dump, 'reading a %d x %d matrix of %s' % (R, C, ty), ty=ty)
            rd('rmc_%s%dx%d' % (nm, R, C), R * C, 'Matrix<%d,%d,%s,ColMajor> w; IS >> w;' % (R, C, ty), dump, 'reading a column-major %d x %d matrix of %s' % (R, C, ty), ty=ty)
    for n in (0, 1, 2, 4): rd('rv_D%d' % n, n, 'Vector<> w(n); IS >> w;', 'for(int i=0;i<n;i++) x[i]=w[i];', 'reading a run-time sized vector, %d elements' % n, 'bounded', extra=[Int('n', n)])
    for R, C in ((0, 2), (1, 3), (3, 2)): rd('rm_D%dx%d' % (R, C), R * C, 'Matrix<> w(n,m); IS >> w;', 'for(int i=0;i<n;i++) for(int j=0;j<m;j++) x[i*m+j]=w[i][j];', 'reading a run-time sized matrix, %d x %d' % (R, C), 'bounded', extra=[Int('n', R), Int('m', C)])
    def post(c):
        taken(c, 2)
        for i in range(6): c.eq('element %d' % i, c.o('p')[i], c.a('s')[(1, 4).index(i)] if i in (1, 4) else c.a('p')[i])
    H('rv_col', [In('s', 2), InOut('p', 6), Out('q', 1, 'int')], 'REC(0,0,s); auto m=wrapMatrix<2,3>(p); auto w=m.T()[1]; IS >> w; q[0]=r.at;', post, 'reading into a column changes only it')
    # ---------------- transformations
    def trans_toks(rows, t): return [tok for r, x in zip(rows, t) for tok in vec_toks(r) + [('n', x), ('c', '\n')]]
    sc = lambda s, rows: [[mul(s, x) for x in r] for r in rows]
    def raw(ty, mat, d): return 'void* tp=&T_; (void)tp;'
    for d, so, se, sim in ((2, 'SO2', 'SE2', 'SIM2'), (3, 'SO3', 'SE3', 'SIM3')):
        for P in ('double', 'float'):
            f = '' if P == 'double' else '_f'
            pr = [In('m', d * d, P), In('t', d, P), Real('s', P)]
            rows = lambda c, d=d: [[c.a('m')[i * d + j] for j in range(d)] for i in range(d)]
            # the rotation holds any matrix here: writing does not look at it
            setr = 'Matrix<%d,%d,%s>& M=const_cast<Matrix<%d,%d,%s>&>(%%s.get_matrix()); for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) M[i][j]=m[i*%d+j];' % (d, d, P, d, d, P, d, d, d)
            tv = ' for(int i=0;i<%d;i++) T.get_translation()[i]=t[i];' % d
            H('w_' + so.lower() + f, pr[:1] + outp(2 * d * d), '%s<%s> T; ' % (so, P) + setr % 'T' + W_('T'), lambda c, rows=rows: tokens(c, mat_toks(rows(c))), 'writing %s<%s>' % (so, P))
            H('w_' + se.lower() + f, pr[:2] + outp(2 * d * d + 2 * d), '%s<%s> T; ' % (se, P) + setr % 'T.get_rotation()' + tv + W_('T'), lambda c, rows=rows, d=d: tokens(c, trans_toks(rows(c), [c.a('t')[i] for i in range(d)])), 'writing %s<%s>' % (se, P))
            H('w_' + sim.lower() + f, pr + outp(2 * d * d + 2 * d), '%s<%s> T; ' % (sim, P) + setr % 'T.get_rotation()' + tv + ' T.get_scale()=s; ' + W_('T'), lambda c, rows=rows, d=d: tokens(c, trans_toks(sc(c.reals['s'], rows(c)), [c.a('t')[i] for i in range(d)])), 'writing %s<%s>' % (sim, P))
        # reading: the rotation is what the constructor from the same matrix gives, the translation the last column, the scale the mean length of the rows
        D = d * (d + 1)
        def coerce(ex, st, args, i, name, d=d):
            """coercion to a rotation as some function of the matrix (C13 and C14 say which)"""
            cells = [ex.load(st, Ptr(args[0].r, iadd(args[0].o, 8 * k)), DOUBLE) for k in range(d * d)]
            for k in range(d * d): ex.store(st, Ptr(args[0].r, iadd(args[0].o, 8 * k)), DOUBLE, T.uf('coerce%d_%d' % (d, k), *cells))
            return [(st, None)]
        for name, kindd in ((so, 'so'), (se, 'se'), (sim, 'sim')):
            n = d * d if kindd == 'so' else D
            w = d if kindd == 'so' else d + 1
            rot = 'T.get_matrix()' if kindd == 'so' else 'T.get_rotation().get_matrix()'
            out = 'for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) x[i*%d+j]=%s[i][j];' % (d, d, d, rot)
            if kindd != 'so': out += ' for(int i=0;i<%d;i++) z[i]=T.get_translation()[i];' % d
            if kindd == 'sim': out += ' z[%d]=T.get_scale();' % d
            def post(c, n=n, d=d, w=w, kindd=kindd):
                taken(c, n)
                for i in range(d * d): c.eq('rotation[%d]' % i, c.o('x')[i], T.uf('coerce%d_%d' % (d, i), *[c.a('s')[a * w + b] for a in range(d) for b in range(d)]))
                if kindd != 'so':
                    for i in range(d): c.eq('translation[%d]' % i, c.o('z')[i], c.a('s')[i * w + d])
                if kindd == 'sim':
                    tot = Fraction(0)
                    for i in range(d):
                        q = Fraction(0)
                        for j in range(d): q = add(q, mul(c.a('s')[i * w + j], c.a('s')[i * w + j]))
                        tot = add(tot, T.sqrt(q))
                    c.eq('scale', c.o('z')[d], mul(Fraction(1, d), tot))
            ps = [In('s', n), Out('x', d * d)] + ([Out('z', d + (kindd == 'sim'))] if kindd != 'so' else []) + [Out('q', 1, 'int')]
            H('r_' + name.lower(), ps, '%s<> T; REC(0,0,s); IS >> T; q[0]=r.at; %s' % (name, out), post, 'reading %s' % name, o=dict(contracts=[(r'TooN::SO%d<double>::coerce\(' % d, coerce)]))
    for n in (2, 3):
        H('w_sl%d' % n, [In('m', n * n)] + outp(2 * n * n), 'SL<%d> T; Matrix<%d>& M=const_cast<Matrix<%d>&>(T.get_matrix()); for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) M[i][j]=m[i*%d+j]; ' % (n, n, n, n, n, n) + W_('T'),
          lambda c, n=n: tokens(c, mat_toks([[c.a('m')[i * n + j] for j in range(n)] for i in range(n)])), 'writing SL<%d>' % n)
        def coerce(ex, st, args, i, name, n=n):
            """coercion to determinant one as some function of the matrix (C16 says which)"""
            cells = [ex.load(st, Ptr(args[0].r, iadd(args[0].o, 8 * k)), DOUBLE) for k in range(n * n)]
            for k in range(n * n): ex.store(st, Ptr(args[0].r, iadd(args[0].o, 8 * k)), DOUBLE, T.uf('coercesl%d_%d' % (n, k), *cells))
            return [(st, None)]
        def post(c, n=n):
            taken(c, n * n)
            for i in range(n * n): c.eq('element %d' % i, c.o('x')[i], T.uf('coercesl%d_%d' % (n, i), *[c.a('s')[k] for k in range(n * n)]))
        H('r_sl%d' % n, [In('s', n * n), Out('x', n * n), Out('q', 1, 'int')], 'SL<%d> T; REC(0,0,s); IS >> T; q[0]=r.at; for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) x[i*%d+j]=T.get_matrix()[i][j];' % (n, n, n, n), post, 'reading SL<%d>' % n,
          o=dict(contracts=[(r'TooN::SL<%d, double>::coerce(<|\()' % n, coerce)]))
