from specs.lin import *
from specs.c09 import leibniz, kd

def build(S):
    S.chunk = 4
    S.include('TooN/wls.h'); S.include('TooN/irls.h')
    S.defs += '''
template<int N, class P> struct RecD { Matrix<N,N,P> A; Vector<N,P> b; const P* q; int calls; RecD(int n=0):A(n,n),b(n),q(0),calls(0){}
 template<class P2,class B> void compute(const Matrix<N,N,P2,B>& m){A=m;calls++;} template<class P2,class B> Vector<N,P> backsub(const Vector<N,P2,B>& v){b=v; Vector<N,P> r(v.size()); for(int i=0;i<v.size();i++) r[i]=q[i]; return r;} };
'''
    F0 = Fraction(0)
    def sm(xs):
        r = F0
        for x in xs: r = add(r, x)
        return r
    def mul3(a, b, c): return mul(mul(a, b), c)
    # ---------------- one operation on an arbitrary state, at each size
    def state(n, dyn, ty='double'):
        w = 'WLS<%s,%s,RecD> w%s;' % (-1 if dyn else n, ty, '(%d)' % n if dyn else '')
        mx = 'Matrix<-1,-1,%s,RefR>((%s*)%%s,%d,%d)' % (ty, ty, n, n) if dyn else 'Matrix<%d,%d,%s,RefR>((%s*)%%s)' % (n, n, ty, ty)
        vx = 'wrapVector((%s*)%%s,%d)' % (ty, n) if dyn else 'wrapVector<%d>((%s*)%%s)' % (n, ty)
        pre = '%s w.get_C_inv()=%s; w.get_vector()=%s;' % (w, mx % 'a', vx % 'b')
        # the state as the documentation lets a user see it: the upper triangle until compute(), the vector
        post = 'const auto& cw=w; for(int r=0;r<%d;r++) for(int c=0;c<%d;c++) ao[r*%d+c]=cw.get_C_inv()(r,c); for(int r=0;r<%d;r++) bo[r]=cw.get_vector()[r];' % (n, n, n, n)
        ps = [In('a', n * n, ty), In('b', n, ty), Out('ao', n * n, ty), Out('bo', n, ty)]
        return pre, post, ps
    def upper(c, n, dA, db):
        for r in range(n):
            for q in range(r, n): c.eq('C_inv[%d,%d]' % (r, q), c.o('ao')[r * n + q], add(c.a('a')[r * n + q], dA(r, q)))
            c.eq('vector[%d]' % r, c.o('bo')[r], add(c.a('b')[r], db(r)))
    def sym(nm, N, ty='double'):         # a symmetric N x N matrix from its upper triangle
        k, idx = 0, {}
        for i in range(N):
            for j in range(i, N): idx[i, j] = idx[j, i] = k; k += 1
        return 'Matrix<%d,%d,%s> W=Data(%s);' % (N, N, ty, ','.join('%s[%d]' % (nm, idx[i, j]) for i in range(N) for j in range(N))), k, idx
    # J of one measurement, by storage
    def Jv(n, k, ty='double', stride=3):
        p = '((%s*)j)' % ty
        if k == 's': return 'auto J=wrapVector<%d>(%s);' % (n, p), n, lambda i: i
        if k == 'o': return 'const Vector<%d,%s>& J=*(Vector<%d,%s>*)%s;' % (n, ty, n, ty, p), n, lambda i: i
        if k == 'c': return 'Matrix<%d,%d,%s,RefR> mj(%s); auto J=mj.T()[1];' % (n, stride, ty, p), n * stride, lambda i: i * stride + 1
        if k == 'l': return 'Vector<%d,%s,Reference> vj(%s); auto J=vj.template slice<2,%d>();' % (n + 3, ty, p, n), n + 3, lambda i: i + 2
        if k == 'd': return 'Vector<-1,%s,Reference> J(%s,%d);' % (ty, p, n), n, lambda i: i
        if k == 'dc': return 'Matrix<-1,-1,%s,RefR> mj(%s,%d,%d); auto J=mj.T()[1];' % (ty, p, n, stride), n * stride, lambda i: i * stride + 1
    for n in (1, 2, 3, 4, 6):
        for k in ('s', 'o', 'c', 'l', 'd', 'dc'):
            if n > 3 and k not in ('o', 'd'): continue
            dyn = k in ('d', 'dc')
            code, tot, at = Jv(n, k)
            pre, post, ps = state(n, dyn)
            for wt in (0, 1):
                W = (lambda c: c.reals['wt']) if wt else (lambda c: Fraction(1))
                S.h('mj1_%d_%s%d' % (n, k, wt), ps + [In('j', tot), Real('z')] + ([Real('wt')] if wt else []), '%s %s w.add_mJ(z,J%s); %s' % (pre, code, ',wt' if wt else '', post),
                    lambda c, n=n, at=at, W=W: upper(c, n, lambda r, q: mul3(W(c), c.a('j')[at(r)], c.a('j')[at(q)]), lambda r: mul3(W(c), c.reals['z'], c.a('j')[at(r)])), what='add_mJ of one measurement, %d parameters (%s)' % (n, k), **kd('d' if dyn else 'o'))
    for ty, tj in (('float', 'float'), ('double', 'float'), ('float', 'double'), ('double', 'int')):
        n = 3
        code, tot, at = Jv(n, 's', tj)
        pre, post, ps = state(n, False, ty)
        S.h('mj1_%s_%s' % (ty, tj), ps + [In('j', tot, tj), Real('z', ty), Real('wt', ty)], '%s %s w.add_mJ(z,J,wt); %s' % (pre, code, post),
            lambda c, n=n, at=at: upper(c, n, lambda r, q: mul3(c.reals['wt'], T.R(c.a('j')[at(r)]), T.R(c.a('j')[at(q)])), lambda r: mul3(c.reals['wt'], c.reals['z'], T.R(c.a('j')[at(r)]))), what='add_mJ of one measurement, %s system, %s Jacobian' % (ty, tj), kind='static', f32='exact')
    # J of several measurements
    def Jm(R, C, k, nm='j', J='J', ty='double'):
        p = '((%s*)%s)' % (ty, nm)
        if k == 'o': return 'const Matrix<%d,%d,%s>& %s=*(Matrix<%d,%d,%s>*)%s;' % (R, C, ty, J, R, C, ty, p), R * C, lambda i, j: i * C + j
        if k == 's': return 'Matrix<%d,%d,%s,RefR> %s(%s);' % (R, C, ty, J, p), R * C, lambda i, j: i * C + j
        if k == 'sc': return 'Matrix<%d,%d,%s,RefC> %s(%s);' % (R, C, ty, J, p), R * C, lambda i, j: j * R + i
        if k == 't': return 'Matrix<%d,%d,%s,RefR> m%s(%s); auto %s=m%s.T();' % (C, R, ty, J, p, J, J), R * C, lambda i, j: j * R + i
        if k == 'b': return 'Matrix<%d,%d,%s,RefR> m%s(%s); auto %s=m%s.template slice<1,1,%d,%d>();' % (R + 1, C + 2, ty, J, p, J, J, R, C), (R + 1) * (C + 2), lambda i, j: (i + 1) * (C + 2) + j + 1
        if k == 'd': return 'Matrix<-1,-1,%s,RefR> %s(%s,%d,%d);' % (ty, J, p, R, C), R * C, lambda i, j: i * C + j
        if k == 'dc': return 'Matrix<-1,-1,%s,RefC> %s(%s,%d,%d);' % (ty, J, p, R, C), R * C, lambda i, j: j * R + i
    for n in (1, 2, 3):
        for N in (1, 2, 3):
            for k in ('o', 's', 'sc', 't', 'b', 'd', 'dc'):
                if (n, N) not in ((2, 3), (3, 2)) and k not in 'od': continue
                dyn = k in ('d', 'dc')
                pre, post, ps = state(n, dyn)
                mv = ('wrapVector((double*)z,%d)' if dyn else 'wrapVector<%d>((double*)z)') % N
                kk = kd('d' if dyn else 'o')
                code, tot, at = Jm(N, n, k)
                for wt in (0, 1):
                    W = (lambda c: c.reals['wt']) if wt else (lambda c: Fraction(1))
                    S.h('mjn_%d_%d_%s%d' % (n, N, k, wt), ps + [In('j', tot), In('z', N)] + ([Real('wt')] if wt else []), '%s %s w.add_mJ(%s,J%s); %s' % (pre, code, mv, ',wt' if wt else '', post),
                        lambda c, n=n, N=N, at=at, W=W: upper(c, n, lambda r, q: mul(W(c), sm([mul(c.a('j')[at(i, r)], c.a('j')[at(i, q)]) for i in range(N)])), lambda r: mul(W(c), sm([mul(c.a('z')[i], c.a('j')[at(i, r)]) for i in range(N)]))),
                        what='add_mJ of %d measurements with one weight, %d parameters (%s)' % (N, n, k), **kk)
                wc, wn, wi = sym('wm', N)
                if dyn: wc = wc.replace('Matrix<%d,%d,double> W=Data' % (N, N), 'Matrix<> W(%d,%d); W=Data' % (N, N)).replace('Data', 'Matrix<%d>(Data' % N, 1).replace(');', '));', 1) if False else wc + ' Matrix<> Wd(W);'
                Wn = 'Wd' if dyn else 'W'
                quad = lambda c, J, m, N=N, wi=wi: (lambda r, q: sm([mul3(c.a('wm')[wi[i, l]], J(i, r), J(l, q)) for i in range(N) for l in range(N)]), lambda r: sm([mul3(c.a('wm')[wi[i, l]], J(i, r), m[l]) for i in range(N) for l in range(N)]))
                def pr(c, n=n, at=at, quad=quad): upper(c, n, *quad(c, lambda i, r: c.a('j')[at(i, r)], c.a('z')))
                S.h('mjr_%d_%d_%s' % (n, N, k), ps + [In('j', tot), In('z', N), In('wm', wn)], '%s %s %s w.add_mJ_rows(%s,J,%s); %s' % (pre, code, wc, mv, Wn, post), pr, what='add_mJ_rows: %d measurements with a covariance, %d parameters (%s)' % (N, n, k), **kk)
                code2, tot2, at2 = Jm(n, N, k)
                def pc(c, n=n, at=at2, quad=quad): upper(c, n, *quad(c, lambda i, r: c.a('j')[at(r, i)], c.a('z')))
                S.h('mjc_%d_%d_%s' % (n, N, k), ps + [In('j', tot2), In('z', N), In('wm', wn)], '%s %s %s w.add_mJ(%s,J,%s); %s' % (pre, code2, wc, mv, Wn, post), pc, what='add_mJ: %d measurements with a covariance, one per column of J, %d parameters (%s)' % (N, n, k), **kk)
    # ---------------- sparse Jacobians: the same as the dense one with zeros elsewhere
    def dense(J, i1, s1): return lambda i, r: J(i, r - i1) if i1 <= r < i1 + s1 else F0
    for n, s1, i1 in ((3, 1, 0), (3, 1, 2), (3, 2, 0), (3, 2, 1), (3, 3, 0), (4, 2, 1), (6, 3, 3), (5, 1, 4)):
        for dyn in (False, True):
            pre, post, ps = state(n, dyn)
            for k in ('d', 'dc') if dyn else ('s', 'o', 'c'):
                code, tot, at = Jv(s1, k)
                J = lambda c, at=at, i1=i1, s1=s1: dense(lambda i, r: c.a('j')[at(r)], i1, s1)
                for wt in (0, 1):
                    W = (lambda c: c.reals['wt']) if wt else (lambda c: Fraction(1))
                    S.h('sp1_%d_%d_%d_%s%d' % (n, s1, i1, k, wt), ps + [In('j', tot), Real('z')] + ([Real('wt')] if wt else []), '%s %s w.add_sparse_mJ(z,J,%d%s); %s' % (pre, code, i1, ',wt' if wt else '', post),
                        lambda c, n=n, J=J, W=W: upper(c, n, lambda r, q: mul3(W(c), J(c)(0, r), J(c)(0, q)), lambda r: mul3(W(c), c.reals['z'], J(c)(0, r))), what='add_sparse_mJ, %d of %d parameters from %d' % (s1, n, i1), **kd('d' if dyn else 'o'))
            for N in (1, 2):
                wc, wn, wi = sym('wm', N)
                if dyn: wc += ' Matrix<> Wd(W);'
                Wn = 'Wd' if dyn else 'W'
                mv = ('wrapVector((double*)z,%d)' if dyn else 'wrapVector<%d>((double*)z)') % N
                for k in ('d', 'dc') if dyn else ('o', 't'):
                    code, tot, at = Jm(N, s1, k)
                    def ps1(c, n=n, at=at, wi=wi, N=N, i1=i1, s1=s1):
                        J = dense(lambda i, r: c.a('j')[at(i, r)], i1, s1)
                        upper(c, n, lambda r, q: sm([mul3(c.a('wm')[wi[i, l]], J(i, r), J(l, q)) for i in range(N) for l in range(N)]), lambda r: sm([mul3(c.a('wm')[wi[i, l]], J(i, r), c.a('z')[l]) for i in range(N) for l in range(N)]))
                    S.h('spr_%d_%d_%d_%d_%s' % (n, s1, i1, N, k), ps + [In('j', tot), In('z', N), In('wm', wn)], '%s %s %s w.add_sparse_mJ_rows(%s,J,%d,%s); %s' % (pre, code, wc, mv, i1, Wn, post), ps1, what='add_sparse_mJ_rows of %d rows, %d of %d parameters from %d' % (N, s1, n, i1), **kd('d' if dyn else 'o'))
    for n, s1, i1, s2, i2 in ((3, 1, 0, 2, 1), (3, 2, 1, 1, 0), (4, 2, 0, 2, 2), (4, 1, 3, 2, 0), (4, 2, 0, 2, 1), (2, 1, 1, 1, 0), (5, 2, 0, 2, 3), (3, 2, 1, 2, 1)):
        for dyn in (False, True):
            pre, post, ps = state(n, dyn)
            for N in (1, 2):
                wc, wn, wi = sym('wm', N)
                if dyn: wc += ' Matrix<> Wd(W);'
                Wn = 'Wd' if dyn else 'W'
                mv = ('wrapVector((double*)z,%d)' if dyn else 'wrapVector<%d>((double*)z)') % N
                for k in ('d',) if dyn else ('o', 'sc'):
                    c1, t1, a1 = Jm(N, s1, k, 'j', 'J')
                    c2, t2, a2 = Jm(N, s2, k, 'k', 'K')
                    def ps2(c, n=n, a1=a1, a2=a2, wi=wi, N=N, i1=i1, s1=s1, i2=i2, s2=s2):
                        d1, d2 = dense(lambda i, r: c.a('j')[a1(i, r)], i1, s1), dense(lambda i, r: c.a('k')[a2(i, r)], i2, s2)
                        J = lambda i, r: add(d1(i, r), d2(i, r))
                        upper(c, n, lambda r, q: sm([mul3(c.a('wm')[wi[i, l]], J(i, r), J(l, q)) for i in range(N) for l in range(N)]), lambda r: sm([mul3(c.a('wm')[wi[i, l]], J(i, r), c.a('z')[l]) for i in range(N) for l in range(N)]))
                    S.h('spp_%d_%d%d_%d%d_%d_%s' % (n, s1, i1, s2, i2, N, k), ps + [In('j', t1), In('k', t2), In('z', N), In('wm', wn)], '%s %s %s %s w.add_sparse_mJ_rows(%s,J,%d,K,%d,%s); %s' % (pre, c1, c2, wc, mv, i1, i2, Wn, post), ps2, what='add_sparse_mJ_rows of %d rows in two blocks, %d parameters from %d and %d from %d of %d' % (N, s1, i1, s2, i2, n), **kd('d' if dyn else 'o'))
    # ---------------- priors, clear, +=, compute
    for n in (1, 2, 3, 5):
        for dyn in (False, True):
            pre, post, ps = state(n, dyn)
            kk = kd('d' if dyn else 'o')
            d_ = 'd' if dyn else 's'
            S.h('prior_%d%s' % (n, d_), ps + [Real('z')], '%s w.add_prior(z); %s' % (pre, post), lambda c, n=n: upper(c, n, lambda r, q: c.reals['z'] if r == q else F0, lambda r: F0), what='add_prior(number), %d parameters' % n, **kk)
            vx = ('wrapVector((double*)j,%d)' if dyn else 'wrapVector<%d>((double*)j)') % n
            S.h('priorv_%d%s' % (n, d_), ps + [In('j', n)], '%s w.add_prior(%s); %s' % (pre, vx, post), lambda c, n=n: upper(c, n, lambda r, q: c.a('j')[r] if r == q else F0, lambda r: F0), what='add_prior(vector), %d parameters' % n, **kk)
            for k in ('d', 'dc') if dyn else ('s', 'sc'):
                code, tot, at = Jm(n, n, k)
                S.h('priorm_%d%s' % (n, k), ps + [In('j', tot)], '%s %s w.add_prior(J); %s' % (pre, code, post), lambda c, n=n, at=at: upper(c, n, lambda r, q: c.a('j')[at(r, q)], lambda r: F0), what='add_prior(matrix), %d parameters (%s)' % (n, k), **kk)
            def pz(c, n=n):
                for r in range(n):
                    for q in range(r, n): c.eq('C_inv[%d,%d]' % (r, q), c.o('ao')[r * n + q], F0)
                    c.eq('vector[%d]' % r, c.o('bo')[r], F0)
            S.h('clear_%d%s' % (n, d_), ps, '%s w.clear(); %s' % (pre, post), pz, what='clear, %d parameters' % n, **kk)
            S.h('fresh_%d%s' % (n, d_), ps[2:], 'WLS<%s> w%s; %s' % (-1 if dyn else n, '(%d)' % n if dyn else '', post), pz, what='a new system is empty, %d parameters' % n, **kk)
            pre2 = pre.replace(' w;', ' v;').replace('w.', 'v.').replace(' w(', ' v(').replace(')a', ')j').replace(')b', ')k')
            S.h('plus_%d%s' % (n, d_), ps + [In('j', n * n), In('k', n)], '%s %s w+=v; %s' % (pre, pre2, post), lambda c, n=n: upper(c, n, lambda r, q: c.a('j')[r * n + q], lambda r: c.a('k')[r]), what='+= adds another system, %d parameters' % n, **kk)
            def pcomp(c, n=n):
                S_ = lambda r, q: c.a('a')[min(r, q) * n + max(r, q)]
                c.eq('one decomposition', c.o('nc')[0], 1)
                for r in range(n):
                    for q in range(n):
                        c.eq('C_inv[%d,%d]' % (r, q), c.o('ao')[r * n + q], S_(r, q))
                        c.eq('decomposed[%d,%d]' % (r, q), c.o('da')[r * n + q], S_(r, q))
                    c.eq('vector[%d]' % r, c.o('bo')[r], c.a('b')[r])
                    c.eq('right hand side[%d]' % r, c.o('db')[r], c.a('b')[r])
                    c.eq('mu[%d]' % r, c.o('mu')[r], c.a('q')[r])
            S.h('comp_%d%s' % (n, d_), ps + [In('q', n), Out('da', n * n), Out('db', n), Out('mu', n), Out('nc', 1, 'int')], '%s w.get_decomposition().q=q; w.compute(); %s for(int r=0;r<%d;r++) for(int c=0;c<%d;c++) da[r*%d+c]=cw.get_decomposition().A(r,c); for(int r=0;r<%d;r++){ db[r]=cw.get_decomposition().b[r]; mu[r]=cw.get_mu()[r]; } nc[0]=w.get_decomposition().calls;' % (pre, post, n, n, n, n), pcomp, what='compute(): the symmetric system goes to the decomposition and its solution comes back, %d parameters' % n, **kk)
            if n <= 3:
                prec = pre.replace(',RecD>', '>')
                def psolve(c, n=n):
                    S_ = lambda r, q: c.a('a')[min(r, q) * n + max(r, q)]
                    for r in range(n): c.eq('row %d of C_inv mu = vector' % r, sm([mul(S_(r, q), c.o('mu')[q]) for q in range(n)]), c.a('b')[r])
                S.h('solve_%d%s' % (n, d_), ps[:2] + [Out('mu', n)], '%s w.compute(); for(int r=0;r<%d;r++) mu[r]=w.get_mu()[r];' % (prec, n), psolve, pre=lambda c, n=n: [lnot(req(leibniz(lambda i, j: c.a('a')[min(i, j) * n + max(i, j)], k), F0)) for k in range(1, n + 1)], what='compute() with Cholesky solves the normal equations, %d parameters' % n, **kk)
    # measurements of the wrong size abort
    wrong = lambda nm, ps, body, what, s=3: S.h('bad_' + nm, [Int('s', lo=0)] + ps, body, lambda c: None, pre=lambda c, s=s: [lnot(ieq(c.s, s))], abort=lambda c, s=s: lnot(ieq(c.s, s)), nodiv=True, what=what, kind='unbounded', opts=dict(loops=True), group=None)
    SZ = lambda z: z['s']
    wrong('rows', [In('z', SZ), In('j', 6)], 'WLS<2> w; Matrix<-1,2,double,RefR> J((double*)j,3,2); w.add_mJ(wrapVector((double*)z,s),J);', 'as many measurements as rows of J')
    wrong('prior', [In('z', SZ)], 'WLS<> w(3); w.add_prior(wrapVector((double*)z,s));', 'a prior vector of the wrong size aborts')
    wrong('priorm', [In('z', lambda z: imul(z['s'], z['s']))], 'WLS<> w(3); w.add_prior(wrapMatrix((double*)z,s,s));', 'a prior matrix of the wrong size aborts')
    wrong('plus', [], 'WLS<> w(3), v(s); w+=v;', 'adding a system of another size aborts')
    wrong('rowsm', [In('z', SZ), In('j', 6)], 'WLS<> w(2); Matrix<-1,-1,double,RefR> J((double*)j,3,2); Matrix<> W(3,3); W=Identity; w.add_mJ_rows(wrapVector((double*)z,s),J,W);', 'add_mJ_rows with the wrong number of measurements aborts')
    # ---------------- dynamic systems of every size
    NN = lambda z: imul(z['n'], z['n'])
    ud = 'WLS<-1,double,RecD> w(n); for(int i=0;i<n;i++) for(int l=0;l<n;l++) w.get_C_inv()(i,l)=a[i*n+l]; for(int i=0;i<n;i++) w.get_vector()[i]=b[i];'
    uo = ' for(int i=0;i<n;i++) for(int l=0;l<n;l++) ao[i*n+l]=w.get_C_inv()(i,l); for(int i=0;i<n;i++) bo[i]=w.get_vector()[i];'
    ups = [Int('n', lo=0), In('a', NN), In('b', lambda z: z['n']), Out('ao', NN), Out('bo', lambda z: z['n'])]
    def un(nm, ps, code, dA, db, what, **kw):
        def post(c):
            r, q = c.ghost('r', 0, c.n), c.ghost('q', 0, c.n)
            at = iadd(imul(r, c.n), q)
            for _ in c.due(ile(r, q)): c.eq('C_inv[r,c], c >= r', c.o('ao')[at], dA(c, r, q, c.a('a')[at]))
            c.eq('vector[r]', c.o('bo')[r], db(c, r, c.a('b')[r]))
        S.h('u_' + nm, ups + ps, ud + code + uo, post, what=what + ', any number of parameters', **dict(U, **kw))
    un('mj', [In('j', lambda z: z['n']), Real('z'), Real('wt')], 'w.add_mJ(z,wrapVector((double*)j,n),wt);', lambda c, r, q, a: add(a, mul3(c.reals['wt'], c.a('j')[r], c.a('j')[q])), lambda c, r, b: add(b, mul3(c.reals['wt'], c.reals['z'], c.a('j')[r])), 'add_mJ')
    un('pr', [Real('z')], 'w.add_prior(z);', lambda c, r, q, a: T.ite(ieq(r, q), add(a, c.reals['z']), a), lambda c, r, b: b, 'add_prior(number)')
    un('prv', [In('j', lambda z: z['n'])], 'w.add_prior(wrapVector((double*)j,n));', lambda c, r, q, a: T.ite(ieq(r, q), add(a, c.a('j')[r]), a), lambda c, r, b: b, 'add_prior(vector)')
    un('prm', [In('j', NN)], 'w.add_prior(wrapMatrix((double*)j,n,n));', lambda c, r, q, a: add(a, c.a('j')[iadd(imul(r, c.n), q)]), lambda c, r, b: b, 'add_prior(matrix)')
    un('clear', [], 'w.clear();', lambda c, r, q, a: F0, lambda c, r, b: F0, 'clear')
    un('plus', [In('j', NN), In('k', lambda z: z['n'])], 'WLS<-1,double,RecD> v(n); v.get_C_inv()=wrapMatrix((double*)j,n,n); v.get_vector()=wrapVector((double*)k,n); w+=v;', lambda c, r, q, a: add(a, c.a('j')[iadd(imul(r, c.n), q)]), lambda c, r, b: add(b, c.a('k')[r]), '+=')
    Nz = lambda z: z['n']
    for h in (1, 2, 3):
        un('rows%d' % h, [In('j', lambda z, h=h: iscale(z['n'], h)), In('z', h), Real('wt')], 'w.add_mJ(wrapVector<%d>((double*)z),Matrix<%d,-1,double,RefR>((double*)j,%d,n),wt);' % (h, h, h),
           lambda c, r, q, a, h=h: add(a, sm([mul3(c.reals['wt'], c.a('j')[iadd(iscale(c.n, i), r)], c.a('j')[iadd(iscale(c.n, i), q)]) for i in range(h)])), lambda c, r, b, h=h: add(b, sm([mul3(c.reals['wt'], c.a('z')[i], c.a('j')[iadd(iscale(c.n, i), r)]) for i in range(h)])), 'add_mJ of %d measurements' % h)
        if h == 3: continue
        wc, wn, wi = sym('wm', h)
        two = lambda c, ja, h=h, wi=wi: (lambda r, q: sm([mul3(c.a('wm')[wi[i, l]], ja(i, r), ja(l, q)) for i in range(h) for l in range(h)]), lambda r: sm([mul3(c.a('wm')[wi[i, l]], ja(i, r), c.a('z')[l]) for i in range(h) for l in range(h)]))
        jr = lambda c: (lambda i, r: c.a('j')[iadd(iscale(c.n, i), r)])
        jc = lambda c, h=h: (lambda i, r: c.a('j')[iadd(iscale(r, h), i)])
        un('mjr%d' % h, [In('j', lambda z, h=h: iscale(z['n'], h)), In('z', h), In('wm', wn)], wc + ' w.add_mJ_rows(wrapVector<%d>((double*)z),Matrix<%d,-1,double,RefR>((double*)j,%d,n),W);' % (h, h, h), lambda c, r, q, a, two=two, jr=jr: add(a, two(c, jr(c))[0](r, q)), lambda c, r, b, two=two, jr=jr: add(b, two(c, jr(c))[1](r)), 'add_mJ_rows of %d measurements' % h)
        un('mjc%d' % h, [In('j', lambda z, h=h: iscale(z['n'], h)), In('z', h), In('wm', wn)], wc + ' w.add_mJ(wrapVector<%d>((double*)z),Matrix<-1,%d,double,RefR>((double*)j,n,%d),W);' % (h, h, h), lambda c, r, q, a, two=two, jc=jc: add(a, two(c, jc(c))[0](r, q)), lambda c, r, b, two=two, jc=jc: add(b, two(c, jc(c))[1](r)), 'add_mJ of %d measurements with a covariance' % h)
    un('sp', [Int('g', lo=0), Int('x', lo=0, hi=lambda z: isub(z['n'], z['g'])), In('j', lambda z: z['g']), Real('z'), Real('wt')], 'w.add_sparse_mJ(z,wrapVector((double*)j,g),x,wt);',
       lambda c, r, q, a: T.ite(land(ile(c.x, r), ilt(q, iadd(c.x, c.g))), add(a, mul3(c.reals['wt'], c.a('j')[isub(r, c.x)], c.a('j')[isub(q, c.x)])), a), lambda c, r, b: T.ite(land(ile(c.x, r), ilt(r, iadd(c.x, c.g))), add(b, mul3(c.reals['wt'], c.reals['z'], c.a('j')[isub(r, c.x)])), b), 'add_sparse_mJ')
    def pcu(c):
        r, q = c.ghost('r', 0, c.n), c.ghost('q', 0, c.n)
        at, ta = iadd(imul(r, c.n), q), iadd(imul(q, c.n), r)
        want = T.ite(ile(r, q), c.a('a')[at], c.a('a')[ta])
        c.eq('C_inv symmetric', c.o('ao')[at], want); c.eq('decomposed', c.o('da')[at], want)
        c.eq('vector', c.o('bo')[r], c.a('b')[r]); c.eq('right hand side', c.o('db')[r], c.a('b')[r]); c.eq('mu', c.o('mu')[r], c.a('q')[r])
    S.h('u_comp', ups + [In('q', Nz), Out('da', NN), Out('db', Nz), Out('mu', Nz)], ud + 'w.get_decomposition().q=q; w.compute();' + uo + ' for(int i=0;i<n;i++) for(int l=0;l<n;l++) da[i*n+l]=w.get_decomposition().A(i,l); for(int i=0;i<n;i++) { db[i]=w.get_decomposition().b[i]; mu[i]=w.get_mu()[i]; }', pcu, what='compute(), any number of parameters', **U)
    # ---------------- robust weights: w, w + x w' and the integral of x w
    rob(S)

def rob(S):
    F0, F1 = Fraction(0), Fraction(1)
    def sm(xs):
        r = F0
        for x in xs: r = add(r, x)
        return r
    sq_ = lambda x: mul(x, x)
    NZ = {'RobustI': lambda c: [rlt(F0, c.reals['z'])], 'RobustII': lambda c: [lnot(req(c.reals['z'], F0))], 'RobustIII': lambda c: [lnot(req(c.reals['z'], F0))], 'ILinear': lambda c: []}
    def w_of(k, x, z):          # (w, w + x w') as quotients of polynomials
        if k == 'RobustI': d = add(z, T.rabs(x)); return (F1, d), (z, sq_(d))
        if k == 'RobustII': d = add(sq_(z), sq_(x)); return (F1, d), (sub(sq_(z), sq_(x)), sq_(d))
        if k == 'RobustIII': z2 = sq_(z); d = add(z2, sq_(x)); return (sq_(z2), sq_(d)), (mul(sq_(z2), sub(z2, mul(Fraction(3), sq_(x)))), mul(sq_(d), d))
        return (F1, F1), (F1, F1)
    def obj(c, k, x, z, o, lab='objective'):
        if k == 'RobustI': c.eq(lab, o, add(T.rabs(x), mul(z, T.log(T.div(z, add(z, T.rabs(x)))))))
        elif k == 'RobustII': c.eq(lab, o, mul(Fraction(1,2), T.log(add(F1, T.div(sq_(x), sq_(z))))))
        elif k == 'RobustIII': c.eq(lab, mul(o, mul(Fraction(2), add(sq_(z), sq_(x)))), mul(sq_(z), sq_(x)))
        else: c.eq(lab, mul(Fraction(2), o), sq_(x))
    for k in ('RobustI', 'RobustII', 'RobustIII', 'ILinear'):
        for ty in ('double', 'float'):
            def pw(c, k=k):
                x, z = c.reals['x'], c.reals['z']
                (wn, wd), (tn, td) = w_of(k, x, z)
                c.eq('weight w(x)', mul(c.o('o')[0], wd), wn)
                c.eq("w(x) + x w'(x)", mul(c.o('o')[1], td), tn)
                obj(c, k, x, z, c.o('o')[2], 'the integral of x w(x)')
            S.h('rw_%s_%s' % (k, ty), [Real('x', ty), Real('z', ty), Out('o', 3, ty)], '%s<%s> w; w.set_sd(z); o[0]=w.reweight(x); o[1]=w.true_scale(x); o[2]=w.objective(x);' % (k, ty), pw, pre=NZ[k], what='%s<%s>: weight, its true scale and objective' % (k, ty), kind='static', f32='exact', opts=dict(ratsimp=True))
    # ---------------- IRLS: each measurement enters with the weight of its residual
    S.defs += """
template<class P> struct UW { P reweight(P x){return sinh(x);} P true_scale(P x){return cosh(x);} P objective(P x){return tanh(x);} };
"""
    uf1 = lambda nm: (lambda x: T.uf(nm, x))
    w_, t_, o_ = uf1('sinh'), uf1('cosh'), uf1('tanh')
    for n in (1, 2, 3, 4):
        for dyn in (False, True):
            for ty in ('double', 'float'):
                if ty == 'float' and n != 2: continue
                if n == 4 and dyn: continue
                d_ = ('d' if dyn else 's') + ty[0]
                kk = dict(kd('d' if dyn else 'o'), f32='exact')
                N_ = -1 if dyn else n
                decl = lambda v: 'IRLS<%d,%s,UW> %s%s;' % (N_, ty, v, '(%d)' % n if dyn else '')
                mx = 'Matrix<-1,-1,%s,RefR>((%s*)%%s,%d,%d)' % (ty, ty, n, n) if dyn else 'Matrix<%d,%d,%s,RefR>((%s*)%%s)' % (n, n, ty, ty)
                vx = 'wrapVector((%s*)%%s,%d)' % (ty, n) if dyn else 'wrapVector<%d>((%s*)%%s)' % (n, ty)
                put = lambda v, a, b, t: ' %s.get_C_inv()=%s; %s.get_vector()=%s; %s.get_true_C_inv()=%s;' % (v, mx % a, v, vx % b, v, mx % t)
                get = ' const auto& cw=w; for(int r=0;r<%d;r++) for(int c=0;c<%d;c++) { ao[r*%d+c]=cw.get_C_inv()(r,c); to[r*%d+c]=cw.get_true_C_inv()(r,c); } for(int r=0;r<%d;r++) bo[r]=cw.get_vector()[r]; ro[0]=w.get_residual();' % (n, n, n, n, n)
                ps = [In('a', n * n, ty), In('b', n, ty), In('t', n * n, ty), Out('ao', n * n, ty), Out('bo', n, ty), Out('to', n * n, ty), Out('ro', 1, ty)]
                def chk(c, ms, n=n, res=None, a='a', b='b', t='t', extra=None):
                    J = lambda i, r: c.a('j')[i * n + r]
                    for r in range(n):
                        for q in range(n):
                            if q >= r: c.eq('C_inv[%d,%d]' % (r, q), c.o('ao')[r * n + q], sm([c.a('a')[r * n + q]] + [mul(w_(m), mul(J(i, r), J(i, q))) for i, m in enumerate(ms)] + ([c.a('a2')[r * n + q]] if extra else [])))
                            c.eq('true_C_inv[%d,%d]' % (r, q), c.o('to')[r * n + q], sm([c.a('t')[r * n + q]] + [mul(sq_(t_(m)), mul(J(i, r), J(i, q))) for i, m in enumerate(ms)] + ([c.a('t2')[r * n + q]] if extra else [])))
                        c.eq('vector[%d]' % r, c.o('bo')[r], sm([c.a('b')[r]] + [mul(w_(m), mul(m, J(i, r))) for i, m in enumerate(ms)] + ([c.a('b2')[r]] if extra else [])))
                    c.eq('residual', c.o('ro')[0], sm([o_(m) for m in ms + (extra or [])]))
                Jx = lambda i: ('wrapVector((%s*)j+%d,%d)' if dyn else 'wrapVector<%d>((%s*)j+%d)') % ((ty, i * n, n) if dyn else (n, ty, i * n))
                S.h('irls_%d%s' % (n, d_), ps + [In('j', 2 * n, ty), Real('x', ty), Real('z', ty)], decl('w') + put('w', 'a', 'b', 't') + ' w.add_mJ(x,%s); w.add_mJ(z,%s);' % (Jx(0), Jx(1)) + get, lambda c, chk=chk: chk(c, [c.reals['x'], c.reals['z']]), what='IRLS<%d,%s>::add_mJ' % (N_, ty), **kk)
                for src in ('[1]', '.T()[1]'):
                    if n < 2: continue
                    def chk1(c, n=n, src=src):
                        m, J = c.reals['x'], (lambda r: c.a('j')[n + r] if src == '[1]' else c.a('j')[r * n + 1])
                        for r in range(n):
                            for q in range(n): c.eq('true_C_inv[%d,%d]' % (r, q), c.o('to')[r * n + q], add(c.a('t')[r * n + q], mul(sq_(t_(m)), mul(J(r), J(q)))))
                            c.eq('vector[%d]' % r, c.o('bo')[r], add(c.a('b')[r], mul(w_(m), mul(m, J(r)))))
                    S.h('irlsj_%d%s%s' % (n, d_, src[1]), ps + [In('j', n * n, ty), Real('x', ty)], decl('w') + put('w', 'a', 'b', 't') + ' auto mj=%s; w.add_mJ(x,mj%s);' % (mx % 'j', src) + get, chk1, what='IRLS::add_mJ of a row or column of a matrix', **kk)
                S.h('irlsp_%d%s' % (n, d_), ps + [In('a2', n * n, ty), In('b2', n, ty), In('t2', n * n, ty), In('j', n, ty), Real('x', ty), Real('z', ty)], decl('w') + put('w', 'a', 'b', 't') + ' w.add_mJ(x,%s);' % Jx(0) + decl('v') + ' v.add_mJ(z,%s);' % Jx(0) + put('v', 'a2', 'b2', 't2') + ' w+=v;' + get,
                    lambda c, chk=chk: chk(c, [c.reals['x']], extra=[c.reals['z']]), what='IRLS<%d,%s>::operator+=' % (N_, ty), **kk)
                def pz(c, n=n):
                    for r in range(n):
                        for q in range(n):
                            if q >= r: c.eq('C_inv', c.o('ao')[r * n + q], F0)
                            c.eq('true_C_inv', c.o('to')[r * n + q], F0)
                        c.eq('vector', c.o('bo')[r], F0)
                    c.eq('residual', c.o('ro')[0], F0)
                S.h('irlsc_%d%s' % (n, d_), ps[:3] + ps[3:] + [In('j', n, ty), Real('x', ty)], decl('w') + ' w.add_mJ(x,%s);' % Jx(0) + put('w', 'a', 'b', 't') + ' w.clear();' + get, pz, what='IRLS::clear', **kk)
                S.h('irlsf_%d%s' % (n, d_), ps[3:], decl('w') + get, pz, what='a new IRLS is empty', **kk)
    # the reweighting classes that come with the library, through IRLS
    for k in ('RobustI', 'RobustII', 'RobustIII', 'ILinear'):
        n = 2
        def pi(c, k=k, n=n):
            x, z = c.reals['x'], c.reals['z']
            (wn, wd), (tn, td) = w_of(k, x, z)
            J = c.a('j')
            for r in range(n):
                for q in range(n):
                    if q >= r: c.eq('C_inv[%d,%d]' % (r, q), mul(wd, c.o('ao')[r * n + q]), mul(wn, mul(J[r], J[q])))
                    c.eq('true_C_inv[%d,%d]' % (r, q), mul(sq_(td), c.o('to')[r * n + q]), mul(sq_(tn), mul(J[r], J[q])))
                c.eq('vector[%d]' % r, mul(wd, c.o('bo')[r]), mul(mul(wn, x), J[r]))
            obj(c, k, x, z, c.o('ro')[0], 'residual')
        S.h('irlsw_' + k, [Real('x'), Real('z'), In('j', n), Out('ao', n * n), Out('bo', n), Out('to', n * n), Out('ro', 1)], 'IRLS<2,double,%s> w; w.set_sd(z); w.add_mJ(x,wrapVector<2>((double*)j)); const auto& cw=w; for(int r=0;r<2;r++) for(int c=0;c<2;c++) { ao[r*2+c]=cw.get_C_inv()(r,c); to[r*2+c]=cw.get_true_C_inv()(r,c); } for(int r=0;r<2;r++) bo[r]=cw.get_vector()[r]; ro[0]=w.get_residual();' % k, pi, pre=NZ[k], what='IRLS with %s' % k, kind='static', opts=dict(ratsimp=True))
