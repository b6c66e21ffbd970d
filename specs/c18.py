from specs.lin import *
from toonvc.terms import neg, iadd, isub
import re
from toonvc import smt
from toonvc.terms import Term
from toonvc.exe import Ptr, DOUBLE, Unsupported, dem
def lin_sum(xs):
    r = Fraction(0)
    for x in xs: r = add(r, x)
    return r
from toonvc.invs import Auto, default_cands
from toonvc.terms import iatom, ivar, ile, ilt, ieq

def build(S):
    S.chunk = 1
    S.include('TooN/optimization/golden_section.h'); S.include('TooN/optimization/brent.h'); S.include('TooN/optimization/conjugate_gradient.h')
    S.defs += '''
template<class P> struct Opq { P m; mutable int n; Opq(P m_):m(m_),n(0){} P operator()(P x) const { n++; return std::cosh(x-m); } };
template<class P> struct Quad { P m; mutable int n; Quad(P m_):m(m_),n(0){} P operator()(P x) const { n++; return (x-m)*(x-m); } };
template<class P> struct Vee { P m; mutable int n; Vee(P m_):m(m_),n(0){} P operator()(P x) const { n++; return x<m ? m-x : x-m; } };
'''
    rv = T.rvar
    def cosh(m): return lambda x: T.uf('cosh', sub(x, m))
    def quad(m): return lambda x: mul(sub(x, m), sub(x, m))
    def vee(m): return lambda x: T.rabs(sub(x, m))
    R = lambda n: rv(n)
    line = [Real('a'), Real('b'), Real('c'), Real('m'), Real('tol')]
    def search_pre(F):
        def pre(c):
            r = c.reals
            return [rlt(r['a'], r['b']), rlt(r['b'], r['c']), rlt(F(r['b']), F(r['a'])), rlt(F(r['b']), F(r['c'])), rlt(Fraction(0), r['tol']), rlt(r['tol'], Fraction(1, 2))]
        return pre
    def search_post(F, conv, eps=lambda r: Fraction(0)):
        def post(c):
            r, o = c.reals, c.o('o')
            c.eq('the value returned is the function at the point returned', o[1], F(o[0]))
            c.hold('the point is within the bracket', land(rle(r['a'], o[0]), rle(o[0], r['c'])))
            c.hold('no worse than the central point', rle(o[1], F(r['b'])))
            n = c.o('n')[0]
            c.hold('at most maxiterations evaluations', lor(ile(n, c.it), ile(n, 1)))
            if conv:
                d = T.rabs(sub(o[0], r['m']))
                c.hold('converged or out of iterations', lor(ile(c.it, n), rle(mul(d, sub(Fraction(1), r['tol'])), add(mul(mul(Fraction(2), r['tol']), T.rabs(o[0])), eps(r)))))
        return post
    fns = {'opq': ('Opq', cosh, 0), 'quad': ('Quad', quad, 1), 'vee': ('Vee', vee, 1)}
    def cands_for(F, K, hard=(), strict=True):
        def cands(V, K2):
            fb = F(R('b'))
            return default_cands(V, K, [F], hard, strict) + [('p', lambda W, i=i, j=j: lor(rle(W[i], fb), rle(W[j], fb))) for i in range(len(V)) for j in range(i + 1)]
        return cands
    for nm, (cl, Fm, conv) in fns.items():
        F = Fm(R('m'))
        K, hard = [R('a'), R('c')], [R('m')] if conv else []
        S.h('golden_' + nm, line + [Int('it', lo=0), Out('o', 2), Out('n', 1, 'int')], '%s<double> f(m); const double fb=f(b); f.n=0; Vector<2> r=golden_section_search(a,b,c,fb,f,it,tol); o[0]=r[0];o[1]=r[1]; n[0]=f.n;' % cl,
            search_post(F, conv), pre=search_pre(F), opts=dict(inv=[Auto('golden_section_search', cands_for(F, K, hard))]), kind='static', what='golden section search, any bracket and number of iterations (%s)' % nm)
        if nm != 'vee': S.h('brent_' + nm, line + [Real('eps'), Int('it', lo=0), Out('o', 2), Out('n', 1, 'int')], '%s<double> f(m); const double fb=f(b); f.n=0; Vector<2> r=brent_line_search(a,b,c,fb,f,it,tol,eps); o[0]=r[0];o[1]=r[1]; n[0]=f.n;' % cl,
            search_post(F, nm == 'quad', lambda r: r['eps']), pre=lambda c, F=F: search_pre(F)(c) + [rlt(Fraction(0), c.reals['eps'])], opts=dict(inv=[Auto('brent_line_search', cands_for(F, K, hard if nm == "quad" else (), False))], branch_timeout=150, **(dict(forksel=True, divsimp=True) if nm == "quad" else {})), kind='static', what='Brent line search, any bracket and number of iterations (%s)' % nm)

    def post(c, F=cosh(R('m'))):
        r, o, n = c.reals, c.o('o'), c.o('n')[0]
        c.eq('the value returned is the function at the point returned', o[1], F(o[0]))
        c.hold('the point is within the bracket', land(rle(r['a'], o[0]), rle(o[0], r['c'])))
        c.hold('no worse than the central point', rle(o[1], F(r['b'])))
        c.hold('at most one evaluation more than maxiterations', lor(ile(n, iadd(c.it, 1)), ile(n, 2)))
    S.h('golden_centre', line + [Int('it', lo=0), Out('o', 2), Out('n', 1, 'int')], 'Opq<double> f(m); Vector<2> r=golden_section_search(a,b,c,f,it,tol); o[0]=r[0];o[1]=r[1]; n[0]=f.n;',
        post, pre=search_pre(cosh(R('m'))), opts=dict(inv=[Auto('golden_section_search', cands_for(cosh(R('m')), [R('a'), R('c')]))]), kind='static', what='golden section search that evaluates the central point itself')
    for fn in ('golden', 'brent'):
        F, e = quad(R('m')), fn == 'brent'
        S.h(fn + '_quad_f', [Real(x, 'float') for x in ['a', 'b', 'c', 'm', 'tol'] + ['eps'] * e] + [Int('it', lo=0), Out('o', 2, 'float'), Out('n', 1, 'int')],
            'Quad<float> f(m); const float fb=f(b); f.n=0; Vector<2,float> r=%s(a,b,c,fb,f,it,tol%s); o[0]=r[0];o[1]=r[1]; n[0]=f.n;' % (('brent_line_search', ',eps') if e else ('golden_section_search', '')),
            search_post(F, True, (lambda r: r['eps']) if e else (lambda r: Fraction(0))), pre=lambda c, F=F, e=e: search_pre(F)(c) + ([rlt(Fraction(0), c.reals['eps'])] if e else []), f32='exact',
            opts=dict(inv=[Auto(fn + '_', cands_for(F, [R('a'), R('c')], [R('m')], not e))], **(dict(forksel=True, divsimp=True, branch_timeout=150) if e else {})), kind='static', what='%s line search in single precision, any quadratic' % fn)
    # ---------------- bracketing a minimum ahead
    for nm, (cl, Fm, conv) in fns.items():
        if nm == 'vee': continue
        F = Fm(R('m'))
        Z = Fraction(0)
        def post(c, F=F, conv=conv):
            o, r = c.o('o'), c.reals
            none = land(*[req(o[k], Z) for k in range(6)])
            c.hold('no bracket, or three points in order', lor(none, land(rle(Z, o[0]), rlt(o[0], o[2]), rlt(o[2], o[4]))))
            c.hold('no bracket, or the middle one strictly lowest', lor(none, land(rlt(o[3], o[1]), rlt(o[3], o[5]))))
            for k in range(3): c.hold('value %d is the function at the point' % k, lor(none, req(o[2 * k + 1], F(o[2 * k]))))
            if conv: c.hold('the minimum is inside', lor(none, land(rlt(o[0], r['m']), rlt(r['m'], o[4]))))
        S.h('bracket_' + nm, [Real('m'), Real('lam'), Real('zeps'), Out('o', 6)], '%s<double> f(m); Matrix<3,2> r=Internal::bracket_minimum_forward(f(0.0),f,lam,zeps); for(int i=0;i<3;i++) for(int j=0;j<2;j++) o[i*2+j]=r(i,j);' % cl,
            post, pre=lambda c: [rlt(Z, c.reals['lam']), rlt(Z, c.reals['zeps'])], opts=dict(inv=[Auto('bracket_minimum_forward', lambda V, K2, F=F: default_cands(V, [Z, F(Z)], [F]))], forksel=True), kind='static', what='bracketing a minimum, any starting step (%s)' % nm)
    # ---------------- conjugate gradients
    S.defs += '''
struct Opq2 { double operator()(const Vector<2>& v) const { return std::cosh(v[0])+std::tanh(v[1]); } };
struct Opq1 { double operator()(const Vector<1>& v) const { return std::cosh(v[0]); } };
struct OpqD { double operator()(const Vector<>& v) const { return std::cosh(v[0])+std::tanh(v[1]); } };
struct Der2 { Vector<2> operator()(const Vector<2>& v) const { return makeVector(std::sinh(v[0]),std::cbrt(v[1])); } };
struct Der1 { Vector<1> operator()(const Vector<1>& v) const { return makeVector(std::sinh(v[0])); } };
struct DerD { Vector<> operator()(const Vector<>& v) const { return makeVector(std::sinh(v[0]),std::cbrt(v[1])); } };
'''
    Z = Fraction(0)
    fcn = {1: lambda p: T.uf('cosh', p[0]), 2: lambda p: add(T.uf('cosh', p[0]), T.uf('tanh', p[1]))}
    der = {1: lambda p: [T.uf('sinh', p[0])], 2: lambda p: [T.uf('sinh', p[0]), T.uf('cbrt', p[1])]}
    def dedup(xs):
        out = []
        for x in xs:
            if not any(x is y or not isinstance(x, Term) and not isinstance(y, Term) and x == y for y in out): out.append(x)
        return out
    for n, D in ((1, '1'), (2, '2'), (2, 'D')):
        sz = -1 if D == 'D' else n
        X0, H0 = ['x%d' % i for i in range(n)], ['h%d' % i for i in range(n)]
        rs = [Real(v) for v in X0 + H0]
        vec = lambda L: 'makeVector(%s)' % ','.join(L)
        dump = lambda *vs: ''.join('for(int i=0;i<%d;i++) o[%d+i]=cg.%s[i];' % (n, n * k, v) for k, v in enumerate(vs))
        F = fcn[n]
        lf = lambda t, F=F, n=n: F([add(rv('x%d' % i), mul(t, neg(rv('h%d' % i)))) for i in range(n)])
        auto = [Auto('bracket_minimum_forward', lambda V, K2, lf=lf: default_cands(V, [Z, lf(Z)], [lf])),
                ]
        def brent(ex, st, args, i, name, lf=lf):
            """Brent's search on the line, as brent_opq establishes it"""
            reg = len(args) == 8          # the result fits in registers
            if not reg and len(args) != 9: return NotImplemented
            a, b, c, fb = args[0 if reg else 1:][:4]
            ex.oblige(st, 'precondition', 'the line search is given a bracket', land(rlt(a, b), rlt(b, c), req(fb, lf(b))))
            t = rv('brent!t')
            for f in (rle(a, t), rle(t, c), rle(lf(t), fb)): st.assume(f)
            if reg: return [(st, (t, lf(t)))]
            ex.store(st, args[0], DOUBLE, t); ex.store(st, Ptr(args[0].r, iadd(args[0].o, 8)), DOUBLE, lf(t))
            return [(st, None)]
        def post(c, n=n, F=F):
            o, y, oy = c.o('o'), c.o('y')[0], c.o('y')[1]
            x, h = [c.reals['x%d' % i] for i in range(n)], [c.reals['h%d' % i] for i in range(n)]
            c.eq('the value kept is the function at the point', y, F([o[i] for i in range(n)]))
            c.hold('never worse', rle(y, F(x)))
            c.eq('previous value', oy, F(x))
            for i in range(n): c.eq('previous point[%d]' % i, o[n + i], x[i])
            for i in range(n):
                for j in range(i): c.eq('moved along h', mul(sub(o[i], x[i]), h[j]), mul(sub(o[j], x[j]), h[i]))
            for i in range(n): c.eq('direction untouched[%d]' % i, o[2 * n + i], h[i])
            c.hold('one iteration', ieq(c.o('n')[0], 1))
        S.h('cg_next_' + D, rs + [Out('o', 3 * n), Out('y', 2), Out('n', 1, 'int')], 'Opq%s f; Vector<%d> x(%s),h(%s); ConjugateGradient<%d> cg(x,f,h); cg.find_next_point(f); %s y[0]=cg.y; y[1]=cg.old_y; n[0]=cg.iterations;' % (D, sz, vec(X0), vec(H0), sz, dump('x', 'old_x', 'h')),
            post, opts=dict(inv=auto, branch_timeout=150, forksel=True, contracts=[('brent_line_search', brent)]), kind='static' if D != 'D' else 'bounded', what='one line search of the conjugate gradient optimiser, %s parameters' % (D if D != 'D' else 'run-time number (2) of'))
        def post(c, n=n, F=F):
            o, y, it = c.o('o'), c.o('y'), c.o('n')[0]
            x, h = [c.reals['x%d' % i] for i in range(n)], [c.reals['h%d' % i] for i in range(n)]
            c.eq('previous value', y[1], F(x))
            c.eq('the value kept is the function at the point', y[0], F([o[i] for i in range(n)]))
            c.hold('never worse', rle(y[0], F(x)))
            stop = rle(mul(Fraction(2), T.rabs(sub(y[0], y[1]))), mul(c.reals['tol'], add(add(T.rabs(y[0]), T.rabs(y[1])), c.reals['eps'])))
            c.hold('goes on exactly until settled', land(lor(lnot(stop), ieq(it, 0)), lor(stop, ieq(it, 1))))
            d = der[n]([o[i] for i in range(n)])
            with c.when(ieq(it, 1)):
                for i in range(n): c.eq('gradient at the new point[%d]' % i, o[n + i], d[i]); c.eq('old h[%d]' % i, o[2 * n + i], h[i])
            with c.when(ieq(it, 0)):
                for i in range(n): c.eq('h kept[%d]' % i, o[3 * n + i], h[i])
        S.h('cg_iterate_' + D, rs + [Real('tol'), Real('eps'), Out('o', 4 * n), Out('y', 2), Out('n', 1, 'int')], 'Opq%s f; Der%s d; Vector<%d> x(%s),h(%s); ConjugateGradient<%d> cg(x,f,h); cg.tolerance=tol; cg.epsilon=eps; n[0]=cg.iterate(f,d); %s y[0]=cg.y; y[1]=cg.old_y;' % (D, D, sz, vec(X0), vec(H0), sz, dump('x', 'g', 'old_h', 'h')),
            post, nodiv=True, opts=dict(inv=auto, branch_timeout=150, forksel=True, contracts=[('brent_line_search', brent)]), kind='static' if D != 'D' else 'bounded', what='one iteration of the conjugate gradient optimiser, %s parameters' % (D if D != 'D' else 'run-time number (2) of'))
        def post(c, n=n):
            o = c.o('o')
            h, og = [c.reals['h%d' % i] for i in range(n)], [c.reals['x%d' % i] for i in range(n)]
            g = [c.a('g')[i] for i in range(n)]
            dot = lambda a, b: lin_sum([mul(x, y) for x, y in zip(a, b)])
            for i in range(n):
                c.eq('g[%d]' % i, o[i], g[i]); c.eq('old g[%d]' % i, o[n + i], og[i]); c.eq('old h[%d]' % i, o[3 * n + i], h[i])
                c.eq('Polak-Ribiere[%d]' % i, mul(dot(og, og), sub(o[2 * n + i], g[i])), mul(sub(dot(g, g), dot(og, g)), h[i]))
                c.eq('minus h[%d]' % i, o[4 * n + i], neg(o[2 * n + i]))
        S.h('cg_update_' + D, rs + [In('g', n), Out('o', 5 * n)], 'Opq%s f; Vector<%d> x(%s),h(%s); ConjugateGradient<%d> cg(x,f,h); cg.g=x; cg.h=h; cg.update_vectors_PR(%s); %s' % (D, sz, vec(X0), vec(H0), sz, vec(['g[%d]' % i for i in range(n)]), dump('g', 'old_g', 'h', 'old_h', 'minus_h')),
            post, nodiv=True, kind='static' if D != 'D' else 'bounded', what='Polak-Ribiere update')
        def post(c, n=n, F=F):
            o = c.o('o')
            x = [c.reals['x%d' % i] for i in range(n)]
            d = der[n](x)
            for i in range(n):
                c.eq('x[%d]' % i, o[i], x[i]); c.eq('g[%d]' % i, o[n + i], d[i]); c.eq('h[%d]' % i, o[2 * n + i], d[i]); c.eq('minus h[%d]' % i, o[3 * n + i], neg(d[i]))
            c.eq('y', c.o('y')[0], F(x)); c.eq('old y', c.o('y')[1], F(x)); c.hold('no iterations', ieq(c.o('n')[0], 0)); c.hold('limit', ieq(c.o('n')[1], 100 * n))
        S.h('cg_init_' + D, [Real(v) for v in X0] + [Out('o', 4 * n), Out('y', 2), Out('n', 2, 'int')], 'Opq%s f; Vector<%d> x(%s); Der%s d; ConjugateGradient<%d> cg(x,f,d); %s y[0]=cg.y; y[1]=cg.old_y; n[0]=cg.iterations; n[1]=cg.max_iterations;' % (D, sz, vec(X0), D, sz, dump('x', 'g', 'h', 'minus_h')),
            post, kind='static' if D != 'D' else 'bounded', what='starting the conjugate gradient optimiser')
    def post(c):
        r = c.reals
        stop = lor(ilt(c.mx, c.it), rle(mul(Fraction(2), T.rabs(sub(r['y'], r['oy']))), mul(r['tol'], add(add(T.rabs(r['y']), T.rabs(r['oy'])), r['eps']))))
        c.hold('finished exactly when out of iterations or settled', land(lor(lnot(stop), ieq(c.o('n')[0], 1)), lor(stop, ieq(c.o('n')[0], 0))))
    S.h('cg_finished', [Real('y'), Real('oy'), Real('tol'), Real('eps'), Int('it'), Int('mx'), Out('n', 1, 'int')], 'Opq2 f; Der2 d; ConjugateGradient<2> cg(makeVector(1.0,2.0),f,d); cg.y=y; cg.old_y=oy; cg.tolerance=tol; cg.epsilon=eps; cg.iterations=it; cg.max_iterations=mx; n[0]=cg.finished();',
        post, kind='static', what='termination of the conjugate gradient optimiser')
    # ---------------- numerical derivatives
    S.include('TooN/functions/derivatives.h')
    S.defs += '''
struct Opq3 { double operator()(const Vector<3>& v) const { return std::cosh(v[0])*std::tanh(v[1])+std::sinh(v[1])*std::cbrt(v[2])+std::cosh(v[2])*std::sinh(v[0]); } };
struct Qua3 { const double* a; const double* b; Qua3(const double*a_,const double*b_):a(a_),b(b_){} template<int N> double operator()(const Vector<N>& v) const { double s=0; for(int i=0;i<v.size();i++){ s+=b[i]*v[i]; for(int j=0;j<v.size();j++) s+=a[i*v.size()+j]*v[i]*v[j]; } return s; } };
struct CstF { double g; double operator()(double) { return g; } };
'''
    def F3(p):
        u = T.uf
        return add(add(mul(u('cosh', p[0]), u('tanh', p[1])), mul(u('sinh', p[1]), u('cbrt', p[2]))), mul(u('cosh', p[2]), u('sinh', p[0])))
    def step(c, v, i):
        m = mul(T.rabs(v[i]), Fraction(1, 1000))
        return mul(c.reals['hh'], T.ite(rlt(m, Fraction(1, 1000)), Fraction(1, 1000), m))
    def moved(v, *ds):
        p = list(v)
        for i, d in ds: p[i] = add(p[i], d)
        return p
    V3 = [Real('v%d' % i) for i in range(3)]
    vv = 'Vector<3> v=makeVector(v0,v1,v2); Opq3 f; '
    def post(c):
        v = [c.reals['v%d' % i] for i in range(3)]
        for k, i in enumerate((1, 0, 2, 1)):
            h = step(c, v, i)
            c.eq('central difference along axis %d' % i, c.o('o')[k], div(sub(F3(moved(v, (i, h))), F3(moved(v, (i, neg(h))))), mul(Fraction(2), h)))
    S.h('diff_gradient', V3 + [Real('hh'), Out('o', 4)], vv + 'Internal::CentralDifferenceGradient<Opq3,double,3,Internal::VBase> d(v,f); d.i=1; o[0]=d(hh); d.i=0; o[1]=d(hh); d.i=2; o[2]=d(hh); d.i=1; o[3]=d(hh);', post,
        pre=lambda c: [rlt(Z, c.reals['hh'])], kind='static', what='central differences, one axis after another')
    def post(c):
        v = [c.reals['v%d' % i] for i in range(3)]
        for k, i in enumerate((1, 0, 2)):
            h = step(c, v, i)
            c.eq('second difference along axis %d' % i, c.o('o')[k], div(add(sub(F3(moved(v, (i, h))), mul(Fraction(2), F3(v))), F3(moved(v, (i, neg(h))))), mul(h, h)))
    S.h('diff_second', V3 + [Real('hh'), Out('o', 3)], vv + 'Internal::CentralDifferenceSecond<Opq3,double,3,Internal::VBase> d(v,f); d.i=1; o[0]=d(hh); d.i=0; o[1]=d(hh); d.i=2; o[2]=d(hh);', post,
        pre=lambda c: [rlt(Z, c.reals['hh'])], kind='static', what='second differences, one axis after another')
    def post(c):
        v = [c.reals['v%d' % i] for i in range(3)]
        for k, (i, j) in enumerate(((0, 1), (0, 2), (1, 2))):
            h = step(c, v, i)
            q = sub(add(F3(moved(v, (i, h), (j, h))), F3(moved(v, (i, neg(h)), (j, neg(h))))), add(F3(moved(v, (i, neg(h)), (j, h))), F3(moved(v, (i, h), (j, neg(h))))))
            c.eq('cross difference of axes %d and %d' % (i, j), c.o('o')[k], div(q, mul(Fraction(4), mul(h, h))))
    S.h('diff_cross', V3 + [Real('hh'), Out('o', 3)], vv + 'Internal::CentralCrossDifferenceSecond<Opq3,double,3,Internal::VBase> d(v,f); d.i=0; d.j=1; o[0]=d(hh); d.j=2; o[1]=d(hh); d.i=1; o[2]=d(hh);', post,
        pre=lambda c: [rlt(Z, c.reals['hh'])], kind='static', what='cross differences, one pair of axes after another')
    S.h('extrap_const', [Real('g'), Out('o', 2)], 'CstF f={g}; std::pair<double,double> r=Internal::extrapolate_to_zero<CstF,double>(f); o[0]=r.first; o[1]=r.second;',
        lambda c: (c.eq('limit of a constant', c.o('o')[0], c.reals['g']), c.eq('error of a constant', c.o('o')[1], Z)), opts=dict(divsimp=True), kind='static', what='extrapolation of a constant')
    # the values of a polynomial: its constant term comes out, whatever it is, with no error
    S.defs += '''
struct PlyF { double g; double operator()(double x) { return g+x*(1+x); } };
'''
    S.h('extrap_poly', [Real('g'), Out('o', 2)], 'PlyF f={g}; std::pair<double,double> r=Internal::extrapolate_to_zero<PlyF,double>(f); o[0]=r.first; o[1]=r.second;',
        lambda c: (c.eq('limit of g + x + x^2', c.o('o')[0], c.reals['g']), c.eq('error', c.o('o')[1], Z)), opts=dict(divsimp=True), kind='static', what='extrapolation of g + x + x^2 for any g')
    def extrap(ex, st, args, i, name):
        """extrapolate_to_zero of a function that takes the same value everywhere, as extrap_const establishes it"""
        if len(args) not in (1, 2): return NotImplemented
        fp = args[-1]
        cls = re.search(r'extrapolate_to_zero<TooN::Internal::(\w+)<', dem(name)).group(1)
        ops = [f for f in ex.mod.funcs if re.search(r'TooN::Internal::%s<.*>::operator\(\)\(double\)' % cls, dem(f)) and 'Qua3' in dem(f)]
        if len(ops) != 1: raise Unsupported('the functor of extrapolate_to_zero is not found')
        out = []
        st.assume(rlt(Z, rv('step!')))
        todo = list(ex.call(st, ops[0], [fp, rv('step!')]))
        while todo:
            s2, val = todo.pop()
            ites = [t for t in T.subterms(val) if t.op == 'rite' and not any(u.op == 'rite' for u in T.subterms(t.args[0]))] if isinstance(val, Term) else []
            if ites:             # decide a conditional both ways
                cnd = ites[0].args[0]
                for b in (True, False):
                    s3 = s2.fork()
                    s3.assume(cnd if b else T.lnot(cnd))
                    if smt.feasible(s3.pc, True): todo.append((s3, T.subst(val, {cnd: b})))
                continue
            g = ex.simp('ratsimp', val)
            if rv('step!') in T.fv(g): raise Unsupported('the difference depends on the step')
            if len(args) == 1: out.append((s2, (g, Z)))
            else:
                ex.store(s2, args[0], DOUBLE, g); ex.store(s2, Ptr(args[0].r, iadd(args[0].o, 8)), DOUBLE, Z)
                out.append((s2, None))
        return out
    for n, D in ((1, '1'), (2, '2'), (3, '3'), (2, 'D')):
        sz = -1 if D == 'D' else n
        head = 'Qua3 f((const double*)a,(const double*)b); Vector<%d> x%s; for(int i=0;i<%d;i++) x[i]=v[i]; ' % (sz, '(%d)' % n if D == 'D' else '', n)
        ps = [In('a', n * n), In('b', n), In('v', n)]
        kk = 'static' if D != 'D' else 'bounded'
        def grad(c, i, n=n):
            return add(c.a('b')[i], lin_sum([mul(add(c.a('a')[i * n + j], c.a('a')[j * n + i]), c.a('v')[j]) for j in range(n)]))
        def post(c, n=n, grad=grad):
            for i in range(n): c.eq('gradient of a quadratic[%d]' % i, c.o('o')[i], grad(c, i))
        S.h('gradient_' + D, ps + [Out('o', n)], head + 'auto g=numerical_gradient(f,x); for(int i=0;i<%d;i++) o[i]=g[i];' % n, post, opts=dict(contracts=[('extrapolate_to_zero', extrap)], divsimp=True), kind=kk, what='numerical gradient of any quadratic, %s parameters' % D)
        def post(c, n=n, grad=grad):
            for i in range(n): c.eq('gradient of a quadratic[%d]' % i, c.o('o')[i * 2], grad(c, i)); c.eq('no error[%d]' % i, c.o('o')[2 * i + 1], Z)
        S.h('gradient_err_' + D, ps + [Out('o', 2 * n)], head + 'auto g=numerical_gradient_with_errors(f,x); for(int i=0;i<%d;i++) for(int j=0;j<2;j++) o[i*2+j]=g[i][j];' % n, post, opts=dict(contracts=[('extrapolate_to_zero', extrap)], divsimp=True), kind=kk, what='numerical gradient with errors of any quadratic, %s parameters' % D)
        def post(c, n=n):
            for i in range(n):
                for j in range(n): c.eq('Hessian of a quadratic[%d,%d]' % (i, j), c.o('o')[i * n + j], add(c.a('a')[i * n + j], c.a('a')[j * n + i]))
        S.h('hessian_' + D, ps + [Out('o', n * n)], head + 'auto g=numerical_hessian(f,x); for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) o[i*%d+j]=g[i][j];' % (n, n, n), post, opts=dict(contracts=[('extrapolate_to_zero', extrap)], divsimp=True), kind=kk, what='numerical Hessian of any quadratic, %s parameters' % D)
        S.h('hessian_err_' + D, ps + [Out('o', n * n)], head + 'auto g=numerical_hessian_with_errors(f,x).first; for(int i=0;i<%d;i++) for(int j=0;j<%d;j++) o[i*%d+j]=g[i][j];' % (n, n, n), post, opts=dict(contracts=[('extrapolate_to_zero', extrap)], divsimp=True), kind=kk, what='numerical Hessian with errors of any quadratic, %s parameters' % D)
    # ---------------- downhill simplex
    S.include('TooN/optimization/downhill_simplex.h')
    S.defs += '''
struct Opq3s { double operator()(const Vector<3>& v) const { return std::cosh(v[0])+std::tanh(v[1])+std::sinh(v[2]); } };
'''
    fcn[3] = lambda p: add(add(T.uf('cosh', p[0]), T.uf('tanh', p[1])), T.uf('sinh', p[2]))
    import itertools
    COEF = dict(default=(Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 2)), other=(Fraction(5, 4), Fraction(7, 4), Fraction(3, 4), Fraction(1, 4)))
    def simplex(n, D):
        sz = -1 if D == 'D' else n
        cl = {'1': 'Opq1', '2': 'Opq2', '3': 'Opq3s', 'D': 'OpqD'}[D]
        V = n + 1
        zero = 'Vector<%d> c=%s;' % (sz, 'Zeros(%d)' % n if D == 'D' else 'Zeros')
        typ = 'Matrix<%s,%s>' % ((-1, -1) if D == 'D' else (V, n)), 'Vector<%s>' % (-1 if D == 'D' else V)
        pre = '%s f; %s DownhillSimplex<%d> d(f,c,1.0); %s& sx=const_cast<%s&>(d.get_simplex()); %s& vx=const_cast<%s&>(d.get_values()); for(int i=0;i<%d;i++){ for(int j=0;j<%d;j++) sx(i,j)=s[i*%d+j]; vx[i]=f(sx[i]); } ' % (cl, zero, sz, typ[0], typ[0], typ[1], typ[1], V, n, n)
        out = ' for(int i=0;i<%d;i++){ for(int j=0;j<%d;j++) o[i*%d+j]=d.get_simplex()(i,j); y[i]=d.get_values()[i]; }' % (V, n, n)
        F = fcn[n]
        rows = lambda c: [[c.a('s')[i * n + j] for j in range(n)] for i in range(V)]
        kk = 'static' if D != 'D' else 'bounded'
        def distinct(c):
            f = [F(p) for p in rows(c)]
            return [T.lnot(req(f[i], f[j])) for i in range(V) for j in range(i)]
        def orders():
            for b, w in itertools.permutations(range(V), 2):
                for sw in ([b] if V == 2 else [k for k in range(V) if k not in (b, w)]): yield b, sw, w
        def is_order(f, b, sw, w):
            return land(*([rlt(f[b], f[k]) for k in range(V) if k != b] + [rlt(f[k], f[w]) for k in range(V) if k != w] + [rlt(f[k], f[sw]) for k in range(V) if k not in (w, sw)]))
        def post(c, coef='default'):
            P = rows(c); f = [F(p) for p in P]
            o, y = c.o('o'), c.o('y')
            for i in range(V): c.eq('value %d is the function at vertex %d' % (i, i), y[i], F([o[i * n + j] for j in range(n)]))
            for b, sw, w in orders():
                x0 = [mul(Fraction(1, n), lin_sum([P[k][j] for k in range(V) if k != w])) for j in range(n)]
                pt = lambda t: [add(x0[j], mul(t, sub(x0[j], P[w][j]))) for j in range(n)]
                al, rh, ga, si = COEF[coef]
                xr, xe, xc = pt(al), pt(al * rh), pt(ga)
                fr, fe, fc = F(xr), F(xe), F(xc)
                def becomes(lab, cond, Q):
                    with c.when(land(is_order(f, b, sw, w), cond)):
                        for i in range(V):
                            for j in range(n): c.eq('%s: vertex %d[%d]' % (lab, i, j), o[i * n + j], Q[i][j])
                rep = lambda x: [x if i == w else P[i] for i in range(V)]
                becomes('expanded', land(rlt(fr, f[b]), rlt(fe, fr)), rep(xe))
                becomes('reflected, expansion no better', land(rlt(fr, f[b]), rlt(fr, fe)), rep(xr))
                becomes('reflected', land(rlt(f[b], fr), rlt(fr, f[sw])), rep(xr))
                becomes('contracted', land(rlt(f[sw], fr), rlt(fr, f[w]), rlt(fc, fr)), rep(xc))
                sh = [[add(P[b][j], mul(si, sub(P[i][j], P[b][j]))) for j in range(n)] for i in range(V)]
                becomes('shrunk, contraction no better', land(rlt(f[sw], fr), rlt(fr, f[w]), rlt(fr, fc)), sh)
                becomes('shrunk', land(rlt(f[sw], fr), rlt(f[w], fr)), sh)
        if D != '3': S.h('simplex_step_' + D, [In('s', V * n), Out('o', V * n), Out('y', V)], pre + 'd.find_next_point(f);' + out, post, pre=distinct, opts=dict(branch_timeout=300), kind=kk, what='one step of the downhill simplex from any simplex of distinct values, %s dimensions' % D)
        if D in '12':
            S.h('simplex_step_coef_' + D, [In('s', V * n), Out('o', V * n), Out('y', V)], pre + 'd.alpha=1.25; d.rho=1.75; d.gamma=.75; d.sigma=.25; d.find_next_point(f);' + out, lambda c, post=post: post(c, 'other'), pre=distinct, opts=dict(branch_timeout=300), kind=kk,
                what='one step of the downhill simplex with other ratios, %s dimensions' % D)
        def post(c):
            f = [F(p) for p in rows(c)]
            for b, sw, w in orders():
                with c.when(is_order(f, b, sw, w)): c.hold('best', ieq(c.o('n')[0], b)); c.hold('worst', ieq(c.o('n')[1], w))
        S.h('simplex_best_' + D, [In('s', V * n), Out('n', 2, 'int')], pre + 'n[0]=d.get_best(); n[1]=d.get_worst();', post, pre=distinct, kind=kk, what='best and worst vertex')
        def post(c):
            f = [F(p) for p in rows(c)]; P = rows(c)
            for b, sw, w in orders():
                span = T.sqrt(lin_sum([mul(sub(P[b][j], P[w][j]), sub(P[b][j], P[w][j])) for j in range(n)]))
                scale = T.sqrt(lin_sum([mul(P[b][j], P[b][j]) for j in range(n)]))
                stop = lor(rlt(span, mul(c.reals['eps'], scale)), rlt(span, c.reals['zeps']))
                with c.when(is_order(f, b, sw, w)): c.hold('finished exactly when the span is small', land(lor(T.lnot(stop), ieq(c.o('n')[0], 1)), lor(stop, ieq(c.o('n')[0], 0))))
        S.h('simplex_finished_' + D, [In('s', V * n), Real('eps'), Real('zeps'), Out('n', 1, 'int')], pre + 'd.epsilon=eps; d.zero_epsilon=zeps; n[0]=d.finished();', post,
            pre=lambda c: distinct(c) + [lor(*[lor(rlt(Z, p[j]), rlt(p[j], Z)) for j in range(n)]) for p in rows(c)], nodiv=True, kind=kk, what='termination of the downhill simplex')
        if D in '12':
            def post(c):
                c.hold('goes on exactly until finished', T.ieq(c.o('n')[0], isub(1, c.o('n')[1])))
                o, y = c.o('o'), c.o('y')
                for i in range(V): c.eq('value %d is the function at vertex %d' % (i, i), y[i], F([o[i * n + j] for j in range(n)]))
            if D == '1': S.h('simplex_iterate_' + D, [In('s', V * n), Out('o', V * n), Out('y', V), Out('n', 2, 'int')], pre + 'n[0]=d.iterate(f); n[1]=d.finished();' + out, post, pre=distinct, nodiv=True, opts=dict(branch_timeout=300), kind=kk, what='one iteration of the downhill simplex')
        def post(c):
            o, y = c.o('o'), c.o('y')
            for i in range(V):
                p = [add(c.a('c')[j], c.reals['sp'] if i == j else Z) for j in range(n)]
                for j in range(n): c.eq('vertex %d[%d]' % (i, j), o[i * n + j], p[j])
                c.eq('value %d' % i, y[i], F(p))
        cc = 'Vector<%d> x%s; for(int i=0;i<%d;i++) x[i]=c[i]; %s f; ' % (sz, '(%d)' % n if D == 'D' else '', n, cl)
        S.h('simplex_start_' + D, [In('c', n), Real('sp'), Out('o', V * n), Out('y', V)], cc + 'DownhillSimplex<%d> d(f,x,sp);' % sz + out, post, kind=kk, what='the simplex at the start')
        def post(c):
            f = [F(p) for p in rows(c)]; P = rows(c)
            for b, sw, w in orders():
                for i in range(V):
                  with c.when(is_order(f, b, sw, w)):
                    p = [add(P[b][j], c.reals['sp'] if i == j else Z) for j in range(n)]
                    for j in range(n): c.eq('vertex %d[%d]' % (i, j), c.o('o')[i * n + j], p[j])
                    c.eq('value %d' % i, c.o('y')[i], F(p))
        S.h('simplex_restart_' + D, [In('s', V * n), Real('sp'), Out('o', V * n), Out('y', V)], pre + 'd.restart(f,sp);' + out, post, pre=distinct, kind=kk, what='restarting the simplex around the best vertex')
    for n, D in ((1, '1'), (2, '2'), (3, '3'), (2, 'D')): simplex(n, D)
