from specs.lin import *

VECS = [('d', 'd'), ('s', 's'), ('o', 'o'), ('c', 'd'), ('d', 'c'), ('s', 'd'), ('d', 's'), ('od', 'd'), ('r', 'c'), ('o', 'c'), ('l', 'l')]
MATS = [('d', 'd'), ('dc', 'dc'), ('d', 'dc'), ('s', 's'), ('sc', 's'), ('o', 'oc'), ('s', 'd'), ('dc', 's'), ('sub', 'd'), ('t', 'subc'), ('od', 't'), ('hr', 'd'), ('hc', 'hr')]
def dstkind(*ks): return 's' if any(k in 'so' for k in ks) else 'd'
def mdst(*ks): return 's' if any(k in ('s', 'sc', 'o', 'oc') for k in ks) else 'd'

def build(S):
    S.chunk = 6
    V, M = ('n',), ('R', 'C')
    opf = {'+': add, '-': sub}
    def vh(nm, ops, code, f, extra=(), pre=None, out='z', **kw):
        """f(c, i) -> expected element i of `out`"""
        tgt = next(o for o in ops if o.name == out)
        def post(c):
            i = c.ghost('i', 0, tgt.dims[0](c.ints))
            c.eq('element', tgt.out(c, i), f(c, i))
            if 'rd' in kw: pass
        return harness(S, nm, [(o, V) for o in ops], ['n'], code, post, extra, pre, **kw)
    def mh(nm, ops, code, f, extra=(), pre=None, out='z', **kw):
        tgt = next(o for o in ops if o.name == out)
        def post(c):
            i, j = c.ghost('i', 0, tgt.dims[0](c.ints)), c.ghost('j', 0, tgt.dims[1](c.ints))
            c.eq('element', tgt.out(c, i, j), f(c, i, j))
        return harness(S, nm, [(o, M) for o in ops], ['R', 'C'], code, post, extra, pre, **kw)
    s = Real('s')
    nz = lambda c: [lnot(req(c.s, 0))]
    # ---------------- vectors, two operands
    for ka, kb in VECS:
        a, b = vec('x', ka), vec('y', kb)
        dk = dstkind(ka, kb)
        for o, nm in (('+', 'add'), ('-', 'sub')):
            vh('v_%s_%s%s' % (nm, ka, kb), [a, b, vec('z', dk, 'out')], 'z = x%sy;' % o, lambda c, i, a=a, b=b, o=o: opf[o](a.inp(c, i), b.inp(c, i)))
        vh('v_diagmult_%s%s' % (ka, kb), [a, b, vec('z', dk, 'out')], 'z = diagmult(x,y);', lambda c, i, a=a, b=b: mul(a.inp(c, i), b.inp(c, i)))
        for o, nm in (('+=', 'pluseq'), ('-=', 'minuseq')):
            if ka in ('od', 'r'): continue
            t = vec('x', ka, 'inout')
            vh('v_%s_%s%s' % (nm, ka, kb), [t, b], 'auto& rr = (x%sy); if(&rr!=&x) x[0]=1e9;' % o, lambda c, i, a=t, b=b, o=o: opf[o[0]](a.inp(c, i), b.inp(c, i)), out='x')
    # ---------------- vectors, scalar
    for ka in ('d', 's', 'o', 'c', 'od', 'r', 'l'):
        a = vec('x', ka)
        z = vec('z', dstkind(ka), 'out')
        vh('v_muls_' + ka, [a, z], 'z = x*s;', lambda c, i, a=a: mul(a.inp(c, i), c.s), [s])
        vh('v_smul_' + ka, [a, z], 'z = s*x;', lambda c, i, a=a: mul(c.s, a.inp(c, i)), [s])
        vh('v_divs_' + ka, [a, z], 'z = x/s;', lambda c, i, a=a: div(a.inp(c, i), c.s), [s], nz)
        vh('v_neg_' + ka, [a, z], 'z = -x;', lambda c, i, a=a: neg(a.inp(c, i)))
        vh('v_chain_' + ka, [a, vec('y', 'd' if ka not in 'so' else 's'), z], 'z = 2*x - (y + x/s)*3 + -y;', lambda c, i, a=a: sub(sub(mul(2, a.inp(c, i)), mul(3, add(c.a('py')[i], div(a.inp(c, i), c.s)))), c.a('py')[i]), [s], nz)
        if ka in ('od', 'r'): continue
        t = vec('x', ka, 'inout')
        vh('v_muleq_' + ka, [t], 'auto& rr = (x*=s); if(&rr!=&x) x[0]=1e9;', lambda c, i, a=t: mul(a.inp(c, i), c.s), [s], out='x')
        vh('v_diveq_' + ka, [t], 'auto& rr = (x/=s); if(&rr!=&x) x[0]=1e9;', lambda c, i, a=t: div(a.inp(c, i), c.s), [s], nz, out='x')
        # operands that are the same object
        vh('v_selfadd_' + ka, [t], 'x += x;', lambda c, i, a=t: mul(2, a.inp(c, i)), out='x')
        vh('v_selfsub_' + ka, [t], 'x -= x;', lambda c, i, a=t: Fraction(0), out='x')
        vh('v_selfexpr_' + ka, [t], 'x = x*2 + x; x = -x;', lambda c, i, a=t: mul(-3, a.inp(c, i)), out='x')
        # an element of the vector itself as the scalar
        vh('v_selfscale_' + ka, [t], 'x *= x[0];', lambda c, i, a=t: mul(a.inp(c, i), a.inp(c, 0)), pre=(lambda c: [ile(1, c.n)]) if ka not in 'so' else None, out='x')
        vh('v_selfdiv_' + ka, [t], 'x /= x[0];', lambda c, i, a=t: div(a.inp(c, i), a.inp(c, 0)), pre=lambda c, a=t, ka=ka: ([ile(1, c.n)] if ka not in 'so' else []) + [lnot(req(a.inp(c, 0), 0))], out='x')
    # ---------------- matrices, two operands
    for ka, kb in MATS:
        a, b = mat('x', ka), mat('y', kb)
        dk = mdst(ka, kb) if not (ka.startswith('h') and kb.startswith('h')) else 's'
        if ka == 'hr' and kb == 'd': dk = 'hr'
        for o, nm in (('+', 'add'), ('-', 'sub')):
            mh('m_%s_%s_%s' % (nm, ka, kb), [a, b, mat('z', dk, 'out')], 'z = x%sy;' % o, lambda c, i, j, a=a, b=b, o=o: opf[o](a.inp(c, i, j), b.inp(c, i, j)))
        for o, nm in (('+=', 'pluseq'), ('-=', 'minuseq')):
            if ka in ('od',): continue
            t = mat('x', ka, 'inout')
            mh('m_%s_%s_%s' % (nm, ka, kb), [t, b], 'auto& rr = (x%sy); if(&rr!=&x) x(0,0)=1e9;' % o, lambda c, i, j, a=t, b=b, o=o: opf[o[0]](a.inp(c, i, j), b.inp(c, i, j)), out='x')
    for ka in ('d', 'dc', 's', 'sc', 'o', 'oc', 'sub', 'subc', 't', 'st', 'od', 'hr', 'hc'):
        a = mat('x', ka)
        dk = {'hr': 'hr', 'hc': 'hc'}.get(ka, mdst(ka))
        z = mat('z', dk if ka != 'st' else 's', 'out')
        mh('m_muls_' + ka, [a, z], 'z = x*s;', lambda c, i, j, a=a: mul(a.inp(c, i, j), c.s), [s])
        mh('m_smul_' + ka, [a, z], 'z = s*x;', lambda c, i, j, a=a: mul(c.s, a.inp(c, i, j)), [s])
        mh('m_divs_' + ka, [a, z], 'z = x/s;', lambda c, i, j, a=a: div(a.inp(c, i, j), c.s), [s], nz)
        mh('m_neg_' + ka, [a, z], 'z = -x;', lambda c, i, j, a=a: neg(a.inp(c, i, j)))
        if ka == 'od': continue
        t = mat('x', ka, 'inout')
        mh('m_muleq_' + ka, [t], 'auto& rr = (x*=s); if(&rr!=&x) x(0,0)=1e9;', lambda c, i, j, a=t: mul(a.inp(c, i, j), c.s), [s], out='x')
        mh('m_diveq_' + ka, [t], 'auto& rr = (x/=s); if(&rr!=&x) x(0,0)=1e9;', lambda c, i, j, a=t: div(a.inp(c, i, j), c.s), [s], nz, out='x')
        mh('m_selfadd_' + ka, [t], 'x += x;', lambda c, i, j, a=t: mul(2, a.inp(c, i, j)), out='x')
        mh('m_selfexpr_' + ka, [t], 'x = 2*x + x; x = -x;', lambda c, i, j, a=t: mul(-3, a.inp(c, i, j)), out='x')
    # ---------------- comparisons: unequal somewhere => unequal (converse by the copies below)
    for ka, kb in VECS:
        if ka in ('r',): continue
        a, b = vec('x', ka), vec('y', kb)
        for op, nm, one in (('==', 'eq', 1), ('!=', 'ne', 0)):
            def post(c, a=a, b=b, one=one):
                i = c.ghost('i', 0, a.dims[0](c.ints))
                c.hold('result is a truth value', lor(ieq(c.o('o')[0], 0), ieq(c.o('o')[0], 1)))
                c.hold('equal only if element i is equal', imp(ieq(c.o('o')[0], one), req(a.inp(c, i), b.inp(c, i))))
            harness(S, 'v_%s_%s%s' % (nm, ka, kb), [(a, V), (b, V)], ['n'], 'o[0] = (x%sy);' % op, post, [Out('o', 1, 'int')])
    for ka in ('d', 's', 'o', 'c', 'l'):
        a = vec('x', ka)
        for op, nm, one in (('==', 'eq', 1), ('!=', 'ne', 0)):
            harness(S, 'v_%scopy_%s' % (nm, ka), [(a, V)], ['n'], 'Vector<> y(x); o[0] = (x%sy); o[1]=(y%sx);' % (op, op), lambda c, one=one: c.all_eq('equal to its copy', c.o('o')[0:2], [one, one]), [Out('o', 2, 'int')])
    for ka, kb in MATS:
        a, b = mat('x', ka), mat('y', kb)
        for op, nm, one in (('==', 'eq', 1), ('!=', 'ne', 0)):
            def post(c, a=a, b=b, one=one):
                i, j = c.ghost('i', 0, a.dims[0](c.ints)), c.ghost('j', 0, b.dims[1](c.ints))
                c.hold('result is a truth value', lor(ieq(c.o('o')[0], 0), ieq(c.o('o')[0], 1)))
                c.hold('equal only if element i,j is equal', imp(ieq(c.o('o')[0], one), req(a.inp(c, i, j), b.inp(c, i, j))))
            harness(S, 'm_%s_%s_%s' % (nm, ka, kb), [(a, M), (b, M)], ['R', 'C'], 'o[0] = (x%sy);' % op, post, [Out('o', 1, 'int')])
    for ka in ('d', 'dc', 's', 'oc', 'sub', 't', 'hr'):
        a = mat('x', ka)
        for op, nm, one in (('==', 'eq', 1), ('!=', 'ne', 0)):
            harness(S, 'm_%scopy_%s' % (nm, ka), [(a, M)], ['R', 'C'], 'Matrix<> y(x); o[0] = (x%sy); o[1]=(y%sx);' % (op, op), lambda c, one=one: c.all_eq('equal to its copy', c.o('o')[0:2], [one, one]), [Out('o', 2, 'int')])
    # ---------------- element types
    I, D, F = 'int', 'double', 'float'
    for ta, tb, tz in ((I, D, D), (D, I, D), (I, I, I), (F, F, F), (F, D, D), (I, F, F)):
        kw = dict(f32='exact')
        for st in (0, 1):
            k, mk_ = ('s' if st else 'd'), ('s' if st else 'd')
            tag = '%s%s%s' % (ta[0], tb[0], 's' if st else 'd')
            a, b, z = vec('x', k, ty=ta), vec('y', k, ty=tb), vec('z', k, 'out', ty=tz)
            A, B, Z = mat('x', mk_, ty=ta), mat('y', mk_, ty=tb), mat('z', mk_, 'out', ty=tz)
            cv = (lambda x: x) if tz == I else T.R
            vh('t_vadd_' + tag, [a, b, z], 'z = x+y;', lambda c, i, a=a, b=b, cv=cv: (iadd if cv is not T.R else add)(cv(a.inp(c, i)), cv(b.inp(c, i))), **kw)
            vh('t_vsub_' + tag, [a, b, z], 'z = x-y;', lambda c, i, a=a, b=b, cv=cv: (isub if cv is not T.R else sub)(cv(a.inp(c, i)), cv(b.inp(c, i))), **kw)
            vh('t_vdm_' + tag, [a, b, z], 'z = diagmult(x,y);', lambda c, i, a=a, b=b, cv=cv: (imul if cv is not T.R else mul)(cv(a.inp(c, i)), cv(b.inp(c, i))), **kw)
            mh('t_madd_' + tag, [A, B, Z], 'z = x+y;', lambda c, i, j, a=A, b=B, cv=cv: (iadd if cv is not T.R else add)(cv(a.inp(c, i, j)), cv(b.inp(c, i, j))), **kw)
            mh('t_msub_' + tag, [A, B, Z], 'z = x-y;', lambda c, i, j, a=A, b=B, cv=cv: (isub if cv is not T.R else sub)(cv(a.inp(c, i, j)), cv(b.inp(c, i, j))), **kw)
            sp = Real('s', tb) if tb != I else Int('s')
            mm = imul if cv is not T.R else mul
            vh('t_vmuls_' + tag, [a, z], 'z = x*s;', lambda c, i, a=a, cv=cv, mm=mm: mm(cv(a.inp(c, i)), cv(c.s)), [sp], **kw)
            vh('t_vsmul_' + tag, [a, z], 'z = s*x;', lambda c, i, a=a, cv=cv, mm=mm: mm(cv(a.inp(c, i)), cv(c.s)), [sp], **kw)
            mh('t_mmuls_' + tag, [A, Z], 'z = x*s;', lambda c, i, j, a=A, cv=cv, mm=mm: mm(cv(a.inp(c, i, j)), cv(c.s)), [sp], **kw)
            mh('t_msmul_' + tag, [A, Z], 'z = s*x;', lambda c, i, j, a=A, cv=cv, mm=mm: mm(cv(a.inp(c, i, j)), cv(c.s)), [sp], **kw)
            if tz != I and tb != I:
                vh('t_vdivs_' + tag, [a, z], 'z = x/s;', lambda c, i, a=a: div(T.R(a.inp(c, i)), c.s), [sp], nz, **kw)
                mh('t_mdivs_' + tag, [A, Z], 'z = x/s;', lambda c, i, j, a=A: div(T.R(a.inp(c, i, j)), c.s), [sp], nz, **kw)
            if ta == tz:
                t, Tm = vec('x', k, 'inout', ty=ta), mat('x', mk_, 'inout', ty=ta)
                vh('t_vpe_' + tag, [t, b], 'x += y;', lambda c, i, a=t, b=b, cv=cv: (iadd if cv is not T.R else add)(cv(a.inp(c, i)), cv(b.inp(c, i))), out='x', **kw)
                mh('t_mme_' + tag, [Tm, B], 'x -= y;', lambda c, i, j, a=Tm, b=B, cv=cv: (isub if cv is not T.R else sub)(cv(a.inp(c, i, j)), cv(b.inp(c, i, j))), out='x', **kw)
                vh('t_vneg_' + tag, [t], 'x = -x;', lambda c, i, a=t, cv=cv: (iscale(a.inp(c, i), -1) if cv is not T.R else neg(a.inp(c, i))), out='x', **kw)

    # ---------------- generator objects as operands: constants (vectors and matrices) and multiples of the identity
    zeroC = lambda c: Fraction(0)
    for ka in ('d', 's', 'o', 'c', 'od', 'l'):
        t, a = vec('x', ka, 'inout'), vec('x', ka)
        z = vec('z', dstkind(ka), 'out')
        vh('g_vadd_' + ka, [a, z], 'z = x + s*Ones;', lambda c, i, a=a: add(a.inp(c, i), c.s), [s])
        vh('g_addv_' + ka, [a, z], 'z = Ones*s + x;', lambda c, i, a=a: add(a.inp(c, i), c.s), [s])
        vh('g_vsub_' + ka, [a, z], 'z = x - Ones*s;', lambda c, i, a=a: sub(a.inp(c, i), c.s), [s])
        vh('g_subv_' + ka, [a, z], 'z = s*Ones - x;', lambda c, i, a=a: sub(c.s, a.inp(c, i)), [s])
        vh('g_1addv_' + ka, [a, z], 'z = Ones + x;', lambda c, i, a=a: add(a.inp(c, i), 1))
        vh('g_1subv_' + ka, [a, z], 'z = Ones - x;', lambda c, i, a=a: sub(Fraction(1), a.inp(c, i)))
        vh('g_nsubv_' + ka, [a, z], 'z = -(Ones*s) - x + -Ones;', lambda c, i, a=a: sub(sub(neg(c.s), a.inp(c, i)), Fraction(1)), [s])
        if ka == 'od': continue
        vh('g_vpe_' + ka, [t], 'auto& rr = (x += s*Ones); if(&rr!=&x) x[0]=1e9;', lambda c, i, a=t: add(a.inp(c, i), c.s), [s], out='x')
        vh('g_vme_' + ka, [t], 'auto& rr = (x -= s*Ones); if(&rr!=&x) x[0]=1e9;', lambda c, i, a=t: sub(a.inp(c, i), c.s), [s], out='x')
        vh('g_vpe1_' + ka, [t], 'x += Ones;', lambda c, i, a=t: add(a.inp(c, i), 1), out='x')
        vh('g_vme1_' + ka, [t], 'x -= Ones;', lambda c, i, a=t: sub(a.inp(c, i), Fraction(1)), out='x')
    for ka in ('d', 'dc', 's', 'sc', 'o', 'oc', 'sub', 'subc', 't', 'od', 'hr', 'hc'):
        t, a = mat('x', ka, 'inout'), mat('x', ka)
        dk = {'hr': 'hr', 'hc': 'hc'}.get(ka, mdst(ka))
        z = mat('z', dk, 'out')
        mh('g_madd_' + ka, [a, z], 'z = x + s*Ones;', lambda c, i, j, a=a: add(a.inp(c, i, j), c.s), [s])
        mh('g_addm_' + ka, [a, z], 'z = s*Ones + x;', lambda c, i, j, a=a: add(a.inp(c, i, j), c.s), [s])
        mh('g_msub_' + ka, [a, z], 'z = x - s*Ones;', lambda c, i, j, a=a: sub(a.inp(c, i, j), c.s), [s])
        mh('g_subm_' + ka, [a, z], 'z = s*Ones - x;', lambda c, i, j, a=a: sub(c.s, a.inp(c, i, j)), [s])
        mh('g_1addm_' + ka, [a, z], 'z = x + Ones;', lambda c, i, j, a=a: add(a.inp(c, i, j), 1))
        mh('g_1subm_' + ka, [a, z], 'z = Ones - x;', lambda c, i, j, a=a: sub(Fraction(1), a.inp(c, i, j)))
        mh('g_1msub_' + ka, [a, z], 'z = x - Ones;', lambda c, i, j, a=a: sub(a.inp(c, i, j), Fraction(1)))
        if ka == 'od': continue
        mh('g_mpe_' + ka, [t], 'auto& rr = (x += s*Ones); if(&rr!=&x) x(0,0)=1e9;', lambda c, i, j, a=t: add(a.inp(c, i, j), c.s), [s], out='x')
        mh('g_mme_' + ka, [t], 'auto& rr = (x -= s*Ones); if(&rr!=&x) x(0,0)=1e9;', lambda c, i, j, a=t: sub(a.inp(c, i, j), c.s), [s], out='x')
        mh('g_mpe1_' + ka, [t], 'x += Ones;', lambda c, i, j, a=t: add(a.inp(c, i, j), 1), out='x')
        mh('g_mme1_' + ka, [t], 'x -= Ones;', lambda c, i, j, a=t: sub(a.inp(c, i, j), Fraction(1)), out='x')
    # square matrices: multiples of the identity
    def sq(nm, kind, code, f, extra=(), out='z', **kw):
        a = mat('x', kind, 'inout' if out == 'x' else 'in', R='n', C='n', sr=3, sc=3)
        ops = [(a, ('n', 'n'))]
        z = a
        if out == 'z':
            z = mat('z', 's' if isfix(a.dims[0]) else 'd', 'out', R='n', C='n', sr=3, sc=3); ops.append((z, ('n', 'n')))
        def post(c):
            d = z.dims[0](c.ints)
            i, j = c.ghost('i', 0, d), c.ghost('j', 0, d)
            p, q = f(c, a, i, i)
            c.eq('diagonal element', z.out(c, i, i), add(p, q))
            for _ in c.due(lnot(ieq(i, j))): c.eq('off-diagonal element', z.out(c, i, j), f(c, a, i, j)[0])
        harness(S, '%s_%s' % (nm, kind), ops, ['n'], code, post, extra, **kw)
    for kind in ('d', 'dc', 's', 'sc', 'o', 'oc', 'sub', 'subc', 't'):
        sq('i_add', kind, 'z = x + s*Identity;', lambda c, a, i, j: (a.inp(c, i, j), c.s), [s])
        sq('i_addl', kind, 'z = Identity*s + x;', lambda c, a, i, j: (a.inp(c, i, j), c.s), [s])
        sq('i_sub', kind, 'z = x - s*Identity;', lambda c, a, i, j: (a.inp(c, i, j), neg(c.s)), [s])
        sq('i_subl', kind, 'z = s*Identity - x;', lambda c, a, i, j: (neg(a.inp(c, i, j)), c.s), [s])
        sq('i_add1', kind, 'z = x + Identity;', lambda c, a, i, j: (a.inp(c, i, j), Fraction(1)))
        sq('i_subl1', kind, 'z = Identity - x;', lambda c, a, i, j: (neg(a.inp(c, i, j)), Fraction(1)))
        sq('i_pe', kind, 'auto& rr = (x += s*Identity); if(&rr!=&x) x(0,0)=1e9;', lambda c, a, i, j: (a.inp(c, i, j), c.s), [s], out='x')
        sq('i_pe1', kind, 'x += Identity;', lambda c, a, i, j: (a.inp(c, i, j), Fraction(1)), out='x')
        sq('i_self', kind, 'x = Identity - x;', lambda c, a, i, j: (neg(a.inp(c, i, j)), Fraction(1)), out='x')
    S.h('g_mix', [Int('n', lo=0), In('a', lambda z: imul(z['n'], z['n']), 'int'), Real('s'), Out('o', lambda z: imul(z['n'], z['n']))],
        'Matrix<-1,-1,int,RefR> x((int*)a,n,n); wrapMatrix(o,n,n) = x + s*Ones;', lambda c: c.eq('element', c.o('o')[iadd(imul(c.ghost('i', 0, c.n), c.n), c.ghost('j', 0, c.n))], add(T.R(c.a('a')[iadd(imul(c.ghost('i', 0, c.n), c.n), c.ghost('j', 0, c.n))]), c.s)), what='real constant added to an integer matrix', **U)
    S.h('i_mixs', [In('a', 9, 'int'), Real('s'), Out('o', 9)],
        'Matrix<3,3,int,RefR> x((int*)a); wrapMatrix<3,3>(o) = x + s*Identity;', lambda c: c.all_eq('element', list(c.o('o')), [add(T.R(c.a('a')[k]), c.s if k % 4 == 0 else Fraction(0)) for k in range(9)]), what='real multiple of the identity added to an integer matrix', **ST)
