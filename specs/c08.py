from specs.lin import *

def build(S):
    S.chunk = 6
    S.include('TooN/helpers.h')
    V, M = ('n',), ('R', 'C')
    best = {'min': lambda x, y: rle(T.R(x), T.R(y)), 'max': lambda x, y: rle(T.R(y), T.R(x))}
    for op in ('min', 'max'):
        le = best[op]
        for k, ty in [(k, 'double') for k in ('d', 's', 'o', 'c', 'l', 'od')] + [('d', 'float'), ('s', 'int')]:
            v = vec('x', k, ty=ty)
            N = v.dims[0]
            nm = '%s%s' % (k, '' if ty == 'double' else ty[0])
            pre = lambda c: [ile(1, c.ints['n'])]
            def pv(c, v=v, le=le, op=op):
                n = v.dims[0](c.ints)
                r, at = c.o('o')[0], c.o('at')[0]
                i = c.ghost('i', 0, n)
                c.hold('%s_value bounds every element' % op, le(r, v.inp(c, i)))
                c.exists('%s_value is an element' % op, 0, n, lambda j: req(T.R(r), T.R(v.inp(c, j))))
                c.hold('%s_element bounds every element' % op, le(c.o('o')[1], v.inp(c, i)))
            harness(S, '%s_v_%s' % (op, nm), [(v, V)], ['n'], 'o[0]=%s_value(x); auto p=%s_element(x); o[1]=p.first; at[0]=p.second;' % (op, op), pv, [Out('o', 2, ty), Out('at', 1, 'int')], pre=pre)
            def pe(c, v=v, le=le, op=op):
                n = v.dims[0](c.ints)
                at = c.o('at')[0]
                c.hold('the index is in range', land(ile(0, at), ilt(at, n)))
                if isinstance(n, int): c.hold('the index names the element found', lor(*[land(ieq(at, j), req(T.R(c.o('o')[0]), T.R(v.inp(c, j)))) for j in range(n)]))
                else: c.eq('the index names the element found', c.o('o')[0], v.inp(c, at))
            harness(S, '%s_e_%s' % (op, nm), [(v, V)], ['n'], 'auto p=%s_element(x); o[0]=p.first; at[0]=p.second;' % op, pe, [Out('o', 1, ty), Out('at', 1, 'int')], pre=pre)
        S.h('%s_empty' % op, [In('p', 1), Out('o', 2), Out('at', 1, 'int')], 'Vector<> x(wrapVector((double*)p,0)); o[0]=%s_value(x); auto e=%s_element(x); o[1]=e.first; at[0]=e.second;' % (op, op), lambda c: (c.all_eq('value', c.o('o')[0:2], [Fraction(0)] * 2), c.eq('index', c.o('at')[0], 0)), what='an empty vector yields zero', **ST)
        for k in ('d', 'dc', 's', 'sc', 'o', 'sub', 't', 'hr', 'hc'):
            m = mat('m', k)
            preM = lambda c: [ile(1, c.ints['R']), ile(1, c.ints['C'])]
            def pm(c, m=m, le=le, op=op):
                R, C = m.dims[0](c.ints), m.dims[1](c.ints)
                i, j = c.ghost('i', 0, R), c.ghost('j', 0, C)
                c.hold('%s_value bounds every element' % op, le(c.o('o')[0], m.inp(c, i, j)))
                c.hold('%s_element bounds every element' % op, le(c.o('o')[1], m.inp(c, i, j)))
            harness(S, '%s_m_%s' % (op, k), [(m, M)], ['R', 'C'], 'o[0]=%s_value(m); auto p=%s_element(m); o[1]=p.first;' % (op, op), pm, [Out('o', 2)], pre=preM)
            def pe(c, m=m, le=le, op=op):
                R, C = m.dims[0](c.ints), m.dims[1](c.ints)
                r, q = c.o('at')[0], c.o('at')[1]
                c.hold('the row is in range', land(ile(0, r), ilt(r, R)))
                c.hold('the column is in range', land(ile(0, q), ilt(q, C)))
                if isinstance(R, int) or isinstance(C, int):
                    for a in (range(R) if isinstance(R, int) else [r]):
                        for b in (range(C) if isinstance(C, int) else [q]):
                            c.hold('the indices name the element found[%s,%s]' % (a if isinstance(a, int) else '', b if isinstance(b, int) else ''), lor(lnot(ieq(r, a)), lnot(ieq(q, b)), req(c.o('o')[0], m.inp(c, a, b))))
                else: c.eq('the indices name the element found', c.o('o')[0], m.inp(c, r, q))
                c.eq('the value is the one %s_value returns' % op, c.o('o')[1], c.o('o')[0])
            harness(S, '%s_me_%s' % (op, k), [(m, M)], ['R', 'C'], 'auto p=%s_element(m); o[0]=p.first; at[0]=p.second.first; at[1]=p.second.second; o[1]=%s_value(m);' % (op, op), pe, [Out('o', 2), Out('at', 2, 'int')], pre=preM)
            for dr, dim in (('horizontal', 0), ('vertical', 1)):
                el = (lambda c, m, i, j: m.inp(c, i, j)) if dim == 0 else (lambda c, m, i, j: m.inp(c, j, i))
                def ph(c, m=m, le=le, op=op, dim=dim, el=el):
                    n, w = m.dims[dim](c.ints), m.dims[1 - dim](c.ints)
                    i, j = c.ghost('i', 0, n), c.ghost('j', 0, w)
                    c.eq('size', c.o('s')[0], n)
                    c.hold('bounds every element of its %s' % ('row' if dim == 0 else 'column'), le(c.o('o')[i], el(c, m, i, j)))
                harness(S, '%s_ln%s_%s' % (op, dr[0], k), [(m, M)], ['R', 'C'], 'auto v=%s_value_%s(m); s[0]=v.size(); for(int i=0;i<v.size();i++) o[i]=v[i];' % (op, dr), ph, [Out('o', m.dims[dim]), Out('s', 1, 'int')], pre=preM)
                def pe2(c, m=m, le=le, op=op, dim=dim, el=el):
                    n, w = m.dims[dim](c.ints), m.dims[1 - dim](c.ints)
                    i = c.ghost('i', 0, n)
                    c.all_eq('size', c.o('s')[0:2], [n, n])
                    c.exists('value and index name an element of the line', 0, w, lambda j: land(req(c.o('at')[i], T.R(j)), req(c.o('o')[i], el(c, m, i, j))))
                    j = c.ghost('j', 0, w)
                    c.hold('bounds every element of its line', le(c.o('o')[i], el(c, m, i, j)))
                harness(S, '%s_ln%se_%s' % (op, dr[0], k), [(m, M)], ['R', 'C'], 'auto v=%s_element_%s(m); s[0]=v.first.size(); s[1]=v.second.size(); for(int i=0;i<v.first.size();i++) {o[i]=v.first[i]; at[i]=v.second[i];}' % (op, dr), pe2, [Out('o', m.dims[dim]), Out('at', m.dims[dim]), Out('s', 2, 'int')], pre=preM)
        for dr, dim in (('horizontal', 0), ('vertical', 1)):
            for fn, get in (('value', 'v.size()'), ('element', 'v.first.size()+v.second.size()')):
                S.h('%s_%s_%s_empty' % (op, fn, dr[0]), [Int('R', lo=0), Int('C', lo=0), In('p', lambda z: imul(z['R'], z['C'])), Out('s', 1, 'int')], 'auto v=%s_%s_%s(wrapMatrix((double*)p,R,C)); s[0]=%s;' % (op, fn, dr, get),
                    lambda c: c.eq('empty result', c.o('s')[0], 0), pre=lambda c: [lor(ieq(c.R, 0), ieq(c.C, 0))], what='%s_%s_%s of an empty matrix' % (op, fn, dr), **U)
