"""Parser for the subset of LLVM 18 textual IR that clang emits for TooN.

Only what the symbolic executor needs is kept.  Function bodies are parsed
lazily, the first time they are executed, so big modules stay cheap."""
import re, struct
from fractions import Fraction

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'packed', '_sz', '_al', '_offs', 'name')
    def __init__(self, k, n=0, el=None, els=None, packed=False, name=None):
        self.k, self.n, self.el, self.els, self.packed, self.name = k, n, el, els, packed, name
        self._sz = self._al = self._offs = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k in ('arr', 'vec'): return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.els or []))
        return self.k

INTT = {}
def int_t(n):
    if n not in INTT: INTT[n] = Ty('int', n)
    return INTT[n]
DOUBLE, FLOAT, X86FP, HALF = Ty('double'), Ty('float'), Ty('x86_fp80'), Ty('half')
PTR, VOID, LABEL, META, OPAQUE, FUNC = Ty('ptr'), Ty('void'), Ty('label'), Ty('metadata'), Ty('opaque'), Ty('func')

class ParseError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:;|])
)''', re.X)

def lex(s):
    pos, out, n = 0, [], len(s)
    m = TOK.match(s, pos)
    while m:
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
        m = TOK.match(s, pos)
    if s[pos:].strip() and not s[pos:].strip().startswith(';'):
        raise ParseError('lex: ' + s[pos:pos + 60] + ' in ' + s[:100])
    return out

def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'nofree',
               'allocptr', 'allocalign', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'noundef'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'elementtype', 'range', 'captures'}

class Cur:
    def __init__(self, toks):
        self.t, self.i = toks, 0
    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)
    def v(self, o=0):
        return self.peek(o)[1]
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise ParseError('expected %r at %r' % (s, self.t[self.i:self.i + 12]))

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'text')
    def __init__(self, op, res, ty, a, x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x
    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)

class Func:
    def __init__(self, name, ret, params, lines, mod):
        self.name, self.ret, self.params, self.lines, self.mod = name, ret, params, lines, mod
        self._blocks = None
        self.order = None
        self._loops = None
    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks
    def _parse(self):
        blocks, order, cur = {}, [], None
        # implicit entry label
        nnum = sum(1 for (t, n) in self.params if n.isdigit())
        cur_name = None
        lines, acc = [], None
        for ln in self.lines:
            if acc is not None:
                acc += ' ' + ln.strip()
                if ']' in ln: lines.append(acc); acc = None
                continue
            t = ln.strip()
            if t.startswith('switch') and ']' not in t: acc = ln.rstrip(); continue
            if t.startswith('to label') and lines: lines[-1] += ' ' + t; continue
            lines.append(ln)
        for ln in lines:
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                cur_name = m.group(1).strip('"')
                cur = blocks[cur_name] = []
                order.append(cur_name)
                continue
            if cur is None:
                cur_name = str(nnum)
                cur = blocks[cur_name] = []
                order.append(cur_name)
            try:
                cur.append(self.mod.parse_instr(s))
            except ParseError as e:
                raise ParseError('%s\n in %s: %s' % (e, self.name, s))
        self._blocks, self.order = blocks, order
    # ------------------------------------------------ natural loops
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br': return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.x['default']] + [l for _, l in t.x['cases']]
        if t.op == 'invoke': return [t.x['normal'], t.x['unwind']]
        return []
    @property
    def loops(self):
        """header -> set of blocks"""
        if self._loops is not None: return self._loops
        self.blocks
        order = self.order
        idx = {b: i for i, b in enumerate(order)}
        succ = {b: self.succs(b) for b in order}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]: pred[s].append(b)
        # dominators (iterative)
        allb = set(order)
        dom = {b: set(allb) for b in order}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in pred[b]]
                new = (set.intersection(*ps) if ps else set()) | {b}
                if new != dom[b]:
                    dom[b] = new; ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(pred[x])
        self._loops = loops
        return loops

class Module:
    def __init__(self, text):
        self.types, self.funcs, self.decls, self.globals, self.aliases = {}, {}, {}, {}, {}
        self._tydefs = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self._func(ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                name, body = ln.split(' = type ', 1)
                self._tydefs[unq(name)] = body
            elif ln.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.globals[m.group(1).strip('"')] = m.group(2)
            i += 1
        self._ginit = {}
    # ------------------------------------------------ types
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            body = self._tydefs.get(name)
            t = self.types[name] = Ty('struct', name=name)
            if body is None or body.strip() == 'opaque':
                t.els = []
            else:
                c = Cur(lex(body))
                packed = False
                if c.v() == '<' and c.v(1) == '{':
                    c.next(); packed = True
                c.expect('{')
                els = []
                while not c.accept('}'):
                    els.append(self.ty(c)); c.accept(',')
                t.els, t.packed = els, packed
        return t
    def ty(self, c):
        k, v = c.next()
        if k == 'id':
            m = re.match(r'^i(\d+)$', v)
            if m: t = int_t(int(m.group(1)))
            elif v == 'ptr': t = PTR
            elif v == 'double': t = DOUBLE
            elif v == 'float': t = FLOAT
            elif v == 'void': t = VOID
            elif v == 'x86_fp80': t = X86FP
            elif v == 'half': t = HALF
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = OPAQUE
            else: raise ParseError('type? ' + v)
        elif k == 'local':
            t = self.named(unq(v))
        elif v == '{':
            els = []
            while not c.accept('}'):
                els.append(self.ty(c)); c.accept(',')
            t = Ty('struct', els=els)
        elif v == '[':
            n = int(c.next()[1]); c.expect('x'); el = self.ty(c); c.expect(']')
            t = Ty('arr', n, el)
        elif v == '<':
            if c.v() == '{':
                c.next(); els = []
                while not c.accept('}'):
                    els.append(self.ty(c)); c.accept(',')
                c.expect('>')
                t = Ty('struct', els=els, packed=True)
            else:
                n = int(c.next()[1]); c.expect('x'); el = self.ty(c); c.expect('>')
                t = Ty('vec', n, el)
        else:
            raise ParseError('type? %r' % v)
        if c.v() == '(' and c.peek(1)[1] is not None and t.k in ('void', 'int', 'ptr', 'double', 'float') and self._looks_fnty(c):
            d = 0
            while True:
                x = c.next()[1]
                if x == '(': d += 1
                if x == ')':
                    d -= 1
                    if d == 0: break
            t = Ty('func', el=t)
        return t
    def _looks_fnty(self, c):
        # "ret (args...) @callee(" : only in call instructions
        d, o = 0, 0
        while True:
            v = c.v(o)
            if v is None: return False
            if v == '(': d += 1
            if v == ')':
                d -= 1
                if d == 0: break
            o += 1
        k, v = c.peek(o + 1)
        return k in ('glob', 'local')
    def align(self, t):
        if t._al is None: self.size(t)
        return t._al
    def size(self, t):
        if t._sz is not None: return t._sz
        k = t.k
        if k == 'int':
            b = (t.n + 7) // 8
            a = 1
            while a < b: a *= 2
            t._sz, t._al = a, min(a, 16)
        elif k == 'double' or k == 'ptr': t._sz, t._al = 8, 8
        elif k == 'float': t._sz, t._al = 4, 4
        elif k == 'half': t._sz, t._al = 2, 2
        elif k == 'x86_fp80': t._sz, t._al = 16, 16
        elif k == 'arr':
            t._sz, t._al = t.n * self.size(t.el), self.align(t.el)
        elif k == 'vec':
            t._sz = t.n * self.size(t.el); t._al = t._sz
        elif k == 'struct':
            off, al, offs = 0, 1, []
            for e in t.els:
                s, a = self.size(e), (1 if t.packed else self.align(e))
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            t._sz, t._al, t._offs = off, al, offs
        else:
            raise ParseError('size of %r' % t)
        return t._sz
    def offs(self, t):
        self.size(t); return t._offs
    # ------------------------------------------------ functions
    def _func(self, head, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', head)
        name = m.group(1).strip('"')
        f = Func(name, None, None, body, self)
        f.head = head
        f.argpos = m.end() - 1
        c = Cur(lex(head[m.end() - 1:].split(' #')[0] if False else head[m.end() - 1:]))
        c.expect('(')
        params, idx = [], 0
        while not c.accept(')'):
            if c.v() == '...':
                c.next(); continue
            t = self.ty(c)
            self.attrs(c)
            if c.peek()[0] == 'local':
                n = unq(c.next()[1])
            else:
                n = str(idx)
            idx += 1
            params.append((t, n))
            c.accept(',')
        f.params = params
        self.funcs[name] = f
    def attrs(self, c):
        r = {}
        while True:
            k, v = c.peek()
            if k == 'id' and v in PARAM_ATTRS: c.next()
            elif k == 'id' and v in PARAM_ATTRS_ARG:
                c.next()
                if c.accept('('):
                    d = 1; st = c.i
                    if v in ('sret', 'byval'):
                        r[v] = self.ty(Cur(c.t[c.i:]))
                    while d:
                        x = c.next()[1]
                        if x == '(': d += 1
                        elif x == ')': d -= 1
                else: c.next()
            elif k == 'str':
                c.next()
                if c.accept('='): c.next()
            else: return r
    # ------------------------------------------------ operands
    def fpconst(self, v, t):
        if v.startswith('0x'):
            if v[2] in 'K':
                bits = int(v[3:], 16)
                sign, ex, man = bits >> 79, (bits >> 64) & 0x7fff, bits & ((1 << 64) - 1)
                if ex == 0x7fff: return ('inf' if man << 1 & ((1 << 64) - 1) == 0 else 'nan', sign)
                f = Fraction(man) * Fraction(2) ** (ex - 16383 - 63)
                return -f if sign else f
            d = struct.unpack('>d', struct.pack('>Q', int(v[2:], 16)))[0]
        else:
            d = float(v)
        if d != d: return ('nan', 0)
        if d in (float('inf'), float('-inf')): return ('inf', int(d < 0))
        return d
    def operand(self, c, t):
        """-> ('r', name) | ('c', value) | ('g', name) | ('z',) | ('u',) | ('agg', t, [..]) | ('gep', ...)"""
        k, v = c.next()
        if k == 'local': return ('r', unq(v))
        if k == 'glob': return ('g', unq(v))
        if k == 'num':
            if t.k == 'int': return ('c', int(v))
            return ('f', self.fpconst(v, t))
        if k == 'hex':
            return ('f', self.fpconst(v, t))
        if k == 'id':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('u',)
            if v == 'zeroinitializer': return ('z',)
            if v == 'none': return ('u',)
            if v == 'getelementptr':
                inb = False
                while c.v() in ('inbounds', 'nuw', 'nusw', 'inrange'): 
                    c.next()
                    if c.v() == '(' and c.t[c.i-1][1] == 'inrange':
                        while c.next()[1] != ')': pass
                c.expect('(')
                st = self.ty(c); c.expect(',')
                ops = []
                while not c.accept(')'):
                    c.accept('inrange')
                    tt = self.ty(c); ops.append((tt, self.operand(c, tt))); c.accept(',')
                return ('gep', st, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast'):
                c.expect('('); tt = self.ty(c); o = self.operand(c, tt); c.expect('to'); t2 = self.ty(c); c.expect(')')
                return ('cast', v, tt, o, t2)
            if v in ('add', 'sub', 'mul', 'icmp', 'select'):
                d = 0
                while True:
                    x = c.next()[1]
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
                return ('unsup', v)
        if v in ('{', '[', '<'):
            packed = False
            if v == '<' and c.v() == '{':
                c.next(); packed = True; close = '}'
            else:
                close = {'{': '}', '[': ']', '<': '>'}[v]
            els = []
            while not c.accept(close):
                tt = self.ty(c); els.append((tt, self.operand(c, tt))); c.accept(',')
            if packed: c.expect('>')
            return ('agg', els)
        if k == 'str' and v.startswith('c"'):
            raw = v[2:-1]
            bs = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), raw)
            return ('bytes', bs)
        raise ParseError('operand? %r %r %r' % (k, v, c.t[max(0, c.i - 5):c.i + 5]))
    def typed(self, c):
        t = self.ty(c)
        self.attrs(c)
        if t.k == 'metadata':
            while c.v() not in (',', ')', None): c.next()
            return (t, ('u',))
        return (t, self.operand(c, t))
    # ------------------------------------------------ instructions
    FM = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'inbounds',
          'tail', 'musttail', 'notail', 'volatile', 'disjoint', 'nneg', 'samesign', 'atomic'}
    def parse_instr(self, s):
        s = re.sub(r', ![a-zA-Z.]+ !\d+', '', s)
        c = Cur(lex(s))
        res = None
        if c.peek()[0] == 'local' and c.v(1) == '=':
            res = unq(c.next()[1]); c.next()
        op = c.next()[1]
        flags = set()
        while c.peek()[0] == 'id' and c.v() in self.FM:
            flags.add(c.next()[1])
        if op in ('tail', 'musttail', 'notail'):
            op = c.next()[1]
            while c.peek()[0] == 'id' and c.v() in self.FM: flags.add(c.next()[1])
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t = self.ty(c); a = self.operand(c, t); c.expect(','); b = self.operand(c, t)
            return Instr(op, res, t, [a, b], flags)
        if op in ('fneg', 'freeze'):
            t = self.ty(c); return Instr(op, res, t, [self.operand(c, t)])
        if op in ('icmp', 'fcmp'):
            pred = c.next()[1]
            while pred in self.FM: pred = c.next()[1]
            t = self.ty(c); a = self.operand(c, t); c.expect(','); b = self.operand(c, t)
            return Instr(op, res, t, [a, b], pred)
        if op == 'alloca':
            t = self.ty(c); cnt = None
            while c.accept(','):
                if c.v() == 'align': c.next(); c.next()
                else:
                    tt = self.ty(c); cnt = (tt, self.operand(c, tt))
            return Instr(op, res, t, [cnt])
        if op == 'load':
            t = self.ty(c); c.expect(','); pt = self.ty(c)
            return Instr(op, res, t, [self.operand(c, pt)])
        if op == 'store':
            t, v = self.typed(c); c.expect(','); pt = self.ty(c)
            return Instr(op, res, t, [v, self.operand(c, pt)])
        if op == 'getelementptr':
            t = self.ty(c); c.expect(',')
            ops = [self.typed(c)]
            while c.accept(','): ops.append(self.typed(c))
            return Instr('gep', res, t, ops)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                  'inttoptr', 'bitcast', 'addrspacecast'):
            t = self.ty(c); a = self.operand(c, t); c.expect('to'); t2 = self.ty(c)
            return Instr(op, res, t2, [a], t)
        if op == 'br':
            if c.accept('label'): return Instr(op, None, None, [unq(c.next()[1])])
            t = self.ty(c); cond = self.operand(c, t)
            c.expect(','); c.expect('label'); a = unq(c.next()[1]); c.expect(','); c.expect('label'); b = unq(c.next()[1])
            return Instr(op, None, t, [cond, a, b])
        if op == 'switch':
            t = self.ty(c); v = self.operand(c, t); c.expect(','); c.expect('label'); d = unq(c.next()[1]); c.expect('[')
            return Instr(op, None, t, [v], {'default': d, 'cases': self._cases(c), 'partial': True})
        if op == 'ret':
            t = self.ty(c)
            if t.k == 'void': return Instr(op, None, t, [])
            return Instr(op, None, t, [self.operand(c, t)])
        if op == 'unreachable': return Instr(op, None, None, [])
        if op == 'phi':
            t = self.ty(c); inc = []
            while True:
                c.expect('['); v = self.operand(c, t); c.expect(','); l = unq(c.next()[1]); c.expect(']')
                inc.append((v, l))
                if not c.accept(','): break
            return Instr(op, res, t, inc)
        if op == 'select':
            ct, cv = self.typed(c); c.expect(','); t, a = self.typed(c); c.expect(','); _, b = self.typed(c)
            return Instr(op, res, t, [cv, a, b], ct)
        if op in ('extractvalue',):
            t, a = self.typed(c); idx = []
            while c.accept(','): idx.append(int(c.next()[1]))
            return Instr(op, res, t, [a], idx)
        if op == 'insertvalue':
            t, a = self.typed(c); c.expect(','); t2, b = self.typed(c); idx = []
            while c.accept(','): idx.append(int(c.next()[1]))
            return Instr(op, res, t, [a, b], (idx, t2))
        if op == 'extractelement':
            t, a = self.typed(c); c.expect(','); t2, i = self.typed(c)
            return Instr(op, res, t, [a, i])
        if op == 'insertelement':
            t, a = self.typed(c); c.expect(','); t2, b = self.typed(c); c.expect(','); t3, i = self.typed(c)
            return Instr(op, res, t, [a, b, i])
        if op == 'shufflevector':
            t, a = self.typed(c); c.expect(','); _, b = self.typed(c); c.expect(','); t3, mk = self.typed(c)
            return Instr(op, res, t, [a, b, mk], t3)
        if op in ('call', 'invoke'):
            while c.peek()[0] == 'id' and (c.v() in PARAM_ATTRS or c.v() in ('fastcc', 'ccc')): c.next()
            self.attrs(c)
            if c.v() == 'range': 
                self.attrs(c)
            t = self.ty(c)
            if t.k == 'func': t = t.el
            if c.v() == 'asm':
                return Instr('asm', res, t, [])
            callee = self.operand(c, PTR)
            c.expect('(')
            args = []
            while not c.accept(')'):
                tt = self.ty(c)
                at = self.attrs(c)
                if tt.k == 'metadata':
                    d = 0
                    while not (d == 0 and c.v() in (',', ')')):
                        if c.v() == '(': d += 1
                        if c.v() == ')': d -= 1
                        c.next()
                    args.append((tt, ('u',), at))
                else:
                    args.append((tt, self.operand(c, tt), at))
                c.accept(',')
            x = {'callee': callee}
            if op == 'invoke':
                while c.v() != 'to': c.next()
                c.next(); c.expect('label'); x['normal'] = unq(c.next()[1]); c.expect('unwind'); c.expect('label'); x['unwind'] = unq(c.next()[1])
            return Instr(op, res, t, args, x)
        if op in ('landingpad', 'resume', 'fence', 'cmpxchg', 'atomicrmw', 'va_arg', 'cleanupret', 'catchswitch'):
            return Instr('unsup', res, None, [], op)
        raise ParseError('instr? ' + s)
    def _cases(self, c):
        cases = []
        while not c.accept(']') and c.peek()[0] is not None:
            t = self.ty(c); v = self.operand(c, t); c.expect(','); c.expect('label'); cases.append((v[1], unq(c.next()[1])))
        return cases
    # ------------------------------------------------ globals
    def global_init(self, name):
        """-> (type, operand or None, is_const)"""
        if name in self._ginit: return self._ginit[name]
        s = self.globals[name]
        s = re.sub(r', ![a-zA-Z.]+ !\d+', '', s)
        c = Cur(lex(s))
        const = None; ext = False
        while True:
            v = c.v()
            if v in ('global', 'constant'):
                const = (c.next()[1] == 'constant'); break
            if v == 'external' or v == 'extern_weak': ext = True
            if v == 'alias':
                r = (None, ('alias',), True); self._ginit[name] = r; return r
            c.next()
            if v in ('thread_local', 'addrspace') and c.v() == '(':
                while c.next()[1] != ')': pass
        t = self.ty(c)
        init = None if ext else self.operand(c, t)
        self._ginit[name] = (t, init, const)
        return self._ginit[name]
