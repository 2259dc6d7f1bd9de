"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) of the real code."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<s>c?"(?:[^"\\]|\\.)*")|
  (?P<r>%(?:"[^"]*"|[-\w$.]+))|
  (?P<g>@(?:"[^"]*"|[-\w$.]+))|
  (?P<m>![-\w$.]*)|
  (?P<a>\#\d+)|
  (?P<n>-?\d+\.\d+(?:e[-+]?\d+)?|-?0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+|-?\d+)|
  (?P<w>[A-Za-z_$.][-\w$.]*)|
  (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].strip().startswith(';'):
                break
            raise ParseError('token: ' + s[i:i + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class ParseError(Exception):
    pass


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x')

    def __init__(self, op, res, ty, a, x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x

    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.a, self.x)


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks, self.order = {}, []
        self.loopinfo = None


PTR = ('p',)
VOID = ('void',)
ATTRS = set('''noundef nonnull nocapture readonly readnone writeonly signext zeroext inreg noalias returned immarg swiftself nest allocptr
 tail musttail notail fastcc ccc coldcc nnan ninf nsz arcp contract afn reassoc fast nuw nsw exact inbounds volatile inrange disjoint nneg
 local_unnamed_addr unnamed_addr dso_local dso_preemptable internal private linkonce_odr linkonce weak weak_odr external common appending
 available_externally hidden protected default constant_ mustprogress allocalign noext preallocated swifterror thread_local atomic unwind_ samesign dead_on_unwind writable dead_on_return'''.split())
PATTRS = set('align dereferenceable dereferenceable_or_null sret byval byref inalloca elementtype range memory vscale_range initialexec localexec localdynamic captures initializes nofpclass'.split())


class P:
    """token stream of one logical line"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'w'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %s got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t[:60])))

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'w' and v in ATTRS:
                self.i += 1
            elif k == 'w' and v in PATTRS:
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()[1]
                        d += (y == '(') - (y == ')')
                elif v == 'align':
                    self.next()
            elif k == 'a':
                self.i += 1
            else:
                return

    def type(self):
        k, v = self.next()
        if k == 'w':
            if v == 'ptr':
                t = PTR
                if self.accept('addrspace'):
                    self.expect('('); self.next(); self.expect(')')
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                t = ('f', v)
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise ParseError('type %s' % v)
        elif k == 'r':
            t = self.m.named(v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); t = ('a', n, self.type()); self.expect(']')
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); fs = []
                while not self.accept('}'):
                    fs.append(self.type()); self.accept(',')
                self.expect('>')
                t = ('s', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.expect('x'); t = ('v', n, self.type()); self.expect('>')
        elif v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type()); self.accept(',')
            t = ('s', tuple(fs), False)
        else:
            raise ParseError('type %r' % (v,))
        # function type
        if self.peek()[1] == '(' and self.peek()[0] == 'p' and self.fn_ok:
            d = 0
            while True:
                y = self.next()[1]
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
        return t
    fn_ok = False

    def value(self, ty):
        """an operand of type ty"""
        k, v = self.next()
        if k == 'r':
            return ('r', v)
        if k == 'g':
            return ('g', v)
        if k == 'n':
            if ty[0] == 'f':
                return ('f', v)
            return ('c', int(v, 0))
        if k == 's':
            return ('str', v)
        if k == 'w':
            if v in ('true', 'false'):
                return ('c', int(v == 'true'))
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('zero',)
            if v == 'splat':
                self.expect('('); et = self.type(); ev = self.value(et); self.expect(')')
                return ('agg', [(et, ev)] * ty[1])
            if v == 'getelementptr':
                self.attrs()
                while self.peek()[1] == 'inrange':
                    self.next()
                self.expect('(')
                bt = self.type(); self.expect(',')
                ops = []
                while True:
                    self.attrs(); t = self.type(); self.attrs(); ops.append((t, self.value(t)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'icmp'):
                self.attrs()
                pred = self.next()[1] if v == 'icmp' else None
                self.expect('('); t = self.type(); x = self.value(t); self.expect(','); t2 = self.type(); y = self.value(t2); self.expect(')')
                return ('bin', v, t, x, y, pred)
            raise ParseError('value %s' % v)
        close = {'<': '>', '[': ']', '{': '}'}.get(v)
        if close:
            if v == '<' and self.peek()[1] == '{':
                self.next(); close = '}'
            out = []
            while not self.accept(close):
                t = self.type(); out.append((t, self.value(t))); self.accept(',')
            if close == '}' and v == '<':
                self.expect('>')
            return ('agg', out)
        raise ParseError('value %r %r' % (k, v))

    def tv(self):
        self.attrs()
        t = self.type()
        self.attrs()
        return t, self.value(t)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc bitcast ptrtoint inttoptr fptoui fptosi uitofp sitofp fpext fptrunc addrspacecast'.split())


class Module:
    def __init__(self, text):
        self.types, self.tydefs, self.funcs, self.globals, self.aliases = {}, {}, {}, {}, {}
        self.rawf, self.decl = {}, set()
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', l)
                self.tydefs[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', l)
                self.globals[m.group(1)] = m.group(2)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l)
                self.rawf[m.group(1)] = lines[i:j]
                i = j
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l)
                self.decl.add(m.group(1))
            i += 1
        self.gcache = {}

    def named(self, n):
        if n in self.types:
            return self.types[n]
        d = self.tydefs[n]
        self.types[n] = ('n', n)
        if d == 'opaque':
            t = ('opaque',)
        else:
            t = P(tokenize(d), self).type()
        self.types[n] = t
        return t

    # ---- layout
    def size(self, t):
        k = t[0]
        if k == 'i':
            w = t[1]
            b = (w + 7) // 8
            if b & (b - 1):
                b = 1 << b.bit_length()
            return b
        if k == 'p':
            return 8
        if k == 'f':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 'v':
            return t[1] * self.size(t[2]) if t[2] != ('i', 1) else (t[1] + 7) // 8
        if k == 's':
            return self.struct(t)[1]
        if k == 'n':
            return self.size(self.types[t[1]])
        raise ParseError('size of %r' % (t,))

    def align(self, t):
        k = t[0]
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            return 1 if t[2] else max([1] + [self.align(x) for x in t[1]])
        if k == 'n':
            return self.align(self.types[t[1]])
        s = self.size(t)
        if k == 'v':
            return 1 << (s - 1).bit_length()
        return s

    def struct(self, t):
        if t[0] == 'n':
            t = self.types[t[1]]
        key = id(t)
        off, o, al = [], 0, 1
        for f in t[1]:
            if not t[2]:
                a = self.align(f)
                al = max(al, a)
                o = (o + a - 1) // a * a
            off.append(o)
            o += self.size(f)
        return off, (o + al - 1) // al * al

    def glob(self, name):
        """(is_constant, type, initialiser or None)"""
        if name in self.gcache:
            return self.gcache[name]
        s = self.globals[name]
        p = P(tokenize(re.sub(r', (comdat|align|section|!\w).*$', '', s)), self)
        p.attrs()
        kind = None
        ext = 'external' in s.split('global')[0].split('constant')[0]
        while True:
            k, v = p.next()
            if v in ('global', 'constant'):
                kind = v
                break
            if v == 'alias':
                t = p.type(); p.expect(','); t2 = p.type(); val = p.value(t2)
                r = ('alias', t, val)
                self.gcache[name] = r
                return r
            p.attrs()
        t = p.type()
        init = None
        if not ext and p.peek()[0] is not None:
            init = p.value(t)
        r = (kind == 'constant', t, init)
        self.gcache[name] = r
        return r

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            raw = self.rawf.get(name)
            if raw is None:
                return None
            f = self.parse_func(name, raw)
            self.funcs[name] = f
        return f

    def parse_func(self, name, raw):
        head = raw[0]
        p = P(tokenize(head[6:]), self)
        p.attrs()
        p.fn_ok = False
        ret = p.type()
        p.attrs()
        p.next()
        p.expect('(')
        params = []
        cnt = 0
        vararg = False
        while not p.accept(')'):
            if p.accept('...'):
                vararg = True
                continue
            t = p.type()
            p.attrs()
            if p.peek()[0] == 'r':
                params.append((t, p.next()[1]))
            else:
                params.append((t, '%%%d' % cnt))
            cnt += 1
            p.accept(',')
        f = Func(name, ret, params)
        f.vararg = vararg
        cur = None
        body = raw[1:]
        i = 0
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if l[0] != ' ':
                lab = l.split(':', 1)[0]
                if lab.startswith('"'):
                    lab = lab
                cur = '%' + lab
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%%%d' % len(params)
                f.blocks[cur] = []
                f.order.append(cur)
            s = l.strip()
            if s.startswith('switch') or ' switch ' in s:
                while ']' not in s:
                    s += ' ' + body[i].strip()
                    i += 1
            elif re.match(r'(%\S+ = )?(tail )?invoke ', s):
                s += ' ' + body[i].strip()
                i += 1
            elif re.search(r'= landingpad', s):
                while i < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            f.blocks[cur].append(self.parse_inst(s))
        return f

    def parse_inst(self, s):
        # drop metadata attachments
        j = s.find(', !')
        if j > 0 and '"' not in s[j:]:
            s = s[:j]
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'r' and p.peek(1)[1] == '=':
            res = p.next()[1]
            p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op in BIN:
            i0 = p.i
            p.attrs()
            fl = set(v for k, v in p.t[i0:p.i])
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, res, t, (a, b), 'nsw' if 'nsw' in fl else None)
        if op == 'fneg':
            p.attrs(); t = p.type(); return Inst(op, res, t, (p.value(t),))
        if op in CAST:
            p.attrs()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Inst(op, res, t2, (a,), t)
        if op in ('icmp', 'fcmp'):
            p.attrs()
            pred = p.next()[1]
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst(op, res, t, (a, b), pred)
        if op == 'load':
            p.attrs(); t = p.type(); p.expect(','); pt, pv = p.tv()
            return Inst(op, res, t, (pv,))
        if op == 'store':
            p.attrs(); t, v = p.tv(); p.expect(','); pt, pv = p.tv()
            return Inst(op, None, t, (v, pv))
        if op == 'getelementptr':
            p.attrs(); bt = p.type(); p.expect(',')
            ops = [p.tv()]
            while p.accept(','):
                ops.append(p.tv())
            return Inst(op, res, bt, ops)
        if op == 'alloca':
            p.attrs(); t = p.type(); n = None
            if p.accept(','):
                p.attrs()
                if p.peek()[0] is not None:
                    n = p.tv()
            return Inst(op, res, t, n)
        if op == 'phi':
            p.attrs(); t = p.type(); inc = []
            while p.accept('['):
                v = p.value(t); p.expect(','); b = p.next()[1]; p.expect(']'); inc.append((v, b))
                p.accept(',')
            return Inst(op, res, t, inc)
        if op == 'select':
            p.attrs(); ct, c = p.tv(); p.expect(','); t, a = p.tv(); p.expect(','); t2, b = p.tv()
            return Inst(op, res, t, (c, a, b), ct)
        if op == 'br':
            if p.accept('label'):
                return Inst(op, None, None, (p.next()[1],))
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
            return Inst(op, None, None, (a, b), c)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('['); cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1]))
            return Inst(op, None, t, (v, d, cases))
        if op == 'ret':
            t = p.type()
            return Inst(op, None, t, (p.value(t),) if t != VOID else ())
        if op in ('call', 'invoke'):
            p.attrs()
            p.fn_ok = False
            rt = p.type()
            p.attrs()
            if p.peek()[1] == '(':  # function type
                d = 0
                while True:
                    y = p.next()[1]
                    d += (y == '(') - (y == ')')
                    if d == 0:
                        break
            if p.peek()[1] == 'asm':
                return Inst('asm', res, rt, None)
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                p.attrs(); t = p.type()
                if t == ('metadata',):
                    # skip metadata operand
                    d = 0
                    while True:
                        y = p.peek()[1]
                        if d == 0 and y in (',', ')'):
                            break
                        d += (y == '(') - (y == ')')
                        p.next()
                    args.append((t, ('undef',)))
                else:
                    p.attrs()
                    args.append((t, p.value(t)))
                p.accept(',')
            x = None
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.next()
                p.next(); p.expect('label'); a = p.next()[1]; p.expect('unwind'); p.expect('label'); x = (a, p.next()[1])
            return Inst(op, res, rt, (callee, args), x)
        if op in ('unreachable', 'fence'):
            return Inst(op, None, None, ())
        if op == 'resume':
            return Inst(op, None, None, (p.tv(),))
        if op == 'landingpad':
            t = p.type()
            cl = []
            for m in re.finditer(r'\b(catch|filter|cleanup)\b(?: \S+ (null|@(?:"[^"]*"|[-\w$.]+)))?', s):
                cl.append((m.group(1), m.group(2)))
            return Inst(op, res, t, cl)
        if op == 'extractvalue':
            t, v = p.tv(); idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Inst(op, res, t, (v, idx))
        if op == 'insertvalue':
            t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Inst(op, res, t, (v, v2, idx), t2)
        if op == 'extractelement':
            t, v = p.tv(); p.expect(','); t2, i2 = p.tv()
            return Inst(op, res, t, (v, i2), t2)
        if op == 'insertelement':
            t, v = p.tv(); p.expect(','); t1, e = p.tv(); p.expect(','); t2, i2 = p.tv()
            return Inst(op, res, t, (v, e, i2), t2)
        if op == 'shufflevector':
            t, a = p.tv(); p.expect(','); t1, b = p.tv(); p.expect(','); t2, m = p.tv()
            return Inst(op, res, t, (a, b, m), t2)
        if op == 'freeze':
            t, v = p.tv()
            return Inst(op, res, t, (v,))
        if op == 'atomicrmw':
            p.attrs(); kind = p.next()[1]
            pt, pv = p.tv(); p.expect(','); t, v = p.tv()
            return Inst(op, res, t, (pv, v), kind)
        if op == 'cmpxchg':
            return Inst(op, res, None, (s,))
        if op == 'va_arg':
            return Inst(op, res, None, (s,))
        raise ParseError('instruction ' + s[:80])


class Loop:
    def __init__(self, header):
        self.header, self.blocks, self.parent, self.kids, self.latches = header, {header}, None, [], []


def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br':
        return list(t.a)
    if t.op == 'switch':
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == 'invoke':
        return list(t.x)
    return []


def analyse(f):
    """natural loops, and per loop level a topological order of blocks and inner loops"""
    if f.loopinfo:
        return f.loopinfo
    entry = f.order[0]
    succ = {b: succs(f, b) for b in f.order}
    # reverse post-order
    seen, post = {entry}, []
    st = [(entry, iter(succ[entry]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            if b not in pred[s]:
                pred[s].append(b)
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for q in pred[b]:
                if q in idom:
                    if n is None:
                        n = q
                    else:
                        x, y = q, n
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise ParseError('irreducible control flow in ' + f.name)
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        wl += pred[x]
    ls = sorted(loops.values(), key=lambda L: len(L.blocks))
    for i, L in enumerate(ls):
        for M in ls[i + 1:]:
            if L.header in M.blocks and M is not L:
                L.parent = M
                M.kids.append(L)
                break

    inner = {}
    for L in ls[::-1]:
        for b in L.blocks:
            inner[b] = L  # innermost, as smaller loops are visited last

    def level(blocks, me):
        out, done = [], set()
        # post-order on the contracted graph
        head = me.header if me else entry

        def node(b):
            L = inner.get(b)
            if L is me:
                return b
            while L is not None and L.parent is not me:
                L = L.parent
            return L if L is not None else b
        nodes = {}
        for b in rpo:
            if b in blocks:
                nodes.setdefault(node(b), None)

        def out_edges(nd):
            bs = nd.blocks if isinstance(nd, Loop) else [nd]
            r = []
            for b in bs:
                for s in succ[b]:
                    if s in blocks and s != head:
                        m = node(s)
                        if m is not nd:
                            r.append(m)
            return r
        order, seen2 = [], set()

        def dfs(nd):
            stack = [(nd, iter(out_edges(nd)))]
            seen2.add(nd)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen2:
                        seen2.add(s)
                        stack.append((s, iter(out_edges(s))))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(head if me or not isinstance(node(head), Loop) else node(head))
        return order[::-1]
    top = level(set(rpo), None)
    for L in ls:
        L.order = level(L.blocks, L)
    f.loopinfo = (top, ls, pred, succ)
    f.inner = inner
    return f.loopinfo
