"""Parser for the subset of textual LLVM 18 IR that clang emits for libffi."""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\.)*")|([%@]"[^"]*")|([%@][\w.$-]+)|("(?:[^"\\]|\\.)*")|(0xK?[0-9A-Fa-f]+)|
   (-?\d+\.\d+e[+-]?\d+)|(-?\d+)|(\.\.\.)|([A-Za-z_][\w.]*)|(!\S*)|(\#\d+)|([\[\]{}()<>,=*|:]))''', re.X)

def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise Unsupported('token: ' + s[i:i+40])
        out.append(m.group(0).strip()); i = m.end()
    return out

# ---- types: ('i',n) ('ptr',) ('arr',n,t) ('struct',[t],packed) ('void',) ('fp',bytes,size) ('vec',n,t) ('meta',)
I1, I8, I16, I32, I64 = (('i', n) for n in (1, 8, 16, 32, 64))
PTR = ('ptr',)

class Module:
    def __init__(self, text):
        self.structs, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self.text = text
        self._parse()

    def sizeof(self, t):
        k = t[0]
        if k == 'i': 
            b = (t[1] + 7) // 8
            return b if b in (1, 2, 4, 8, 16) else b
        if k == 'ptr': return 8
        if k == 'arr': return t[1] * self.sizeof(t[2])
        if k == 'vec': return t[1] * self.sizeof(t[2])
        if k == 'fp': return t[2]
        if k == 'named': return self.sizeof(self.structs[t[1]])
        if k == 'struct':
            return self.layout(t)[1]
        if k == 'void': return 0
        raise Unsupported('sizeof %r' % (t,))

    def alignof(self, t):
        k = t[0]
        if k == 'i': return min(16, self.sizeof(t))
        if k == 'ptr': return 8
        if k in ('arr', 'vec'): return self.alignof(t[2])
        if k == 'fp': return t[2]
        if k == 'named': return self.alignof(self.structs[t[1]])
        if k == 'struct':
            return 1 if t[2] else max([self.alignof(x) for x in t[1]] or [1])
        raise Unsupported('alignof %r' % (t,))

    def layout(self, t):
        if t[0] == 'named': t = self.structs[t[1]]
        off, offs = 0, []
        for x in t[1]:
            a = 1 if t[2] else self.alignof(x)
            off = (off + a - 1) // a * a
            offs.append(off); off += self.sizeof(x)
        a = self.alignof(t)
        return offs, (off + a - 1) // a * a

    def _parse(self):
        lines = self.text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%[\w.$"]+) = type (.*)$', l)
                if m:
                    if m.group(2) == 'opaque': self.structs[m.group(1)] = ('struct', [], False)
                    else: self.structs[m.group(1)] = P(tokens(m.group(2)), self).type()
            elif l.startswith('@'):
                m = re.match(r'@([\w.$]+|"[^"]*") = (.*)$', l)
                if m: self.globals[m.group(1)] = m.group(2)
            elif l.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', l)
                self.decls.add(m.group(1))
            elif l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'@([\w.$]+)\(', l)
                self.funcs[m.group(1)] = lines[i:j+1]
                i = j
            i += 1
        self._fc = {}

    def func(self, name):
        if name not in self._fc:
            self._fc[name] = Func(self, name, self.funcs[name])
        return self._fc[name]

    def global_init(self, name):
        """-> (type, initializer value or None, is_const)"""
        s = self.globals[name]
        s = re.sub(r'(, align \d+|, section "[^"]*"|, comdat.*|, !.*)+$', '', s)
        m = re.match(r'(.*?)\b(global|constant)\b (.*)$', s)
        toks = tokens(m.group(3)); p = P(toks, self)
        t = p.type()
        v = p.value(t) if p.more() and p.peek() != ',' else None
        return t, v, m.group(2) == 'constant'

class P:
    """token stream parser for types and operands"""
    def __init__(self, toks, mod): self.t, self.i, self.m = toks, 0, mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def more(self): return self.i < len(self.t)
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x): raise Unsupported('expected %s at %s in %s' % (x, self.peek(), ' '.join(self.t)))
    def type(self):
        x = self.next()
        if re.match(r'i\d+$', x): r = ('i', int(x[1:]))
        elif x == 'ptr': r = PTR
        elif x == 'void': r = ('void',)
        elif x == 'float': r = ('fp', 4, 4)
        elif x == 'double': r = ('fp', 8, 8)
        elif x == 'x86_fp80': r = ('fp', 10, 16)
        elif x == 'metadata': r = ('meta',)
        elif x == 'label': r = ('label',)
        elif x == '[':
            n = int(self.next()); self.need('x'); t = self.type(); self.need(']'); r = ('arr', n, t)
        elif x == '{' :
            ts = []
            while not self.eat('}'):
                ts.append(self.type()); self.eat(',')
            r = ('struct', ts, False)
        elif x == '<':
            if self.eat('{'):
                ts = []
                while not self.eat('}'):
                    ts.append(self.type()); self.eat(',')
                self.need('>'); r = ('struct', ts, True)
            else:
                n = int(self.next()); self.need('x'); t = self.type(); self.need('>'); r = ('vec', n, t)
        elif x.startswith('%'): r = ('named', x)
        else: raise Unsupported('type ' + x + ' in ' + ' '.join(self.t))
        if self.peek() == '(' :          # function type
            d = 0
            while True:
                y = self.next()
                d += y == '('; d -= y == ')'
                if d == 0: break
            r = ('fn', r)
        return r
    ATTRS = {'noundef','zeroext','signext','nonnull','nocapture','readonly','writeonly','noalias','immarg','returned','readnone','inreg','nest','dead_on_unwind','writable','noreturn','nofpclass'}
    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTRS: self.next()
            elif x in ('align',):
                self.next()
                if self.eat('('): self.next(); self.need(')')
                else: self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures'):
                self.next(); d = 0
                while True:
                    y = self.next(); d += y == '('; d -= y == ')'
                    if d == 0: break
            else: break
    def tv(self):
        t = self.type(); self.attrs(); return t, self.value(t)
    def value(self, t):
        x = self.next()
        if x == 'dso_local_equivalent': x = self.next()
        if x.startswith('%'): return ('loc', x[1:])
        if x.startswith('@'): return ('glob', x[1:].strip('"'))
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x.startswith('c"'):
            b, s, i = [], x[2:-1], 0
            while i < len(s):
                if s[i] == '\\': b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if x in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and self.eat('{'):
                vs = []
                while not self.eat('}'):
                    vs.append(self.tv()); self.eat(',')
                self.need('>')
                return ('agg', vs)
            vs = []
            while not self.eat(close):
                vs.append(self.tv()); self.eat(',')
            return ('agg', vs)
        if re.match(r'-?\d+$', x): return ('int', int(x))
        if x == 'getelementptr':
            self.eat('inbounds'); self.need('(')
            bt = self.type(); self.need(','); base = self.tv(); idx = []
            while self.eat(','):
                if self.peek() == 'inrange': self.next()
                idx.append(self.tv())
            self.need(')')
            return ('gep', bt, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.need('('); a = self.tv(); self.need('to'); t2 = self.type(); self.need(')')
            return ('cast', x, a, t2)
        if x in ('add', 'sub', 'mul'):
            while self.peek() in ('nsw', 'nuw'): self.next()
            self.need('('); a = self.tv(); self.need(','); b = self.tv(); self.need(')')
            return ('cbin', x, a, b)
        if x == 'icmp':
            pr = self.next(); self.need('('); a = self.tv(); self.need(','); b = self.tv(); self.need(')')
            return ('cicmp', pr, a, b)
        if re.match(r'-?\d+\.\d+e|0x', x): return ('fpconst', x)
        raise Unsupported('value ' + x + ' in ' + ' '.join(self.t))

class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text')
    def __init__(self, op, dst, ty, a, text): self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text
    def __repr__(self): return self.text

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'addrspacecast'}

class Block:
    def __init__(self, name): self.name, self.ins, self.succ, self.pred = name, [], [], []

class Func:
    def __init__(self, mod, name, lines):
        self.mod, self.name = mod, name
        h = lines[0]
        # parameters
        s = h[h.index('@' + name) + len(name) + 1:]
        d, j = 0, 0
        for j, c in enumerate(s):
            d += c == '('; d -= c == ')'
            if d == 0: break
        ps = s[1:j]
        self.ret_text = h[:h.index('@' + name)]
        self.params = []
        if ps.strip():
            p = P(tokens(ps), mod)
            while True:
                if p.peek() == '...': break
                t = p.type(); p.attrs()
                self.params.append((t, p.next()[1:]))
                if not p.eat(','): break
        self.ms_abi = 'win64cc' in self.ret_text
        self.blocks, self.order = {}, []
        cur = None
        body = lines[1:-1]
        k = 0
        while k < len(body):
            l = body[k].split(' ;')[0] if ('c"' not in body[k]) else body[k]
            k += 1
            if not l.strip(): continue
            m = re.match(r'("[^"]*"|[\w.$-]+):\s*(;.*)?$', l)
            if m:
                cur = Block(m.group(1).strip('"')); self.blocks[cur.name] = cur; self.order.append(cur.name); continue
            if cur is None:
                cur = Block('entry'); self.blocks['entry'] = cur; self.order.append('entry')
            l = l.strip()
            if l.startswith('switch') :
                while ']' not in l:
                    l += ' ' + body[k].strip(); k += 1
            l = re.sub(r', !\w[\w.]* ![\d]+', '', l)
            l = re.sub(r', !srcloc.*', '', l)
            cur.ins.append(self.parse_ins(l))
        for _ in range(12):
            self._edges(); self._cfg()
            if not self._split(): break
        else: raise ValueError('the control flow of %s cannot be made reducible' % name)

    def _edges(self):
        for b in self.blocks.values(): b.succ, b.pred = [], []
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br': b.succ = [x for x in t.a[1:]] 
            elif t.op == 'switch': b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            seen = []
            for x in b.succ:
                if x not in seen: seen.append(x)
            b.succ = seen
        for b in self.blocks.values():
            for x in b.succ: self.blocks[x].pred.append(b.name)

    def _split(self):
        """node splitting: a cycle entered at several blocks (a goto into a loop) gets a copy of its
        blocks for the entries other than the first in the text, so that every cycle has one header.
        The copies keep the names of the values (paths are executed, names are looked up per path)."""
        cut = {(n, h) for h, L in self.loops.items() for n in L if h in self.blocks[n].succ}
        # strongly connected components of what is left
        idx, low, st, on, comps, c = {}, {}, [], set(), [], 0
        for r in self.rpo:
            if r in idx: continue
            work = [(r, iter([s for s in self.blocks[r].succ if (r, s) not in cut]))]
            idx[r] = low[r] = c; c += 1; st.append(r); on.add(r)
            while work:
                n, it = work[-1]
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = c; c += 1; st.append(s); on.add(s)
                        work.append((s, iter([x for x in self.blocks[s].succ if (s, x) not in cut]))); break
                    elif s in on: low[n] = min(low[n], idx[s])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        k = set()
                        while True:
                            x = st.pop(); on.discard(x); k.add(x)
                            if x == n: break
                        if len(k) > 1: comps.append(k)
        if not comps: return False
        K = comps[0]; reach = set(self.rpo)
        ent = [b for b in self.order if b in K and any(p not in K and p in reach for p in self.blocks[b].pred)]
        h = ent[0]; R = K - {h}
        nm = {b: b + '~' for b in R}
        while any(v in self.blocks for v in nm.values()): nm = {b: v + '~' for b, v in nm.items()}
        to = lambda x: nm.get(x, x)
        def term(t, f):
            if t.op == 'br': return Ins('br', t.dst, t.ty, (t.a[0],) + tuple(f(x) for x in t.a[1:]), t.text)
            if t.op == 'switch': return Ins('switch', t.dst, t.ty, (t.a[0], f(t.a[1]), [(x[0], f(x[1])) + tuple(x[2:]) for x in t.a[2]]), t.text)
            return t
        old = list(self.blocks.values())
        for b in old:                                   # values that flow out of a copy, and into it
            n = []
            for i in b.ins:
                if i.op == 'phi': i = Ins('phi', i.dst, i.ty, list(i.a) + [(v, nm[l]) for v, l in i.a if l in nm], i.text)
                n.append(i)
            b.ins = n
        for x in R:
            c = Block(nm[x]); c.ins = self.blocks[x].ins[:-1] + [term(self.blocks[x].ins[-1], to)]
            self.blocks[c.name] = c; self.order.append(c.name)
        for b in old:
            if b.name not in K and b.name in reach: b.ins = b.ins[:-1] + [term(b.ins[-1], to)]
        return True

    def parse_ins(self, l):
        text = l
        dst = None
        m = re.match(r'%("[^"]*"|[\w.$-]+) = (.*)$', l)
        if m: dst, l = m.group(1).strip('"'), m.group(2)
        toks = tokens(l); p = P(toks, self.mod)
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in BIN:
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.append(p.next())
            t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return Ins('bin', dst, t, (op, a, b, fl), text)
        if op in CAST:
            if p.peek() == 'nneg': p.next()
            while p.peek() in ('nuw','nsw'): p.next()
            t, v = p.tv(); p.need('to'); t2 = p.type()
            return Ins('cast', dst, t2, (op, t, v), text)
        if op == 'icmp':
            pr = p.next(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return Ins('icmp', dst, I1, (pr, t, a, b), text)
        if op == 'select':
            while p.peek() in ('nnan','ninf','nsz','fast'): p.next()
            c = p.tv(); p.need(','); a = p.tv(); p.need(','); b = p.tv()
            return Ins('select', dst, a[0], (c[1], a[1], b[1]), text)
        if op == 'phi':
            t = p.type(); inc = []
            while True:
                p.need('['); v = p.value(t); p.need(','); lab = p.next()[1:].strip('"'); p.need(']')
                inc.append((v, lab))
                if not p.eat(','): break
            return Ins('phi', dst, t, inc, text)
        if op == 'br':
            t = p.type()
            if t == ('label',): return Ins('br', None, None, (None, p.next()[1:].strip('"')), text)
            c = p.value(t); p.need(','); p.type(); a = p.next()[1:].strip('"'); p.need(','); p.type(); b = p.next()[1:].strip('"')
            return Ins('br', None, None, (c, a, b), text)
        if op == 'switch':
            t, v = p.tv(); p.need(','); p.type(); d = p.next()[1:].strip('"'); p.need('['); cs = []
            while not p.eat(']'):
                _, cv = p.tv(); p.need(','); p.type(); cs.append((cv[1], p.next()[1:].strip('"')))
            return Ins('switch', None, t, ((t, v), d, cs), text)
        if op == 'ret':
            t = p.type()
            return Ins('ret', None, t, None if t == ('void',) else p.value(t), text)
        if op == 'unreachable': return Ins('unreachable', None, None, None, text)
        if op == 'alloca':
            t = p.type(); n = None; al = 1
            while p.eat(','):
                if p.peek() == 'align': p.next(); al = int(p.next())
                else: n = p.tv()
            return Ins('alloca', dst, t, (n, al), text)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = p.type(); p.need(','); a = p.tv()
            return Ins('load', dst, t, a, text)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'): p.next()
            v = p.tv(); p.need(','); a = p.tv()
            return Ins('store', None, v[0], (v, a), text)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.type(); p.need(','); base = p.tv(); idx = []
            while p.eat(','): idx.append(p.tv())
            return Ins('gep', dst, PTR, (bt, base, idx), text)
        if op == 'call':
            while p.peek() in ('fastcc', 'ccc', 'win64cc', 'x86_64_sysvcc') or p.peek() in P.ATTRS or p.peek() == 'align' or p.peek() in ('dereferenceable','dereferenceable_or_null'):
                if p.peek() in P.ATTRS or p.peek() in ('align','dereferenceable','dereferenceable_or_null'): p.attrs()
                else: p.next()
            t = p.type()
            if t[0] == 'fn': t = t[1]
            callee = p.value(PTR); p.need('('); args = []
            while not p.eat(')'):
                ty = p.type()
                if ty == ('meta',):
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (',', ')'): break
                        p.next(); d += y == '('; d -= y == ')'
                    args.append((ty, None))
                else:
                    p.attrs(); args.append((ty, p.value(ty)))
                p.eat(',')
            return Ins('call', dst, t, (callee, args), text)
        if op == 'freeze':
            t, v = p.tv(); return Ins('freeze', dst, t, v, text)
        if op in ('extractvalue',):
            a = p.tv(); idx = []
            while p.eat(','): idx.append(int(p.next()))
            return Ins('extractvalue', dst, None, (a, idx), text)
        if op in ('cmpxchg', 'atomicrmw', 'fence'):
            return Ins('unsupported', dst, None, op, text)
        return Ins('unsupported', dst, None, op, text)

    # ---- CFG: dominators, natural loops, reverse post-order
    def _cfg(self):
        seen, post = set(), []
        stack = [(self.order[0], iter(self.blocks[self.order[0]].succ))]
        seen.add(self.order[0])
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.blocks[s].succ))); break
            else:
                post.append(n); stack.pop()
        self.rpo = post[::-1]
        idx = {n: i for i, n in enumerate(self.rpo)}
        self.rpoi = idx
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = idom[a]
                while idx[b] > idx[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for n in self.rpo[1:]:
                ps = [q for q in self.blocks[n].pred if q in idom and q in idx]
                if not ps: continue
                d = ps[0]
                for q in ps[1:]: d = inter(d, q)
                if idom.get(n) != d: idom[n] = d; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == idom[b]: return False
                b = idom[b]
        self.loops = {}
        for n in self.rpo:
            for s in self.blocks[n].succ:
                if s in idx and dom(s, n):
                    L = self.loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x); st += [q for q in self.blocks[x].pred if q in idx]
