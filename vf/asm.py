"""Symbolic execution of the assembled real .S files (AT&T disassembly by objdump).

A contract object describes the entry state and gets a callback at every call,
indirect jump out of the text and return.  Memory is a set of regions, each a
symbolic base plus constant offsets, byte granular."""
import z3, re, subprocess, time, os
from . import build
from .sym import S, bv, fresh, const, Obligation as Ob, Fail, Stop
B8 = z3.BitVecSort(8)
R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
SUB = {}
for i, r in enumerate(R64):
    SUB[r] = (r, 64, 0)
    if i < 8:
        b = r[1:]
        SUB['e' + b] = (r, 32, 0); SUB[b] = (r, 16, 0)
        SUB[(b[0] + 'l') if i < 4 else b + 'l'] = (r, 8, 0)
        if i < 4: SUB[b[0] + 'h'] = (r, 8, 8)
    else: SUB[r + 'd'] = (r, 32, 0); SUB[r + 'w'] = (r, 16, 0); SUB[r + 'b'] = (r, 8, 0)

class Insn:
    __slots__ = ('addr', 'next', 'op', 'args', 'reloc', 'text')

def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        d += (c == '(') - (c == ')'); cur += c
    if cur.strip(): out.append(cur.strip())
    return out

class Program:
    def __init__(self, src, obj=None):
        self.obj = obj or build.asm_object(src)
        t = subprocess.run(['objdump', '-dr', '-w', '--no-show-raw-insn', '-j', '.text', self.obj], stdout=subprocess.PIPE, text=True, check=True).stdout
        self.code, last = {}, None
        for l in t.split('\n'):
            m = re.match(r'\s*([0-9a-f]+):\s+(.*)$', l)
            if not m: continue
            a, body = int(m.group(1), 16), m.group(2)
            body, *rel = body.split('\t')[0:1] + [x for x in re.findall(r'\bR_X86_64_\w+\s+\S+', body)]
            r = re.search(r'R_X86_64_\w+\s+([\w.$]+)', ' '.join(rel))
            body = re.sub(r'\s*R_X86_64.*$', '', body)
            if re.match(r'\s*R_X86', m.group(2)):
                continue
            i = Insn(); i.addr, i.text, i.reloc, i.next = a, body.strip(), (r.group(1) if r else None), None
            body = body.split('#')[0].strip()
            body = re.sub(r'^((?:data16|cs|ds|notrack|bnd|rex\.W)\s+)+', '', body)
            pre = ''
            mm = re.match(r'(rep[nz]*e?|lock)\s+(.*)$', body)
            if mm: pre, body = mm.group(1) + ' ', mm.group(2)
            op, _, rest = body.partition(' ')
            i.op, i.args = pre + op, split_args(re.sub(r'<[^>]*>', '', rest).strip())
            if last is not None and last.next is None: last.next = a
            self.code[a] = i; last = i
        self.syms = {}
        for l in subprocess.run(['nm', self.obj], stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n'):
            m = re.match(r'([0-9a-f]+) [Tt] (\S+)$', l)
            if m: self.syms[m.group(2)] = int(m.group(1), 16)
        # several instructions shown as "..." (zero padding) leave holes; execution never enters them
        self.cfi = self.read_cfi()
    def read_cfi(self):
        """[(lo, hi, [(addr, cfa reg, cfa off, {reg: offset})])]"""
        t = subprocess.run(['readelf', '-wF', self.obj], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
        out, cur, hdr = [], None, []
        cies, cie_rows, sec = {}, None, ''
        for l in t.split('\n'):
            m = re.match(r'Contents of the (\S+) section', l)
            if m: sec = m.group(1); cur = cie_rows = None; continue
            if sec != '.eh_frame': continue        # the only unwind table that is there at run time
            m = re.match(r'([0-9a-f]+) [0-9a-f]+ [0-9a-f]+ CIE', l)
            if m: cie_rows = []; cies[int(m.group(1), 16)] = cie_rows; cur = None; continue
            m = re.match(r'[0-9a-f]+ [0-9a-f]+ [0-9a-f]+ FDE cie=([0-9a-f]+) pc=([0-9a-f]+)\.\.([0-9a-f]+)', l)
            if m:
                cie_rows = None
                cur = [int(m.group(2), 16), int(m.group(3), 16), [], int(m.group(1), 16)]; out.append(cur); continue
            if re.match(r'\s*LOC\s+CFA', l): hdr = l.split()[2:]; continue
            m = re.match(r'([0-9a-f]{16})\s+(\w+)\+(\d+)\s+(.*)$', l)
            if m and (cur is not None or cie_rows is not None):
                rules = dict(zip(hdr, m.group(4).split()))
                row = (int(m.group(1), 16), m.group(2), int(m.group(3)), {k: int(v[1:]) for k, v in rules.items() if re.fullmatch(r'c[-+]\d+', v)})
                (cur[2] if cur is not None else cie_rows).append(row)
        for c in out:
            if not c[2] and cies.get(c[3]): r = cies[c[3]][0]; c[2].append((c[0],) + r[1:])
        return out
    def cfi_row(self, a):
        for lo, hi, rows, _ in self.cfi:
            if lo <= a < hi:
                best = None
                for r in rows:
                    if r[0] <= a: best = r
                return best
        return None

class Region:
    """memory object: symbolic base, constant offsets in [lo, hi)"""
    def __init__(self, name, base, lo, hi, write=True, init=None, limit=None):
        self.name, self.base, self.lo, self.hi, self.write, self.limit = name, base, lo, hi, write, limit
        self.f = init or (lambda o, n=name: z3.BitVec('%s[%d]' % (n, o), 8))

class AState:
    def __init__(self):
        self.r, self.x, self.st, self.mem, self.pc, self.fl = {}, {}, [], {}, [], None
        self.df = z3.BoolVal(False); self.ip = 0; self.ghost = {}; self.trail = []; self.dead = set(); self.epoch = {}; self.wrote = {}
    def fork(self):
        s = AState()
        s.r, s.x, s.st, s.mem, s.pc, s.fl, s.df, s.ip = dict(self.r), dict(self.x), list(self.st), {k: dict(v) for k, v in self.mem.items()}, list(self.pc), self.fl, self.df, self.ip
        s.ghost, s.trail, s.dead, s.epoch, s.wrote = dict(self.ghost), list(self.trail), set(self.dead), dict(self.epoch), {k: set(v) for k, v in self.wrote.items()}
        return s

CC = {'e': 'z', 'z': 'z', 'ne': '!z', 'nz': '!z', 'a': 'a', 'nbe': 'a', 'ae': '!c', 'nb': '!c', 'nc': '!c', 'b': 'c', 'c': 'c', 'nae': 'c', 'be': '!a', 'na': '!a',
      'g': 'g', 'nle': 'g', 'ge': 'ge', 'nl': 'ge', 'l': '!ge', 'nge': '!ge', 'le': '!g', 'ng': '!g', 's': 's', 'ns': '!s', 'o': 'o', 'no': '!o'}

class AExec:
    """runs a program from an entry point under a contract"""
    def __init__(self, prog, contract, timeout_ms=20000, deadline=None):
        self.p, self.c, self.timeout, self.deadline = prog, contract, timeout_ms, deadline
        self.obs, self.nq, self.tq, self.rets, self.failed, self.covered = [], 0, 0.0, 0, [], set()
        self.text = z3.BitVec('text_base', 64)
        self.regions = {}; self.backend = {}; self.log = []; self.paths = 0; self.invs = {}
    def region(self, r): self.regions[r.name] = r; return r
    # ------------------------------------------------ solver
    def solve(self, st, extra, quick=False):
        s = z3.Solver(); s.set('timeout', self.timeout)
        s.add(z3.simplify(self.text & 0xfff) == 0, z3.ULT(self.text, bv(1 << 46)), z3.UGT(self.text, bv(1 << 12)))
        for f in st.pc: s.add(f)
        s.add(extra)
        t = time.time(); r = s.check(); self.tq += time.time() - t; self.nq += 1
        self.backend['z3'] = self.backend.get('z3', 0) + 1
        return r, (s.model() if r == z3.sat else None)
    def feasible(self, st, f):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return self.solve(st, f)[0] != z3.unsat
    def ob(self, st, tag, name, f, assume=True):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        o = Ob.__new__(Ob)
        o.tag, o.name, o.trail, o.model, o.time = tag, name, ['0x%x' % a for a in st.trail[-12:]], None, 0.0
        t = time.time()
        if z3.is_true(f): o.status = 'proved'
        else:
            r, m = self.solve(st, z3.Not(f))
            o.status = 'proved' if r == z3.unsat else ('refuted' if r == z3.sat else 'unknown'); o.model = m
        o.time = time.time() - t
        self.obs.append(o)
        if o.status != 'proved': self.failed.append(o)
        if assume: st.pc.append(f)
        return o.status == 'proved'
    # ------------------------------------------------ memory
    def locate(self, st, addr):
        addr = S(addr)
        for r in self.regions.values():
            d = const(S(addr - r.base))
            if d is not None:
                if d >= 1 << 63: d -= 1 << 64
                if r.lo <= d < r.hi: return r, d
        for r in self.regions.values():            # not syntactically constant: ask the solver
            res, m = self.solve(st, z3.BoolVal(True))
            if res != z3.sat: break
            d = m.eval(addr - r.base, model_completion=True).as_long()
            if d >= 1 << 63: d -= 1 << 64
            if r.lo <= d < r.hi and self.solve(st, addr - r.base != bv(d))[0] == z3.unsat: return r, d
        return None, None
    def live(self, st, r, d, n, what):
        if r.name in st.dead: raise Fail('%s of %s, which is no longer valid' % (what, r.name))
        if d < r.lo or d + n > r.hi: raise Fail('%s of %d bytes at offset %d outside %s' % (what, n, d, r.name))
        rsp = S(st.r['rsp'])
        k = const(S(r.base + bv(d & (2**64 - 1)) - rsp))
        if k is not None:
            if k >= 1 << 63: k -= 1 << 64
            if -4096 < k < -128:
                self.ob(st, 'state', 'nothing below the red zone is used', False)
    def load(self, st, addr, n):
        r, d = self.locate(st, addr)
        if r is None:
            self.ob(st, 'memory', 'read stays inside the objects the contract grants', False); raise Stop()
        try: self.live(st, r, d, n, 'read')
        except Fail as e: self.ob(st, 'memory', str(e), False); raise Stop()
        if r.limit is not None: self.ob(st, 'memory', 'read inside %s' % r.name, z3.ULE(bv(d + n), r.limit))
        bs = [self.byte(st, r, d + i) for i in range(n)]
        return S(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
    def byte(self, st, r, o):
        m = st.mem.setdefault(r.name, {})
        if o not in m:
            e = st.epoch.get(r.name)
            lim = e is not None and (e[1] is None or o < e[1])
            m[o] = z3.BitVec('%s@%d[%d]' % (r.name, e[0], o), 8) if lim else r.f(o)
        return m[o]
    def store(self, st, addr, n, v):
        r, d = self.locate(st, addr)
        if r is None:
            self.ob(st, 'memory', 'write stays inside the objects the contract grants', False); raise Stop()
        try:
            self.live(st, r, d, n, 'write')
            if not r.write: raise Fail('write to read-only %s' % r.name)
        except Fail as e: self.ob(st, 'memory', str(e), False); raise Stop()
        if r.limit is not None: self.ob(st, 'return', 'nothing beyond the end of %s is written' % r.name, z3.ULE(bv(d + n), r.limit))
        m = st.mem.setdefault(r.name, {})
        for i in range(n):
            m[d + i] = S(z3.Extract(8*i+7, 8*i, v)) if n > 1 or v.size() > 8 else v
            st.wrote.setdefault(r.name, set()).add(d + i)
    def havoc(self, st, name, below=None):
        """everything in region `name` (below offset `below`) gets unknown content"""
        k = self.nq = self.nq + 1
        old = st.mem.get(name, {})
        prev = st.epoch.get(name)
        if below is not None and prev is not None and prev[1] is not None: below = max(below, prev[1])
        if below is None: st.mem[name] = {}
        else: st.mem[name] = {o: b for o, b in old.items() if o >= below}
        st.epoch[name] = (k, below)
    # ------------------------------------------------ operands
    def ea(self, st, a, ins):
        m = re.fullmatch(r'(?:%[defgs]s:)?(-?(?:0x)?[0-9a-f]+)?\(([^)]*)\)', a)
        if not m:
            if re.fullmatch(r'(0x)?[0-9a-f]+', a): return self.text + int(a, 16)
            raise Fail('operand ' + a)
        d = int(m.group(1), 16) if m.group(1) else 0
        parts = [x.strip() for x in m.group(2).split(',')]
        v = bv(d & (2**64-1))
        if parts[0]:
            v = v + (self.text + ins.next if parts[0] == '%rip' else self.reg(st, parts[0][1:], 64))
        if len(parts) > 1 and parts[1]: v = v + self.reg(st, parts[1][1:], 64) * (int(parts[2]) if len(parts) > 2 else 1)
        return S(v)
    def reg(self, st, name, w=None):
        b, n, lo = SUB[name]
        v = st.r[b]
        return v if n == 64 else S(z3.Extract(lo + n - 1, lo, v))
    def setreg(self, st, name, v):
        b, n, lo = SUB[name]
        if v.size() != n: raise Fail('width mismatch writing %' + name)
        if n == 64: st.r[b] = S(v)
        elif n == 32: st.r[b] = S(z3.ZeroExt(32, v))
        else:
            old = st.r[b]
            parts = []
            if lo + n < 64: parts.append(z3.Extract(63, lo + n, old))
            parts.append(v)
            if lo: parts.append(z3.Extract(lo - 1, 0, old))
            st.r[b] = S(z3.Concat(*parts))
    def width(self, ins, hint=None):
        for a in reversed(ins.args):
            if a.startswith('%') and a[1:] in SUB: return SUB[a[1:]][1]
        s = ins.op.split()[-1][-1]
        return {'b': 8, 'w': 16, 'l': 32, 'q': 64}.get(s, hint)
    def get(self, st, a, w, ins):
        if a.startswith('$'): return bv(int(a[1:], 16) & ((1 << w) - 1), w)
        if a.startswith('%') and ':' not in a: return self.reg(st, a[1:])
        return self.load(st, self.ea(st, a, ins), w // 8)
    def put(self, st, a, v, ins):
        if a.startswith('%') and ':' not in a: self.setreg(st, a[1:], v)
        else: self.store(st, self.ea(st, a, ins), v.size() // 8, v)
    def cond(self, st, cc):
        if cc == 'p' or cc == 'np': raise Fail('parity flag')
        if st.fl is None: raise Fail('flags are not defined here')
        c = CC[cc]; neg = c.startswith('!'); c = c.lstrip('!')
        Z, C, Sg, O = st.fl
        f = {'z': Z, 'c': C, 'a': z3.And(z3.Not(C), z3.Not(Z)), 's': Sg, 'o': O, 'ge': Sg == O, 'g': z3.And(z3.Not(Z), Sg == O)}[c]
        return S(z3.Not(f) if neg else f)
    def setfl(self, st, r, c, o):
        w = r.size()
        st.fl = (r == 0, c, z3.Extract(w-1, w-1, r) == 1, o)
    def sub(self, st, a, b):
        r = S(a - b); w = a.size()
        sa, sb, sr = (z3.Extract(w-1, w-1, x) for x in (a, b, r))
        self.setfl(st, r, z3.ULT(a, b), z3.And(sa != sb, sr != sa)); return r
    def add(self, st, a, b):
        r = S(a + b); w = a.size()
        sa, sb, sr = (z3.Extract(w-1, w-1, x) for x in (a, b, r))
        self.setfl(st, r, z3.ULT(r, a), z3.And(sa == sb, sr != sa)); return r
    # ------------------------------------------------ run
    def run(self):
        work = self.c.setup(self)
        for st in work: self.ob(st, 'structure', 'the precondition can be met', True); self.must_sat(st)
        steps = 0
        while work:
            st = work.pop()
            while True:
                steps += 1
                if steps > 200000: raise Fail('too many steps')
                if self.deadline and time.time() > self.deadline: raise Fail('time budget exhausted')
                try: nxt = self.step(st)
                except Stop: self.paths += 1; break
                if nxt is None: self.paths += 1; break
                if isinstance(nxt, list):
                    if not nxt: self.paths += 1; break
                    work += nxt[1:]; st = nxt[0]
                else: st = nxt
        if not self.rets: self.ob(AState(), 'structure', 'some path returns', False)
    def must_sat(self, st):
        if self.solve(st, z3.BoolVal(True))[0] == z3.unsat: raise Fail('contradictory precondition')
    def jump(self, st, t):
        """branch to symbolic address t"""
        d = const(S(t - self.text))
        if d is not None:
            if d not in self.p.code: self.ob(st, 'structure', 'jump lands on an instruction', False); raise Stop()
            st.ip = d; return [st]
        out, block = [], []
        for _ in range(300):
            r, m = self.solve(st, z3.And(*block) if block else z3.BoolVal(True))
            if r != z3.sat: break
            v = m.eval(t - self.text, model_completion=True).as_long()
            if v in self.p.code:
                s2 = st.fork(); s2.pc.append(t - self.text == bv(v)); s2.ip = v; out.append(s2)
            else:
                x = self.c.jump_out(self, st, t) if not block else None
                if x is not None: return x
                self.ob(st, 'structure', 'indirect jump lands on a table entry', z3.And(t - self.text != bv(v), *[]) if False else False); raise Stop()
            block.append(t - self.text != bv(v))
        else: raise Fail('indirect jump with too many targets')
        return out
    def step(self, st):
        i = self.p.code.get(st.ip)
        if i is None: self.ob(st, 'structure', 'execution stays inside the code', False); raise Stop()
        st.trail.append(i.addr); self.covered.add(i.addr)
        if hasattr(self.c, 'at'): self.c.at(self, st, i)
        op, A = i.op, i.args
        nx = i.next
        st.ip = nx
        if op in ('endbr64', 'pause') or op.startswith('nop') or (op == 'xchg' and A and A[0] == A[-1] and '(' not in A[0]): return st
        if op == 'cld': st.df = z3.BoolVal(False); return st
        if op == 'std': st.df = z3.BoolVal(True); return st
        if op in ('emms', 'fninit', 'finit'): st.st = []; return st
        if op == 'jmp' or op == 'jmpq':
            if i.reloc:
                return self.goto(st, i.reloc)
            if A[0].startswith('*'):
                t = self.get(st, A[0][1:], 64, i)
                return self.jump(st, t)
            st.ip = int(A[0], 16); return st
        if op[0] == 'j' and op[1:] in CC:
            c = self.cond(st, op[1:]); t = int(A[0], 16)
            out = []
            if self.feasible(st, z3.Not(c)): s2 = st.fork(); s2.pc.append(z3.Not(c)); out.append(s2)
            if self.feasible(st, c): s2 = st.fork(); s2.pc.append(c); s2.ip = t; out.append(s2)
            return out
        if op in ('call', 'callq'):
            if i.reloc: tgt = i.reloc
            elif A[0].startswith('*'): tgt = self.get(st, A[0][1:], 64, i)
            else:
                a = int(A[0], 16); tgt = [k for k, v in self.p.syms.items() if v == a]
                tgt = tgt[0] if tgt else bv(a)
            if isinstance(tgt, str) and tgt == 'abort':
                self.ob(st, 'noabort', 'abort is unreachable', False); raise Stop()
            return self.c.call(self, st, tgt, i)
        if op in ('ret', 'retq'):
            t = self.load(st, st.r['rsp'], 8)
            st.r['rsp'] = S(st.r['rsp'] + 8)
            self.rets += 1
            self.c.ret(self, st, t); return None
        if op in ('leave', 'leaveq'):
            st.r['rsp'] = st.r['rbp']; st.r['rbp'] = self.load(st, st.r['rsp'], 8); st.r['rsp'] = S(st.r['rsp'] + 8); return st
        if op in ('push', 'pushq'):
            v = self.get(st, A[0], 64, i)
            st.r['rsp'] = S(st.r['rsp'] - 8); self.store(st, st.r['rsp'], 8, v); return st
        if op in ('pop', 'popq'):
            v = self.load(st, st.r['rsp'], 8); st.r['rsp'] = S(st.r['rsp'] + 8); self.put(st, A[0], v, i); return st
        if any(a.startswith('%xmm') for a in A): return self.sse(st, i)
        if op in ('fstpt', 'fstpl', 'fstps'):
            if not st.st: self.ob(st, 'state', 'x87 stack holds what is popped', False); raise Stop()
            if op != 'fstpt': raise Fail('x87 conversion ' + op)
            self.store(st, self.ea(st, A[0], i), 10, st.st.pop()); return st
        if op == 'fldt':
            st.st.append(self.load(st, self.ea(st, A[0], i), 10))
            if len(st.st) > 8: self.ob(st, 'state', 'x87 stack does not overflow', False)
            return st
        if op == 'fstp' and A == ['%st(0)']:
            if not st.st: self.ob(st, 'state', 'x87 stack holds what is popped', False); raise Stop()
            st.st.pop(); return st
        if op in ('fxch',) and (not A or A == ['%st(1)']):
            st.st[-1], st.st[-2] = st.st[-2], st.st[-1]; return st
        if op in ('rep movsb', 'rep movsq', 'rep movsl'):
            n = {'b': 1, 'l': 4, 'q': 8}[op[-1]]
            self.ob(st, 'state', 'direction flag is clear for string moves', z3.Not(st.df))
            out, hit = [], []
            for k in range(0, 33):
                c = st.r['rcx'] == k
                hit.append(c)
                if not self.feasible(st, c): continue
                s2 = st.fork(); s2.pc.append(c)
                try:
                    for j in range(k): self.store(s2, s2.r['rdi'] + j*n, n, self.load(s2, s2.r['rsi'] + j*n, n))
                except Stop: continue
                s2.r['rdi'] = S(s2.r['rdi'] + k*n); s2.r['rsi'] = S(s2.r['rsi'] + k*n); s2.r['rcx'] = bv(0)
                out.append(s2)
            self.ob(st, 'return', 'string move count is within an aggregate returned in registers', z3.Or(*hit), assume=False)
            return out
        if op in ('cltq', 'cdqe'): st.r['rax'] = S(z3.SignExt(32, self.reg(st, 'eax'))); return st
        if op in ('cwtl', 'cwde'): self.setreg(st, 'eax', z3.SignExt(16, self.reg(st, 'ax'))); return st
        m = re.fullmatch(r'mov([sz])([bwl])([wlq])', op) or (re.fullmatch(r'mov([sz])x?d?', op) if False else None)
        if m:
            sw, dw = {'b': 8, 'w': 16, 'l': 32}[m.group(2)], {'w': 16, 'l': 32, 'q': 64}[m.group(3)]
            v = self.get(st, A[0], sw, i)
            self.put(st, A[1], S(z3.SignExt(dw - sw, v) if m.group(1) == 's' else z3.ZeroExt(dw - sw, v)), i); return st
        w = self.width(i)
        base = op
        if op.startswith('cmov'):
            c = self.cond(st, re.sub(r'[lqw]$', '', op[4:]) if op[4:] not in CC else op[4:])
            v = self.get(st, A[0], w, i); o = self.get(st, A[1], w, i); self.put(st, A[1], S(z3.If(c, v, o)), i); return st
        if op.startswith('set') and op[3:] in CC:
            self.put(st, A[0], S(z3.If(self.cond(st, op[3:]), bv(1, 8), bv(0, 8))), i); return st
        if base not in OPS and base[:-1] in OPS and base[-1] in 'bwlq': base = base[:-1]
        if base not in OPS or w is None: raise Fail('unsupported instruction: %s' % i.text)
        if base == 'lea':
            v = self.ea(st, A[0], i); self.put(st, A[1], S(z3.Extract(w-1, 0, v)) if w < 64 else v, i); return st
        if base in ('mov', 'movabs'):
            if i.reloc: raise Fail('relocated operand: ' + i.text)
            self.put(st, A[1], self.get(st, A[0], w, i), i); return st
        if base in ('cmp', 'test'):
            b, a = self.get(st, A[0], w, i), self.get(st, A[1], w, i)
            if base == 'cmp': self.sub(st, a, b)
            else: self.setfl(st, S(a & b), z3.BoolVal(False), z3.BoolVal(False))
            return st
        if base in ('inc', 'dec', 'neg', 'not'):
            a = self.get(st, A[0], w, i); C = st.fl[1] if st.fl else None
            if base == 'not': r = S(~a)
            elif base == 'neg': r = self.sub(st, bv(0, w), a)
            else:
                r = (self.add if base == 'inc' else self.sub)(st, a, bv(1, w))
                st.fl = (st.fl[0], C, st.fl[2], st.fl[3]) if C is not None else None
            self.put(st, A[0], r, i); return st
        if base in ('shl', 'sal', 'shr', 'sar'):
            if len(A) == 1: k, d = bv(1, w), A[0]
            else:
                kk = self.get(st, A[0], 8, i) if A[0] == '%cl' else self.get(st, A[0], w, i)
                k = S(z3.ZeroExt(w - kk.size(), kk) if kk.size() < w else kk) & (63 if w == 64 else 31); d = A[1]
                w = self.width(i) if not A[1].startswith('%') else SUB[A[1][1:]][1]
            a = self.get(st, d, w, i)
            r = S(a << k if base in ('shl', 'sal') else z3.LShR(a, k) if base == 'shr' else a >> k)
            self.put(st, d, r, i); st.fl = None; return st
        if base == 'xchg':
            a, b = self.get(st, A[0], w, i), self.get(st, A[1], w, i); self.put(st, A[0], b, i); self.put(st, A[1], a, i); return st
        b, a = self.get(st, A[0], w, i), self.get(st, A[1], w, i)
        if base == 'add': r = self.add(st, a, b)
        elif base == 'sub': r = self.sub(st, a, b)
        elif base == 'imul': r = S(a * b); st.fl = None
        else:
            if base == 'xor' and A[0] == A[1]: r = bv(0, w)
            else: r = S({'and': a & b, 'or': a | b, 'xor': a ^ b}[base])
            self.setfl(st, r, z3.BoolVal(False), z3.BoolVal(False))
        self.put(st, A[1], r, i); return st
    def goto(self, st, name):
        if name in self.p.syms: st.ip = self.p.syms[name]; return st
        return self.c.tail(self, st, name)
    def sse(self, st, i):
        op, A = i.op, i.args
        src, dst = A[0], A[-1]
        X = lambda a: a.startswith('%xmm')
        n = {'movdqa': 16, 'movaps': 16, 'movapd': 16, 'movdqu': 16, 'movups': 16, 'movupd': 16, 'movq': 8, 'movsd': 8, 'movlps': 8, 'movlpd': 8, 'movd': 4, 'movss': 4}.get(op.lstrip('v') if op.startswith('vmov') else op)
        if n is None:
            if op in ('pxor', 'xorps', 'xorpd') and src == dst: st.x[dst[1:]] = bv(0, 128); return st
            raise Fail('unsupported instruction: %s' % i.text)
        if op in ('movdqa', 'movaps', 'movapd'):
            for a in A:
                if not X(a): self.ob(st, 'state', 'aligned vector access is aligned', self.ea(st, a, i) & 15 == 0)
        if X(dst):
            old = st.x[dst[1:]]
            if X(src):
                v = st.x[src[1:]]
                if n == 16: st.x[dst[1:]] = v
                elif op in ('movsd', 'movss'): st.x[dst[1:]] = S(z3.Concat(z3.Extract(127, 8*n, old), z3.Extract(8*n-1, 0, v)))
                else: st.x[dst[1:]] = S(z3.ZeroExt(128 - 8*n, z3.Extract(8*n-1, 0, v)))
            elif src.startswith('%'):
                v = self.reg(st, src[1:]); st.x[dst[1:]] = S(z3.ZeroExt(128 - v.size(), v))
            else:
                v = self.load(st, self.ea(st, src, i), n)
                st.x[dst[1:]] = S(z3.Concat(z3.Extract(127, 64, old), v) if op in ('movlps', 'movlpd') else (z3.ZeroExt(128 - 8*n, v) if n < 16 else v))
        else:
            v = st.x[src[1:]]
            if dst.startswith('%'):
                w = SUB[dst[1:]][1]; self.setreg(st, dst[1:], S(z3.Extract(w-1, 0, v)))
            else: self.store(st, self.ea(st, dst, i), n, S(z3.Extract(8*n-1, 0, v)) if n < 16 else v)
        return st
OPS = {'mov', 'movabs', 'lea', 'add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'inc', 'dec', 'neg', 'not', 'shl', 'sal', 'shr', 'sar', 'imul', 'xchg'}
