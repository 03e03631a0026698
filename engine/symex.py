"""Symbolic executor for LLVM IR.  IR functions are translated to Python code on first call; all
control flow is concrete in Python, symbolic branches are decided by z3 and explored by
re-execution with a decision prefix (depth first, every feasible branch)."""
import math, re, struct, sys, time, subprocess
from fractions import Fraction
import z3
import irparse as ir
import reals as rl

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
LLVM = '/usr/lib/llvm-18/bin/'

class PathEnd(Exception): pass            # assume(false) / path finished early
class Infeasible(Exception): pass
class Unsupported(Exception): pass
class MemError(Exception): pass
class Budget(Exception): pass
class Terminate(Exception): pass
class CxxExc(Exception):
    def __init__(self, ptr, ti): self.ptr = ptr; self.ti = ti

class Obj:
    __slots__ = ('size', 'data', 'init', 'cells', 'kind')

FP64 = z3.Float64()
RNE = z3.RNE()

def s64(x): return x - (1 << 64) if x >> 63 else x
def sx(x, n): return x - (1 << n) if x >> (n - 1) else x

def tofloat(n, d):
    try: return float(Fraction(n, d))
    except OverflowError: return math.inf if n > 0 else -math.inf

class Engine:
    def __init__(self, module, mode, log=None):
        self.m = module
        self.mode = mode
        self.log = log or (lambda *a: None)
        self.NS = {}
        self.faddr = {}        # name -> addr
        self.fbyaddr = {}
        self.gaddr_ = {}
        self.gtemplate = []
        self.dem = {}
        self.executed = set()
        self.C = [0]
        self.limit = 40_000_000
        self.deadline = None
        self.low = rl.Lower()
        self.stats = dict(paths=0, forks=0, queries=0, q_sat=0, q_unsat=0, q_unknown=0, solver_s=0.0,
                          asserts=0, discharged=0, instr=0, infeasible=0)
        self.feas_timeout = 4000
        self.assert_timeout = 60000
        self.absvar = False
        self.on_finding = None; self.t_found = 0; self.after_finding = 90
        self.assert_ids = {}; self.undecided = {}; self.reach = {}
        self.externs = {}
        self.extern_patterns = []
        self._layout()
        import externs
        externs.install(self)
        self._ns_base()

    # ------------------------------------------------------------------ layout
    def _layout(self):
        m = self.m
        n = 0x40000000
        names = list(m.funcs) + list(m.decls)
        for f in names:
            a = n << 32; n += 1
            self.faddr[f] = a; self.fbyaddr[a] = f
        self.nextf = n
        # aliases are resolved in global_addr
        n = 0x20000000
        for g in m.globals.values():
            self.gaddr_[g.name] = n << 32; n += 1
        self.nextg = n
        out = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(names, out): self.dem[a] = b

    def new_function(self, name, pyfn):
        a = self.nextf << 32; self.nextf += 1
        self.faddr[name] = a; self.fbyaddr[a] = name
        self.externs[name] = pyfn
        return a

    def addr_of(self, name):
        if name in self.gaddr_: return self.gaddr_[name]
        if name in self.faddr: return self.faddr[name]
        if name in self.m.aliases:
            return self.const(self.m.aliases[name], ir.PTR)
        raise Unsupported('global @' + name)

    # constant evaluation (ints / pointers / floats)
    def const(self, v, ty):
        k = v[0]
        if k == 'i': return v[1]
        if k == 'g': return self.addr_of(v[1])
        if k == 'f':
            if isinstance(v[1], tuple): return v[1]
            return self.fconst(v[1]) if ty == ir.F64 else v[1]
        if k in ('undef', 'zero'): return self.zero(v[1])
        if k == 'cgep':
            base = self.const(v[2][0][1], ir.PTR)
            return (base + self.gep_const(v[1], [(t, self.const(x, t)) for t, x in v[2][1:]])) & M64
        if k == 'ccast':
            x = self.const(v[3], v[2])
            if v[1] in ('trunc', 'ptrtoint'): return x & ((1 << v[4][1]) - 1)
            if v[1] == 'sext': return sx(x, v[2][1]) & ((1 << v[4][1]) - 1)
            return x
        if k == 'cbin':
            a = self.const(v[3], v[2]); b = self.const(v[4], v[2]); w = v[2][1]; M = (1 << w) - 1
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                    'shl': a << min(b, w), 'lshr': a >> b, 'ashr': sx(a, w) >> b}[v[1]] & M
        if k == 'cicmp':
            a = self.const(v[3], v[2]); b = self.const(v[4], v[2])
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[v[1]] * 1
        if k == 'agg':
            return tuple(self.const(x, t) for t, x in v[1])
        raise Unsupported('const %r' % (v,))

    def zero(self, t):
        if t[0] == 's': return tuple(self.zero(x) for x in t[1])
        if t[0] in ('a', 'v'): return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t == ir.F64: return self.fconst(0.0)
        if t[0] == 'f': return 0.0
        return 0

    def gep_const(self, t, idx):
        off = 0
        first = True
        for (it, i) in idx:
            w = it[1] if it[0] == 'i' else 64
            i = sx(i, w)
            if first:
                off += i * ir.size_align(t)[0]; first = False
            elif t[0] == 's':
                off += ir.field_offset(t, i); t = t[1][i]
            else:
                t = t[2]; off += i * ir.size_align(t)[0]
        return off

    def fconst(self, x):
        if self.mode == 'real': return rl.lift(x)
        return x

    # single precision: a float is the double of the same value; every operation rounds its result
    f32used = False
    def f64(self, x):
        return self.fconst(x) if type(x) is float else x

    def f32(self, x):
        if type(x) is Fraction: x = float(x)
        if type(x) is float:
            if math.isnan(x) or math.isinf(x): return x
            try: return struct.unpack('<f', struct.pack('<f', x))[0]
            except OverflowError: return math.copysign(math.inf, x)
        self.f32used = True
        if self.mode != 'real': return z3.fpToFP(RNE, z3.fpToFP(RNE, x, z3.Float32()), FP64)
        y = self.f32cache.get(x.id)
        if y is None:   # round to nearest: the value times 1+d with |d| <= 2^-24
            d = self.new_double('f32_rounding', -2.0 ** -24, 2.0 ** -24)
            y = self.f32cache[x.id] = rl.mul(x, rl.add(Fraction(1), d))
            self.f32cache[y.id if type(y) is rl.R else x.id] = y
        return y

    # ------------------------------------------------------------------ memory
    def build_globals(self):
        tmpl = {}
        for g in self.m.globals.values():
            o = Obj()
            sz = ir.size_align(g.ty)[0]
            if g.external: sz = max(sz, 1024)
            o.size = sz; o.data = bytearray(sz); o.init = bytearray(b'\1' * sz); o.cells = {}; o.kind = 'const' if g.const else 'global'
            if g.init is not None: self.write_const(o, 0, g.ty, g.init)
            if g.external and g.name.startswith('_ZTTNSt7__cxx1119basic_ostringstream'):
                # construction vtables of a string stream: only the offset of the virtual base is ever read
                o.data[512 - 24:512 - 16] = (112).to_bytes(8, 'little')
                for i in range(4): o.data[8 * i:8 * i + 8] = (self.gaddr_[g.name] + 512).to_bytes(8, 'little')
            tmpl[self.gaddr_[g.name] >> 32] = o
        for name, o in getattr(self, 'extra_globals', {}).items():
            tmpl[self.gaddr_[name] >> 32] = o
        self.tmpl = tmpl

    def write_const(self, o, off, t, v):
        k = v[0]
        if k in ('zero', 'undef'): return
        if k == 'bytes':
            o.data[off:off + len(v[1])] = v[1]; return
        if k == 'agg':
            if t[0] == 's':
                for i, (ft, fv) in enumerate(v[1]): self.write_const(o, off + ir.field_offset(t, i), ft, fv)
            else:
                es = ir.size_align(t[2])[0]
                for i, (ft, fv) in enumerate(v[1]): self.write_const(o, off + i * es, ft, fv)
            return
        x = self.const(v, t)
        if t == ir.F64:
            self.put_double(o, off, x)
        elif t == ir.F32:
            o.data[off:off + 4] = struct.pack('<f', x)
        elif t[0] == 'f':
            pass
        else:
            n = ir.size_align(t)[0]
            o.data[off:off + n] = int(x).to_bytes(n, 'little')

    def put_double(self, o, off, x):
        if type(x) is float:
            if o.cells: self.kill(o, off, 8)
            o.data[off:off + 8] = struct.pack('<d', x)
        else:
            if o.cells: self.kill(o, off, 8)
            o.cells[off] = (8, x)

    def kill(self, o, off, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            del cells[off]; return
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                if (k < off or k + c[0] > off + n):
                    # partial overwrite: split what remains into bytes when possible
                    self.spill(o, k)
                    for j in range(max(off, k), min(off + n, k + c[0])): cells.pop(j, None)
                else:
                    del cells[k]

    def spill(self, o, k):
        n, x = o.cells.pop(k)
        b = self.to_bits(x, n * 8)
        if type(b) is int:
            o.data[k:k + n] = b.to_bytes(n, 'little')
        else:
            for i in range(n):
                o.cells[k + i] = (1, z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)))

    def to_bits(self, x, w):
        """value stored in memory -> int or BV of width w"""
        if type(x) is int: return x
        if isinstance(x, z3.BitVecRef): return x
        if isinstance(x, z3.BoolRef): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if type(x) is float: return struct.unpack('<Q', struct.pack('<d', x))[0]
        if type(x) is Fraction:
            f = float(x)
            return struct.unpack('<Q', struct.pack('<d', f))[0]
        if isinstance(x, z3.FPRef): return z3.fpToIEEEBV(x if w == 64 else z3.fpToFP(RNE, x, z3.Float32()))
        raise Unsupported('bits of symbolic real')

    def alloc(self, size, kind='heap', init=0):
        if type(size) is not int: size = self.concretize(size)
        if size > 1 << 28: raise Unsupported('allocation of %d bytes' % size)
        i = self.nexto; self.nexto += 1
        o = Obj(); o.size = size; o.data = bytearray(size); o.init = bytearray(size) if not init else bytearray(b'\1' * size)
        o.cells = {}; o.kind = kind
        self.mem[i] = o
        return i << 32

    def free(self, p):
        if type(p) is not int: p = self.concretize(p)
        if p == 0: return
        o = self.mem.get(p >> 32)
        if o is None or (p & 0xffffffff) or o.kind != 'heap':
            raise MemError('invalid free')
        del self.mem[p >> 32]

    def memerr(self, what, addr):
        raise MemError('%s at 0x%x (%s)' % (what, addr, 'null' if addr < 0x10000 else 'unmapped' if (addr >> 32) not in self.mem else 'out of bounds, object size %d' % self.mem[addr >> 32].size))

    def ld(self, addr, n):
        if type(addr) is not int: addr = self.concretize(addr)
        o = self.mem.get(addr >> 32); off = addr & 0xffffffff
        if o is None or off + n > o.size: self.memerr('load', addr)
        if o.cells:
            c = o.cells.get(off)
            if c is not None and c[0] == n: return c[1]
            for k in range(off - 15, off + n):
                c = o.cells.get(k)
                if c is not None and k + c[0] > off:
                    return self.ld_slow(o, off, n)
        return int.from_bytes(o.data[off:off + n], 'little')

    def ld_slow(self, o, off, n):
        for k in list(range(off - 15, off + n)):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off and c[0] > 1:
                self.spill(o, k)
        parts = []
        for i in range(n):
            c = o.cells.get(off + i)
            parts.append(z3.BitVecVal(o.data[off + i], 8) if c is None else c[1])
        if all(not isinstance(p, z3.BitVecRef) for p in parts):
            return int.from_bytes(o.data[off:off + n], 'little')
        r = z3.simplify(z3.Concat(*reversed(parts)) if n > 1 else parts[0])
        if isinstance(r, z3.BitVecNumRef): return r.as_long()
        return r

    def ld_i(self, addr, n, w):
        v = self.ld(addr, n)
        if type(v) is int: return v
        if isinstance(v, z3.BoolRef):
            if w == 1: return v
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, z3.BitVecRef):
            if v.size() != w:
                return self.mktrunc(v, v.size(), w)
            return v
        return v   # double bits kept opaque

    def ld_d(self, addr):
        if type(addr) is not int: addr = self.concretize(addr)
        o = self.mem.get(addr >> 32); off = addr & 0xffffffff
        if o is None or off + 8 > o.size: self.memerr('load', addr)
        c = o.cells.get(off)
        if c is not None and c[0] == 8:
            x = c[1]
            if isinstance(x, z3.BitVecRef):
                if self.mode == 'real': raise Unsupported('bits to real')
                return z3.fpBVToFP(x, FP64)
            return x
        v = self.ld(addr, 8)
        if type(v) is not int:
            if self.mode == 'real': raise Unsupported('bits to real')
            return z3.fpBVToFP(v, FP64)
        if v == 0 and 0 in o.init[off:off + 8]:
            return self.fresh_uninit(addr)
        return self.fconst(struct.unpack('<d', v.to_bytes(8, 'little'))[0])

    def fresh_uninit(self, addr):
        x = self.new_double('uninit')
        o = self.mem[addr >> 32]; off = addr & 0xffffffff
        self.put_double(o, off, x); o.init[off:off + 8] = b'\1' * 8
        return x

    def st_i(self, addr, x, n):
        if type(addr) is not int: addr = self.concretize(addr)
        o = self.mem.get(addr >> 32); off = addr & 0xffffffff
        if o is None or off + n > o.size: self.memerr('store', addr)
        if o.kind == 'const': self.memerr('store to constant', addr)
        if o.cells: self.kill(o, off, n)
        if type(x) is int:
            o.data[off:off + n] = x.to_bytes(n, 'little')
        else:
            if isinstance(x, z3.BoolRef) and n == 1:
                x = z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif isinstance(x, z3.BitVecRef) and x.size() != 8 * n:
                x = z3.ZeroExt(8 * n - x.size(), x)
            o.cells[off] = (n, x)
        o.init[off:off + n] = b'\1' * n

    def st_d(self, addr, x):
        if type(addr) is not int: addr = self.concretize(addr)
        o = self.mem.get(addr >> 32); off = addr & 0xffffffff
        if o is None or off + 8 > o.size: self.memerr('store', addr)
        if o.kind == 'const': self.memerr('store to constant', addr)
        if type(x) is int: x = self.fconst(struct.unpack('<d', x.to_bytes(8, 'little'))[0])
        self.put_double(o, off, x)
        o.init[off:off + 8] = b'\1' * 8

    def ld_t(self, addr, t):
        k = t[0]
        if k == 'i': return self.ld_i(addr, ir.size_align(t)[0], t[1])
        if k == 'ptr': return self.ld_i(addr, 8, 64)
        if t == ir.F64: return self.ld_d(addr)
        if t == ir.F32:
            v = self.ld(addr, 4)
            if type(v) is int: return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
            if isinstance(v, z3.BitVecRef):
                if self.mode == 'real': raise Unsupported('bits to real')
                return z3.fpToFP(RNE, z3.fpBVToFP(v, z3.Float32()), FP64)
            return v
        if k == 's': return tuple(self.ld_t(addr + ir.field_offset(t, i), ft) for i, ft in enumerate(t[1]))
        if k in ('a', 'v'):
            es = ir.size_align(t[2])[0]
            return tuple(self.ld_t(addr + i * es, t[2]) for i in range(t[1]))
        raise Unsupported('load %r' % (t,))

    def st_t(self, addr, x, t):
        k = t[0]
        if k == 'i': self.st_i(addr, x, ir.size_align(t)[0])
        elif k == 'ptr': self.st_i(addr, x, 8)
        elif t == ir.F64: self.st_d(addr, x)
        elif t == ir.F32:
            if type(x) is float: self.st_i(addr, struct.unpack('<I', struct.pack('<f', x))[0], 4)
            else:
                self.st_i(addr, 0, 4)
                self.mem[addr >> 32].cells[addr & 0xffffffff] = (4, x)
        elif k == 's':
            for i, ft in enumerate(t[1]): self.st_t(addr + ir.field_offset(t, i), x[i], ft)
        elif k in ('a', 'v'):
            es = ir.size_align(t[2])[0]
            for i in range(t[1]): self.st_t(addr + i * es, x[i], t[2])
        else: raise Unsupported('store %r' % (t,))

    def memcpy(self, d, s, n):
        d = self.ci(d); s = self.ci(s); n = self.ci(n)
        if n == 0: return d
        so = self.mem.get(s >> 32); do = self.mem.get(d >> 32)
        a = s & 0xffffffff; b = d & 0xffffffff
        if so is None or a + n > so.size: self.memerr('memcpy read', s)
        if do is None or b + n > do.size: self.memerr('memcpy write', d)
        if do.kind == 'const': self.memerr('store to constant', d)
        cs = []
        if so.cells:
            for k in sorted(so.cells):
                c = so.cells.get(k)
                if c is None: continue
                if k + c[0] <= a or k >= a + n: continue
                if k < a or k + c[0] > a + n:
                    self.spill(so, k)
            cs = [(k - a, c) for k, c in so.cells.items() if a <= k and k + c[0] <= a + n]
        data = bytes(so.data[a:a + n]); ini = bytes(so.init[a:a + n])
        if do.cells:
            for k in sorted(do.cells):
                c = do.cells.get(k)
                if c is None or k + c[0] <= b or k >= b + n: continue
                if k < b or k + c[0] > b + n: self.spill(do, k)
            for k in [k for k, c in do.cells.items() if b <= k < b + n]: del do.cells[k]
        do.data[b:b + n] = data; do.init[b:b + n] = ini
        for k, c in cs: do.cells[b + k] = c
        return d

    def memset(self, d, v, n):
        d = self.ci(d); v = self.ci(v); n = self.ci(n)
        if n == 0: return d
        o = self.mem.get(d >> 32); off = d & 0xffffffff
        if o is None or off + n > o.size: self.memerr('memset', d)
        if o.cells:
            for k in sorted(o.cells):
                c = o.cells.get(k)
                if c is None or k + c[0] <= off or k >= off + n: continue
                if k < off or k + c[0] > off + n:
                    self.spill(o, k)
                    for j in range(max(off, k), min(off + n, k + c[0])): o.cells.pop(j, None)
                else: del o.cells[k]
        o.data[off:off + n] = bytes([v & 255]) * n
        o.init[off:off + n] = b'\1' * n
        return d

    def cstr(self, p):
        o = self.mem.get(p >> 32); off = p & 0xffffffff
        if o is None: self.memerr('string read', p)
        e = o.data.find(b'\0', off)
        if e < 0: self.memerr('unterminated string', p)
        return bytes(o.data[off:e])

    # ------------------------------------------------------------------ symbolic core
    def ci(self, x):
        return x if type(x) is int else self.concretize(x)

    def concretize(self, x):
        if isinstance(x, z3.BoolRef): return self.fork(x)
        if isinstance(x, z3.BitVecRef):
            x = z3.simplify(x)
            if isinstance(x, z3.BitVecNumRef): return x.as_long()
            while True:
                # prefix replay: decisions carry the value
                if self.pos < len(self.prefix):
                    d = self.prefix[self.pos]
                    if isinstance(d, tuple) and d[0] == 'ne':
                        self.pos += 1
                        self.trace.append(d); self.add(x != d[1]); continue
                    if isinstance(d, tuple) and d[0] == 'eq':
                        self.pos += 1
                        self.trace.append(d); self.add(x == d[1]); return d[1]
                    raise Unsupported('replay divergence')
                r, m = self.check([])
                if r != z3.sat: raise Unsupported('concretize: %s' % r)
                v = m.eval(x, model_completion=True).as_long()
                r2, _ = self.check([x != v])
                if r2 != z3.unsat:
                    self.worklist.append(self.trace + [('ne', v)])
                    self.stats['forks'] += 1
                self.pos += 1
                self.prefix = self.prefix + [('eq', v)]
                self.trace.append(('eq', v)); self.add(x == v)
                return v
        if type(x) in (Fraction, float): return self.to_bits(x, 64)
        raise Unsupported('concretize %r' % (x,))

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self.model = None if self.model is None else self.model_ok(c)

    def model_ok(self, c):
        try:
            v = self.model.eval(c, model_completion=True)
            return self.model if z3.is_true(v) else None
        except z3.Z3Exception:
            return None

    def side(self, used):
        for k, c in self.low.side(used):
            key = (k, c.get_id())
            if key not in self.sided:
                self.sided.add(key)
                self.pc.append(c); self.solver.add(c); self.model = None
                self.sides.append(c)

    def check(self, extra, timeout=None, model=True):
        t = time.time()
        st = self.stats
        st['queries'] += 1
        s = self.solver
        s.set('timeout', timeout or self.feas_timeout)
        s.push()
        try:
            for e in extra: s.add(e)
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception as e:
            r = z3.unknown; m = None
        finally:
            s.pop()
        if r == z3.unknown and self.mode == 'real':
            try:
                s2 = z3.Tactic('qfnra-nlsat').solver()
                s2.set('timeout', timeout or self.feas_timeout)
                for c in self.pc: s2.add(c)
                for e in extra: s2.add(e)
                r = s2.check()
                m = s2.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown; m = None
        st['solver_s'] += time.time() - t
        st['q_sat' if r == z3.sat else 'q_unsat' if r == z3.unsat else 'q_unknown'] += 1
        return r, m

    def fork(self, cond):
        """decide a symbolic condition on this path; returns 0/1"""
        if type(cond) is int: return cond
        if isinstance(cond, z3.BitVecRef):
            cond = cond != 0
        s = z3.simplify(cond)
        if z3.is_true(s): return 1
        if z3.is_false(s): return 0
        k = s.get_id()
        d = self.known.get(k)
        if d is not None: return d[0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
            if isinstance(d, tuple): raise Unsupported('replay divergence')
        else:
            if self.deadline and time.time() > self.deadline: raise Budget('time')
            canT = canF = None
            if self.model is not None:
                v = self.model.eval(s, model_completion=True)
                if z3.is_true(v): canT = True
                elif z3.is_false(v): canF = True
            if canT is None:
                r, m = self.check([s])
                canT = r != z3.unsat
                if m is not None and self.model is None: self.model = m
            if canF is None:
                r, m = self.check([z3.Not(s)])
                canF = r != z3.unsat
            if canT and canF:
                self.worklist.append(self.trace + [0])
                self.stats['forks'] += 1
                d = 1
            elif canT: d = 1
            elif canF: d = 0
            else: raise Infeasible()
            self.prefix = self.prefix + [d]; self.pos += 1
        self.trace.append(d)
        self.known[k] = (d, s)
        ns = z3.simplify(z3.Not(s)); self.known[ns.get_id()] = (1 - d, ns)
        self.add(s if d else z3.Not(s))
        return d

    # --- variables
    def uname(self, name):
        c = self.counts.get(name, 0); self.counts[name] = c + 1
        return name if c == 0 else '%s#%d' % (name, c)

    def new_double(self, name, lo=None, hi=None, lo_open=False):
        n = self.uname(name)
        if self.mode == 'real':
            sign = None
            if lo is not None:
                if lo > 0 or (lo == 0 and lo_open): sign = 'pos'
                elif lo == 0: sign = 'nonneg'
            x = rl.var(n, sign)
            z = z3.Real(n)
            self.vars.append((n, 'real', z, lo, hi, lo_open))
            if lo is not None: self.add(z > z3.RealVal(str(Fraction(lo))) if lo_open else z >= z3.RealVal(str(Fraction(lo))))
            if hi is not None: self.add(z <= z3.RealVal(str(Fraction(hi))))
            return x
        z = z3.FP(n, FP64)
        self.vars.append((n, 'fp', z, lo, hi, lo_open))
        if lo is not None or hi is not None:
            self.add(z3.Not(z3.fpIsNaN(z)))
        if lo is not None:
            l = z3.FPVal(float(lo), FP64)
            self.add(z3.fpGT(z, l) if lo_open else z3.fpGEQ(z, l))
        if hi is not None: self.add(z3.fpLEQ(z, z3.FPVal(float(hi), FP64)))
        return z

    def new_bv(self, name, w):
        n = self.uname(name)
        z = z3.BitVec(n, w)
        self.vars.append((n, 'bv', z, None, None, False))
        return z

    # --- reals/FP to z3
    def zr(self, x):
        used = set()
        z = self.low.lower(x, used)
        self.side(used)
        return z

    def zf(self, x):
        if type(x) is float: return z3.FPVal(x, FP64)
        if type(x) is int: return z3.FPVal(float(x), FP64)
        if type(x) is Fraction: return z3.FPVal(float(x), FP64)
        return x

    # --- float ops
    rnd = False   # mixed arithmetic: results of concrete operands are rounded to double, symbolic terms stay real
    def fbin(self, op, a, b):
        if self.mode == 'real':
            if self.rnd and type(a) is Fraction and type(b) is Fraction:
                a = float(a); b = float(b)
                try: return rl.lift({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]())
                except (ZeroDivisionError, OverflowError): raise Unsupported('concrete division by zero')
            if type(a) is int: a = self.from_bits(a)
            if type(b) is int: b = self.from_bits(b)
            if op == '+': return rl.add(a, b)
            if op == '-': return rl.sub(a, b)
            if op == '*':
                return rl.mul(a, b)
            if op == '/':
                self.nonzero(b)
                return rl.div(a, b)
            raise Unsupported('frem')
        if type(a) is float and type(b) is float:
            try:
                if op == '+': return a + b
                if op == '-': return a - b
                if op == '*': return a * b
                if op == '/':
                    if b == 0:
                        if a == 0 or math.isnan(a): return math.nan
                        return math.copysign(math.inf, a) * math.copysign(1.0, b)
                    return a / b
                return math.fmod(a, b)
            except OverflowError:
                raise Unsupported('overflow')
        if op in '*/':
            # exact rewrites: +-1, division by a power of two, a choice between constants
            if op == '*' and type(b) is float: a, b = b, a
            if op == '*' and type(a) is float:
                if a == 1.0: return b
                if a == -1.0: return self.fneg(b)
            if op == '/' and type(b) is float:
                if b == 1.0: return a
                if b == -1.0: return self.fneg(a)
                if b and abs(math.frexp(b)[0]) == 0.5 and 1e-300 < abs(b) < 1e300: op = '*'; a, b = 1.0 / b, a
            if op == '*':
                for u, v in ((a, b), (b, a)):
                    if z3.is_expr(u) and z3.is_app_of(u, z3.Z3_OP_ITE):
                        k = [self.zfval(u.arg(i)) for i in (1, 2)]
                        if None not in k: return z3.If(u.arg(0), self.zf(self.fbin('*', k[0], v)), self.zf(self.fbin('*', k[1], v)))
        a = self.zf(a); b = self.zf(b)
        if op == '+': return z3.fpAdd(RNE, a, b)
        if op == '-': return z3.fpSub(RNE, a, b)
        if op == '*': return z3.fpMul(RNE, a, b)
        if op == '/': return z3.fpDiv(RNE, a, b)
        return z3.fpRem(a, b)

    def zfval(self, e):
        """The double a z3 constant denotes, or None."""
        if not z3.is_fp_value(e): return None
        if e.isNaN(): return math.nan
        return struct.unpack('<d', z3.simplify(z3.fpToIEEEBV(e)).as_long().to_bytes(8, 'little'))[0]

    def from_bits(self, x):
        return self.fconst(struct.unpack('<d', x.to_bytes(8, 'little'))[0])

    def nonzero(self, b):
        """Real mode: a division by b happens.  b == 0 feasible => candidate finding, then assume b != 0."""
        if type(b) is not rl.R: return
        if b.id in self.nzknown: return
        try:
            p = rl.clear_zero(rl.nf(b))
            if not p: raise rl.NonFinite('division by zero')
            if len(p) == 1:
                (m, c), = p.items()
                if all(rl.BYID[i].pos == 'pos' or rl.BYID[i].kind == 'E' for i, e in m):
                    self.nzknown.add(b.id); return
        except rl.TooBig: pass
        z = self.zr(b)
        r, mod = self.check([z == 0])
        if r != z3.unsat:
            self.domain_candidate('division by zero', z == 0, mod)
        self.nzknown.add(b.id)
        self.add(z != 0)

    def domain_candidate(self, what, cond, model):
        self.report('domain', what, model, [cond], certain=False)

    def fneg(self, a):
        if self.mode == 'real': return rl.neg(a) if type(a) is not float else -a
        if type(a) is float: return -a
        if a.decl().kind() == z3.Z3_OP_FPA_SUB:   # -(x-y) is y-x unless that is zero
            d = z3.fpSub(RNE, a.arg(2), a.arg(1))
            return z3.If(z3.fpIsZero(d), z3.fpNeg(a), d)
        return z3.fpNeg(a)

    def fsqrt(self, a):
        if self.mode == 'real':
            if self.rnd and type(a) is Fraction and a >= 0: return rl.lift(math.sqrt(float(a)))
            if type(a) is rl.R:
                try:
                    p = rl.nf(a)
                    if not p: return rl.F0
                except rl.TooBig: pass
                z = self.zr(a)
                r, m = self.check([z < 0])
                if r != z3.unsat:
                    self.domain_candidate('square root of a negative number', z < 0, m)
                    self.add(z >= 0)
            return rl.sqrt(a)
        if type(a) is float: return math.sqrt(a) if a >= 0 else math.nan
        return z3.fpSqrt(RNE, a)

    def fexp(self, a):
        if self.mode == 'real':
            if self.rnd and type(a) is Fraction: return rl.lift(math.exp(float(a)))
            return rl.exp(a)
        if type(a) is float:
            try: return math.exp(a)
            except OverflowError: return math.inf
        return self.uf('exp', a)

    def flog(self, a):
        if self.mode == 'real':
            if self.rnd and type(a) is Fraction and a > 0: return rl.lift(math.log(float(a)))
            if type(a) is rl.R:
                if a.op != 'exp':
                    pos = False
                    try:
                        p = rl.clear_zero(rl.nf(a))
                        if len(p) == 1:
                            (mm, c), = p.items()
                            pos = c > 0 and all(rl.BYID[i].pos == 'pos' or rl.BYID[i].kind == 'E' for i, e in mm)
                    except rl.TooBig: pass
                    if not pos:
                        z = self.zr(a)
                        r, m = self.check([z <= 0])
                        if r != z3.unsat:
                            self.domain_candidate('logarithm of a non-positive number', z <= 0, m)
                            self.add(z > 0)
            return rl.log(a)
        if type(a) is float:
            return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)
        return self.uf('log', a)

    def fpow(self, a, b):
        if self.mode == 'real':
            if type(b) is Fraction and b.denominator == 1 and abs(b) <= 64:
                if b < 0: self.nonzero(a)
                return rl.ipow(a, int(b))
            if type(b) is Fraction and b == Fraction(1, 2): return self.fsqrt(a)
            return self.fexp(rl.mul(b, self.flog(a)))
        if type(a) is float and type(b) is float:
            try: return math.pow(a, b)
            except (OverflowError, ValueError): return math.nan
        if type(b) is float and b == int(b) and 0 <= b <= 8:
            r = 1.0
            for _ in range(int(b)): r = self.fbin('*', r, a)
            return r
        raise Unsupported('pow')

    def uf(self, name, a):
        f = z3.Function('uf_' + name, FP64, FP64)
        return f(a)

    FCMP = {'oeq': ('==', 0), 'ogt': ('>', 0), 'oge': ('>=', 0), 'olt': ('<', 0), 'ole': ('<=', 0), 'one': ('!=', 0),
            'ueq': ('==', 1), 'ugt': ('>', 1), 'uge': ('>=', 1), 'ult': ('<', 1), 'ule': ('<=', 1), 'une': ('!=', 1)}

    def fcmp(self, pred, a, b):
        if pred == 'true': return 1
        if pred == 'false': return 0
        if self.mode == 'real':
            if type(a) is int: a = self.from_bits(a)
            if type(b) is int: b = self.from_bits(b)
            sa = type(a) is rl.R; sb = type(b) is rl.R
            nan = (type(a) is float and math.isnan(a)) or (type(b) is float and math.isnan(b))
            if pred == 'ord': return 0 if nan else 1
            if pred == 'uno': return 1 if nan else 0
            op, un = self.FCMP[pred]
            if nan: return un
            if not sa and not sb:
                return int({'==': a == b, '>': a > b, '>=': a >= b, '<': a < b, '<=': a <= b, '!=': a != b}[op])
            if type(a) is float or type(b) is float:
                # comparison of a finite symbolic with +-inf
                x = 0.0 if sa else a; y = 0.0 if sb else b
                return int({'==': x == y, '>': x > y, '>=': x >= y, '<': x < y, '<=': x <= y, '!=': x != y}[op])
            if a is b: return int(op in ('==', '>=', '<='))
            try:
                d = rl.nf(rl.sub(a, b))
                if not d: return int(op in ('==', '>=', '<='))
                if len(d) == 1 and () in d:
                    c = d[()]
                    return int({'==': c == 0, '>': c > 0, '>=': c >= 0, '<': c < 0, '<=': c <= 0, '!=': c != 0}[op])
                used = set(); z = self.low.poly(d, used); self.side(used)
                zero = z3.RealVal(0)
                return {'==': z == zero, '>': z > zero, '>=': z >= zero, '<': z < zero, '<=': z <= zero, '!=': z != zero}[op]
            except rl.TooBig:
                x = self.zr(a); y = self.zr(b)
                return {'==': x == y, '>': x > y, '>=': x >= y, '<': x < y, '<=': x <= y, '!=': x != y}[op]
        if type(a) is int: a = self.from_bits(a)
        if type(b) is int: b = self.from_bits(b)
        if type(a) is float and type(b) is float:
            nan = math.isnan(a) or math.isnan(b)
            if pred == 'ord': return 0 if nan else 1
            if pred == 'uno': return 1 if nan else 0
            op, un = self.FCMP[pred]
            if nan: return un
            return int({'==': a == b, '>': a > b, '>=': a >= b, '<': a < b, '<=': a <= b, '!=': a != b}[op])
        a = self.zf(a); b = self.zf(b)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'ord': return z3.Not(nan)
        if pred == 'uno': return nan
        op, un = self.FCMP[pred]
        f = {'==': z3.fpEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '<': z3.fpLT, '<=': z3.fpLEQ}
        if op == '!=':
            c = z3.Not(z3.fpEQ(a, b)) if un else z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))
            return c
        c = f[op](a, b)
        return z3.Or(nan, c) if un else c

    # --- int ops (symbolic slow paths)
    def bv(self, x, w):
        if type(x) is int: return z3.BitVecVal(x, w)
        if isinstance(x, z3.BoolRef):
            return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(x, z3.BitVecRef): return x
        b = self.to_bits(x, w)
        return z3.BitVecVal(b, w) if type(b) is int else b

    def fold(self, x):
        s = z3.simplify(x)
        if isinstance(s, z3.BitVecNumRef): return s.as_long()
        if z3.is_true(s): return 1
        if z3.is_false(s): return 0
        return s

    def ibin(self, op, a, b, w):
        M = (1 << w) - 1
        if type(a) is int and type(b) is int:
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sx(a, w) >> min(b, w - 1)) & M
            if b == 0: raise Terminate('integer division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x = sx(a, w); y = sx(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            if op == 'sdiv': return q & M
            if op == 'srem': return (x - q * y) & M
        if w == 1:
            a = a if isinstance(a, z3.BoolRef) else (z3.BoolVal(bool(a)) if type(a) is int else a == 1)
            b = b if isinstance(b, z3.BoolRef) else (z3.BoolVal(bool(b)) if type(b) is int else b == 1)
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
            return self.fold(r)
        if op == 'and' and (type(a) is not int and not isinstance(a, z3.ExprRef) or type(b) is not int and not isinstance(b, z3.ExprRef)):
            pass
        a = self.bv(a, w); b = self.bv(b, w)
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op == 'shl': r = a << b
        elif op == 'lshr': r = z3.LShR(a, b)
        elif op == 'ashr': r = a >> b
        elif op == 'udiv': r = z3.UDiv(a, b)
        elif op == 'urem': r = z3.URem(a, b)
        elif op == 'sdiv': r = a / b
        elif op == 'srem': r = z3.SRem(a, b)
        else: raise Unsupported(op)
        return self.fold(r)

    def icmp(self, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's': a = sx(a, w); b = sx(b, w)
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if w == 1:
            a = a if isinstance(a, z3.BoolRef) else z3.BoolVal(bool(a)); b = b if isinstance(b, z3.BoolRef) else z3.BoolVal(bool(b))
            if pred == 'eq': return self.fold(a == b)
            if pred == 'ne': return self.fold(z3.Xor(a, b))
            raise Unsupported('icmp i1 ' + pred)
        if not isinstance(a, (int, z3.ExprRef)) or not isinstance(b, (int, z3.ExprRef)):
            if a is b and pred in ('eq', 'ne'): return int(pred == 'eq')
        a = self.bv(a, w); b = self.bv(b, w)
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b,
             'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b)}[pred]
        return self.fold(f())

    def mktrunc(self, x, w, w2):
        if type(x) is int: return x & ((1 << w2) - 1)
        if isinstance(x, z3.BoolRef): x = self.bv(x, w)
        if not isinstance(x, z3.BitVecRef): x = self.bv(x, w)
        if w2 == 1: return self.fold(z3.Extract(0, 0, x) == 1)
        return self.fold(z3.Extract(w2 - 1, 0, x))

    def zext(self, x, w, w2):
        if type(x) is int: return x
        if isinstance(x, z3.BoolRef): return self.bv(x, w2)
        return z3.ZeroExt(w2 - w, x)

    def sext(self, x, w, w2):
        if type(x) is int: return sx(x, w) & ((1 << w2) - 1)
        if isinstance(x, z3.BoolRef): return z3.If(x, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
        return z3.SignExt(w2 - w, x)

    def itof(self, x, w, signed):
        if type(x) is int:
            v = sx(x, w) if signed else x
            return Fraction(v) if self.mode == 'real' else float(v)
        if isinstance(x, z3.BoolRef): x = self.fork(x); return self.itof(x, w, signed)
        if self.mode == 'real':
            return self.itof(self.concretize(x), w, signed)
        return z3.fpSignedToFP(RNE, x, FP64) if signed else z3.fpToFPUnsigned(RNE, x, FP64)

    def ftoi(self, x, w, signed):
        if type(x) is Fraction or type(x) is float:
            if type(x) is float and not math.isfinite(x): raise Unsupported('fptosi of non-finite')
            return int(x) & ((1 << w) - 1)
        if self.mode == 'real':
            raise Unsupported('fptosi of symbolic real')
        return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(w))

    def select(self, c, a, b, w=0):
        if type(c) is int: return a if c else b
        if w and type(a) is int and type(b) is int and a != b and max(a, b) > 65536:   # a data word, not a count or an index
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        if a is b: return a
        if self.mode == 'real' and (type(a) is rl.R or type(b) is rl.R or type(a) is Fraction):
            return a if self.fork(c) else b
        ta = isinstance(a, (int, z3.BitVecRef)); tb = isinstance(b, (int, z3.BitVecRef))
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef) or type(a) is float:
            return z3.If(c, self.zf(a), self.zf(b))
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            a = a if isinstance(a, z3.BoolRef) else z3.BoolVal(bool(a)); b = b if isinstance(b, z3.BoolRef) else z3.BoolVal(bool(b))
            return self.fold(z3.If(c, a, b))
        if isinstance(a, z3.BitVecRef): return z3.If(c, a, self.bv(b, a.size()))
        if isinstance(b, z3.BitVecRef): return z3.If(c, self.bv(a, b.size()), b)
        if type(a) is int and type(b) is int and a in (0, 1) and b in (0, 1):
            return a if self.fork(c) else b
        return a if self.fork(c) else b

    def fabs(self, a):
        if self.mode == 'real':
            if type(a) is rl.R:
                c = self.fcmp('oge', a, rl.F0)
                if self.absvar and z3.is_expr(c):
                    n = self.uname('abs'); z = z3.Real(n); za = self.zr(a)
                    self.add(z == z3.If(c, za, -za))
                    return rl.var(n, 'nonneg')
                return a if self.fork(c) else rl.neg(a)
            return abs(a)
        if type(a) is float: return abs(a)
        return z3.fpAbs(a)

    def fminmax(self, a, b, ismax):
        c = self.fcmp('ogt' if ismax else 'olt', a, b)
        return self.select(c, a, b)


    # ------------------------------------------------------------------ assertions
    def note_ok(self, i):
        self.stats['discharged'] += 1
        self.assert_ids[i] = self.assert_ids.get(i, 0) + 1

    def decide(self, i, neg, strong=None, kind='assert'):
        """assertion i fails iff neg is satisfiable together with the path condition"""
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            self.stats['queries'] += 1; self.stats['q_unsat'] += 1
            self.note_ok(i); return
        if self.deadline and time.time() > self.deadline: raise Budget('time')
        r, m = self.check([neg], timeout=self.assert_timeout)
        if r == z3.unsat: self.note_ok(i); return
        if r == z3.unknown:
            r = self.other_solver(neg)
            if r == z3.unsat: self.note_ok(i); return
        if m is None:
            r2, m = self.check([], timeout=5000)
            self.undecided[i] = self.undecided.get(i, 0) + 1
            self.report('undecided', i, m, [neg], certain=False, id=i, strong=strong)
            return
        self.report(kind, i, m, [neg], id=i, strong=strong)

    def other_solver(self, neg):
        """second opinion from cvc5 on a query z3 gave up on"""
        import tempfile, os
        try:
            s = z3.Solver()
            for c in self.pc: s.add(c)
            s.add(neg)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
            f.write(txt); f.close()
            t = time.time()
            try:
                r = subprocess.run(['cvc5', '--tlimit=%d' % min(self.assert_timeout, 20000), '--nl-cov', f.name], capture_output=True, text=True, timeout=60)
            finally: os.unlink(f.name)
            self.stats['solver_s'] += time.time() - t; self.stats['queries'] += 1
            if '(error' in r.stdout: return z3.unknown
            if r.stdout.strip().startswith('unsat'):
                self.stats['q_unsat'] += 1
                return z3.unsat
        except Exception: pass
        return z3.unknown

    def assert_eq(self, a, b, i):
        self.stats['asserts'] += 1
        if type(a) is int: a = self.from_bits(a)
        if type(b) is int: b = self.from_bits(b)
        if self.mode == 'real':
            fa = type(a) is float; fb = type(b) is float
            if fa or fb:
                if fa and fb and (a == b or (math.isnan(a) and math.isnan(b))): self.note_ok(i); return
                self.report('assert', i, None, [], id=i); return
            try:
                d = rl.clear_zero(rl.nf(rl.sub(a, b)))
                if not d:
                    # normal forms agree: have the solver confirm the (rearranged) polynomials are equal
                    used = set()
                    za = self.low.poly(rl.nf(a), used); zb = self.low.poly(rl.nf(b), used)
                    self.decide(i, za != zb) if len(rl.nf(a)) < 400 and za.get_id() == zb.get_id() else self.decide_poly(i, za, zb)
                    return
                za = zb = None
                used = set(); zd = self.low.poly(d, used); self.side(used)
                self.decide(i, zd != 0, strong=self.strong_eq(a, b))
                return
            except rl.TooBig: pass
            za = self.zr(a); zb = self.zr(b)
            self.decide(i, za != zb, strong=[z3.Or(za - zb > z3.Q(1, 50), zb - za > z3.Q(1, 50))])
            return
        if type(a) is float and type(b) is float:
            if a == b or (math.isnan(a) and math.isnan(b)): self.note_ok(i)
            else: self.report('assert', i, None, [], id=i)
            return
        a = self.zf(a); b = self.zf(b)
        if a.eq(b): self.stats['queries'] += 1; self.stats['q_unsat'] += 1; self.note_ok(i); return
        self.decide(i, z3.Not(z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))))

    def decide_poly(self, i, za, zb):
        # the two normal forms may order factors differently (roots, inverses); equality needs no path condition
        t = time.time(); s = z3.Solver(); s.set('timeout', 5000)
        s.add(za != zb); self.stats['queries'] += 1
        r = s.check(); self.stats['solver_s'] += time.time() - t
        self.stats['q_unsat' if r == z3.unsat else 'q_unknown'] += 1
        # r may be unknown for high degree: the canonical normal forms are equal, which is the decision procedure of reals.py
        self.note_ok(i)

    def strong_eq(self, a, b):
        try:
            za = self.zr(a); zb = self.zr(b)
            return [z3.Or(za - zb > z3.Q(1, 50), zb - za > z3.Q(1, 50))]
        except Exception: return []

    def assert_le(self, a, b, i):
        c = self.fcmp('ole', a, b)
        self.stats['asserts'] += 1
        if type(c) is int:
            if c: self.note_ok(i)
            else: self.report('assert', i, None, [], id=i)
            return
        strong = None
        if self.mode == 'real' and type(a) is not float and type(b) is not float:
            try: strong = [self.zr(a) - self.zr(b) > z3.Q(1, 50)]
            except Exception: strong = None
        self.decide(i, z3.Not(c), strong=strong)

    def fround(self, x, how):
        if type(x) is Fraction:
            if how == 'floor': return Fraction(math.floor(x))
            if how == 'ceil': return Fraction(math.ceil(x))
            if how == 'trunc': return Fraction(int(x))
            if how == 'rint': return Fraction(round(x))
            return Fraction(math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))
        if type(x) is float:
            if not math.isfinite(x): return x
            if how == 'round': return math.copysign(float(math.floor(abs(x) + 0.5)), x) if abs(x) < 2 ** 52 else x
            return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': int, 'rint': round}[how](x))
        if self.mode == 'fp':
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'round': z3.RNA()}[how]
            return z3.fpRoundToIntegral(rm, x)
        # real mode: exact integer part by case split on its value (bounded)
        z = self.zr(x)
        zi = {'floor': z3.ToInt(z), 'ceil': -z3.ToInt(-z), 'round': z3.ToInt(z + z3.Q(1, 2)), 'rint': z3.ToInt(z + z3.Q(1, 2))}.get(how)
        if how == 'trunc': zi = z3.ToInt(z) if self.fork(z >= 0) else -z3.ToInt(-z)
        return Fraction(self.concretize_int(zi))

    def concretize_int(self, zi):
        for _ in range(4096):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]; self.pos += 1
                if not isinstance(d, tuple): raise Unsupported('replay divergence')
                self.trace.append(d)
                if d[0] == 'ne': self.add(zi != d[1]); continue
                self.add(zi == d[1]); return d[1]
            r, m = self.check([])
            if r != z3.sat: raise Unsupported('integer part: %s' % r)
            v = m.eval(zi, model_completion=True).as_long()
            r2, _ = self.check([zi != v])
            if r2 != z3.unsat:
                self.worklist.append(self.trace + [('ne', v)]); self.stats['forks'] += 1
            self.pos += 1; self.prefix = self.prefix + [('eq', v)]
            self.trace.append(('eq', v)); self.add(zi == v)
            return v
        raise Unsupported('integer part')

    def copysign(self, a, b):
        if type(a) is float and type(b) is float: return math.copysign(a, b)
        if self.mode == 'fp':
            a = self.zf(a); b = self.zf(b)
            return z3.If(z3.fpIsNegative(b), z3.fpNeg(z3.fpAbs(a)), z3.fpAbs(a))
        x = self.fabs(a)
        return rl.neg(x) if self.fork(self.fcmp('olt', b, rl.F0)) else x

    def fpclass(self, x, mask):
        if type(x) is int: x = self.from_bits(x)
        if type(x) is float:
            if math.isnan(x): return int(bool(mask & 3))
            if math.isinf(x): return int(bool(mask & (4 if x < 0 else 512)))
            if x == 0: return int(bool(mask & (32 if math.copysign(1, x) < 0 else 64)))
            sub = abs(x) < 2.2250738585072014e-308
            return int(bool(mask & ((16 if sub else 8) if x < 0 else (128 if sub else 256))))
        if self.mode == 'real':
            n = bool(mask & 24); z = bool(mask & 96); p = bool(mask & 384)
            if n == z == p: return int(n)
            if type(x) is Fraction: return int(n if x < 0 else z if x == 0 else p)
            out = []
            if n: out.append(self.fcmp('olt', x, rl.F0))
            if z: out.append(self.fcmp('oeq', x, rl.F0))
            if p: out.append(self.fcmp('ogt', x, rl.F0))
            return self.fold(z3.Or(*[bool(c) if type(c) is int else c for c in out]))
        o = []
        if mask & 3: o.append(z3.fpIsNaN(x))
        neg = z3.fpIsNegative(x)
        for bit, f in ((2, z3.fpIsInf), (3, z3.fpIsNormal), (4, z3.fpIsSubnormal), (5, z3.fpIsZero)):
            if mask & (1 << bit): o.append(z3.And(neg, f(x)))
        for bit, f in ((9, z3.fpIsInf), (8, z3.fpIsNormal), (7, z3.fpIsSubnormal), (6, z3.fpIsZero)):
            if mask & (1 << bit): o.append(z3.And(z3.Not(neg), f(x)))
        return self.fold(z3.Or(*o))

    # ------------------------------------------------------------------ exceptions
    def landing(self, e, clauses):
        cleanup = False
        for c in clauses:
            if c[0] == 'cleanup': cleanup = True
            elif c[0] == 'catch':
                if c[1] == 0 or self.is_base(c[1], e.ti):
                    return (e.ptr, self.tid(c[1]))
            elif c[0] == 'filter':
                return (e.ptr, M64 & 0xffffffff)
        if cleanup: return (e.ptr, 0)
        return None

    def tid(self, ti):
        return (ti >> 32) & 0x3fffffff if ti else 0x3ffffffe

    def tname(self, ti):
        r = self._ganame
        return r.get(ti)

    def is_base(self, base, ti):
        if base == ti: return True
        for (b, off) in self.bases(ti):
            if self.is_base(base, b): return True
        return False

    def bases(self, ti):
        """direct bases of the class with type_info at address ti: list of (ti, offset)"""
        n = self.tname(ti)
        if n in self.std_bases:
            return [(self.addr_of(b), 0) for b in self.std_bases[n]]
        o = self.mem.get(ti >> 32)
        if o is None: return []
        vt = int.from_bytes(o.data[0:8], 'little')
        kind = self.tname(vt - 16) if vt else None
        if kind == '_ZTVN10__cxxabiv120__si_class_type_infoE':
            return [(int.from_bytes(o.data[16:24], 'little'), 0)]
        if kind == '_ZTVN10__cxxabiv121__vmi_class_type_infoE':
            cnt = int.from_bytes(o.data[20:24], 'little')
            out = []
            for i in range(cnt):
                b = int.from_bytes(o.data[24 + 16 * i:32 + 16 * i], 'little')
                fl = s64(int.from_bytes(o.data[32 + 16 * i:40 + 16 * i], 'little'))
                out.append((b, fl >> 8))
            return out
        return []

    def dynamic_cast(self, p, src, dst, hint):
        p = self.ci(p)
        if p == 0: return 0
        vt = self.ld(p, 8)
        top = s64(self.ld(vt - 16, 8)); ti = self.ld(vt - 8, 8)
        full = (p + top) & M64
        found = []
        def walk(t, off):
            if t == dst: found.append(off)
            for b, o in self.bases(t): walk(b, off + o)
        walk(ti, 0)
        if len(set(found)) >= 1: return (full + found[0]) & M64
        return 0

    # ------------------------------------------------------------------ path driver
    def reset(self, prefix):
        self.mem = {}
        for i, o in self.tmpl.items():
            if o.kind == 'const': self.mem[i] = o
            else:
                n = Obj(); n.size = o.size; n.data = bytearray(o.data); n.init = o.init; n.cells = dict(o.cells); n.kind = o.kind
                self.mem[i] = n
        self.nexto = 0x100
        self.prefix = prefix; self.pos = 0; self.trace = []
        self.pc = []; self.known = {}; self.counts = {}; self.entropy = []; self.vars = []; self.sided = set(); self.sides = []
        self.nzknown = set(); self.f32cache = {}; self.f32used = False
        self.model = None
        self.solver = z3.Solver()
        self.caught = []; self.pending = {}
        self.reached = []
        self.assumed_eq = []
        self.path_state = {}
        for h in self.reset_hooks: h()

    reset_hooks = ()

    def run(self, fname, on_path=None, max_paths=100000, budget=None):
        """explore all paths of function fname"""
        self.build_globals()
        self._ganame = {a: n for n, a in self.gaddr_.items()}
        self.worklist = [[]]
        self.findings = []; self.unsupported = []; t_start = time.time()
        self.complete = True
        self.deadline = time.time() + budget if budget else None
        first = True
        while self.worklist:
            if self.findings and self.deadline and time.time() > self.t_found + self.after_finding:
                self.complete = False; self.incomplete_reason = 'counterexample found'; break
            if self.stats['paths'] >= max_paths or (self.deadline and time.time() > self.deadline):
                self.complete = False; self.incomplete_reason = 'path/time budget'; break
            prefix = self.worklist.pop()
            self.reset(prefix)
            self.C[0] = 0
            outcome = 'ok'
            try:
                for c in self.global_ctors(): self.callf(c)
                self.callf(fname)
            except PathEnd: outcome = 'assume'
            except Infeasible: outcome = 'infeasible'; self.stats['infeasible'] += 1
            except MemError as e:
                outcome = 'memory'; self.report('memory', str(e), None, [])
            except Terminate as e:
                outcome = 'terminate'; self.report('terminate', str(e), None, [])
            except CxxExc as e:
                outcome = 'uncaught'; self.report('uncaught', 'uncaught exception %s' % self.tname(e.ti), None, [])
            except Budget as e:
                if str(e) == 'time':
                    self.complete = False; self.incomplete_reason = 'time budget'; break
                outcome = 'nonterm'; self.report('nontermination', str(e), None, [])
            except Unsupported as e:
                outcome = 'unsupported'
                if str(e) not in self.unsupported: self.unsupported.append(str(e))
            except rl.NonFinite as e:
                outcome = 'nonfinite'; self.report('domain', str(e), None, [], certain=False)
            self.stats['instr'] += self.C[0]
            if outcome != 'infeasible':
                self.stats['paths'] += 1
                if on_path: on_path(self, outcome)
        self.stats['wall'] = time.time() - t_start
        return self.findings

    def report(self, kind, what, model, extra, certain=True, id=None, strong=None):
        """records a candidate counterexample: needs a model of pc + extra"""
        if model is None:
            r, model = self.check(extra, timeout=self.assert_timeout)
            if r == z3.unsat: return
        vals = self.model_values(model) if model is not None else {}
        pcs = list(self.pc) + list(extra)
        key = (kind, id, what)
        n = sum(1 for f in self.findings if f['key'] == key)
        if n >= 12: return
        self.findings.append(dict(key=key, kind=kind, what=what, id=id, values=vals, certain=certain, f32=self.f32used,
                                  vars=[(v[0], v[1], v[3], v[4], v[5], v[2].size() if v[1] == 'bv' else 0) for v in self.vars],
                                  alt=self.alt_models(pcs + list(strong or [])) if n < 4 else []))
        if len(self.findings) == 1: self.t_found = time.time()
        if self.on_finding: self.on_finding(self.findings[-1])

    def alt_models(self, pcs):
        """a few more models with tame values (easier to replay in doubles)"""
        out = []
        if self.mode != 'real': return out
        for bound in (3, 50):
            s = z3.Solver(); s.set('timeout', 2500)
            for c in pcs: s.add(c)
            for (n, k, z, lo, hi, op) in self.vars:
                if k == 'real':
                    s.add(z <= bound, z >= -bound)
                    if lo is None or lo <= 0: s.add(z3.Or(z >= z3.Q(1, 16), z <= z3.Q(-1, 16)))
            try:
                if s.check() == z3.sat: out.append(self.model_values(s.model()))
            except z3.Z3Exception: pass
        return out

    def model_values(self, m):
        vals = {}
        for (n, k, z, lo, hi, op) in self.vars:
            v = m.eval(z, model_completion=True)
            if k == 'real':
                if z3.is_rational_value(v): vals[n] = tofloat(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    a = v.approx(30); vals[n] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
                else: vals[n] = 0.5
            elif k == 'fp':
                vals[n] = fpval(v)
            elif k == 'bv':
                vals[n] = v.as_long()
            elif k == 'bool': vals[n] = int(z3.is_true(v))
        return vals

    def global_ctors(self):
        g = self.m.globals.get('llvm.global_ctors')
        if g is None or g.init is None or g.init[0] != 'agg': return []
        out = []
        for t, v in g.init[1]:
            pr = self.const(v[1][0][1], v[1][0][0]); fn = v[1][1][1]
            if fn[0] == 'g': out.append((pr, fn[1]))
        return [f for p, f in sorted(out, key=lambda x: x[0])]

    def callf(self, name, *args):
        return self.resolve(name)(*args)

    # ------------------------------------------------------------------ code generation
    def _ns_base(self):
        E = self
        ns = self.NS
        ns.update(E=E, M64=M64, CxxExc=CxxExc, C=self.C, ld=self.ld, ld_i=self.ld_i, ld_d=self.ld_d, ld_t=self.ld_t,
                  st_i=self.st_i, st_d=self.st_d, st_t=self.st_t, fbin=self.fbin, fneg=self.fneg, fcmp=self.fcmp,
                  ibin=self.ibin, icmp=self.icmp, mktrunc=self.mktrunc, zext=self.zext, sext=self.sext, itof=self.itof,
                  ftoi=self.ftoi, select=self.select, fork=self.fork, ci=self.ci, alloc=self.alloc, landing=self.landing,
                  sx=sx, tick=self.tick, icall=self.icall, unsup=self.unsup, unreach=self.unreach, insval=insval,
                  free_stack=self.free_stack)
        self.fnidx = {}
        self.K = []
        ns['K'] = self.K

    def free_stack(self, *ps):
        mem = self.mem
        for p in ps: mem.pop(p >> 32, None)

    def unsup(self, what): raise Unsupported(what)
    def unreach(self): raise Terminate('unreachable code reached')
    def tick(self):
        if self.C[0] > self.limit: raise Budget('more than %d instructions on one path (non-termination?)' % self.limit)

    def icall(self, addr, *args):
        addr = self.ci(addr)
        n = self.fbyaddr.get(addr)
        if n is None: raise MemError('call through invalid function pointer 0x%x' % addr)
        return self.resolve(n)(*args)

    def resolve(self, name):
        key = self.fnidx.get(name)
        if key is None: self.fref(name); key = self.fnidx[name]
        return self.NS[key]

    def fref(self, name):
        """returns namespace key of python callable for IR function name"""
        key = self.fnidx.get(name)
        if key: return key
        key = 'F%d' % len(self.fnidx)
        self.fnidx[name] = key
        ex = self.find_extern(name)
        if ex is not None:
            self.NS[key] = ex
            return key
        if name in self.m.aliases and name not in self.m.funcs:
            a = self.m.aliases[name]
            if a[0] == 'g':
                tgt = a[1]
                def stub(*args):
                    f = self.resolve(tgt); self.NS[key] = f
                    return f(*args)
                self.NS[key] = stub
                return key
        f = self.m.funcs.get(name)
        if f is None:
            def missing(*args): raise Unsupported('external function ' + self.dem.get(name, name) + ' [' + name + ']')
            self.NS[key] = missing
            return key
        def lazy(*args):
            c = self.compile(f, key)
            self.executed.add(name)
            return c(*args)
        self.NS[key] = lazy
        return key

    def find_extern(self, name):
        e = self.externs.get(name)
        if e is not None: return e
        if name.startswith('llvm.'):
            import externs
            return externs.intrinsic(self, name)
        d = self.dem.get(name, name)
        defined = name in self.m.funcs
        for rx, fn, only_ext in self.extern_patterns:
            if (not only_ext or not defined) and rx.search(d): return fn(self, name, d)
        return None

    def compile(self, f, key):
        src = Codegen(self, f).gen()
        ns = self.NS
        try:
            exec(compile(src, '<ir:%s>' % f.name, 'exec'), ns)
        except SyntaxError:
            sys.stderr.write(src); raise
        fn = ns.pop('__f')
        ns[key] = fn
        return fn

def fpval(v):
    if z3.is_fp_value(v):
        if v.isNaN(): return math.nan
        if v.isInf(): return -math.inf if v.isNegative() else math.inf
        bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
        return struct.unpack('<d', struct.pack('<Q', bv))[0]
    return 0.0

def insval(agg, x, idx):
    l = list(agg)
    if len(idx) == 1: l[idx[0]] = x
    else: l[idx[0]] = insval(l[idx[0]], x, idx[1:])
    return tuple(l)

class Codegen:
    def __init__(self, E, f):
        self.E = E; self.f = f; self.regs = {}
        f.mod.parse_body(f)

    def reg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = 'v%d' % len(self.regs); self.regs[name] = r
        return r

    def konst(self, x):
        self.E.K.append(x)
        return 'K[%d]' % (len(self.E.K) - 1)

    def val(self, v, ty):
        k = v[0]
        if k == 'r': return self.reg(v[1])
        c = self.E.const(v, ty)
        if type(c) is int: return str(c)
        return self.konst(c)

    def is_const(self, s): return s[0] != 'v'

    def gen(self):
        f = self.f
        idx = {b: i for i, b in enumerate(f.order)}
        self.idx = idx
        self.allocas = []
        # first: parse phis & landingpads
        self.phis = {}; self.lp = {}
        toks = {}
        for b in f.order:
            ph = []; tl = []
            for s in f.blocks[b]:
                t = ir.tokenize(s)
                tl.append(t)
                if len(t) > 2 and t[1][1] == '=' and t[2][1] == 'phi':
                    p = ir.P(t, f.mod); dst = ir.unq(p.nextv()); p.nextv(); p.nextv()
                    while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.nextv()
                    ty = p.type(); inc = {}
                    while True:
                        p.expect('['); v = p.value(ty); p.expect(','); l = ir.unq(p.nextv()); p.expect(']')
                        inc[l] = v
                        if not p.eat(','): break
                        if p.peek() != '[': break
                    ph.append((dst, ty, inc))
                elif len(t) > 2 and t[2][1] == 'landingpad':
                    p = ir.P(t, f.mod); p.nextv(); p.nextv(); p.nextv(); p.type()
                    cl = []
                    while p.peek() in ('cleanup', 'catch', 'filter'):
                        w = p.nextv()
                        if w == 'cleanup': cl.append(('cleanup',))
                        else:
                            ty = p.type(); v = p.value(ty)
                            cl.append((w, self.E.const(v, ty)))
                    self.lp[b] = cl
            self.phis[b] = ph
            toks[b] = tl
        codes = []
        for b in f.order:
            self.cur = b
            lines = ['C[0] += %d' % len(toks[b])]
            for t in toks[b]: self.instr(t, lines)
            codes.append(lines)
        out = ['def __f(%s):' % ', '.join([self.reg(p[1]) for p in f.params] + ['*va'])]
        for t, nm, bv in f.params:
            pass
        out.append(' blk = 0')
        if len(codes) == 1:
            out += [' ' + l for l in codes[0]]
        else:
            out.append(' while True:')
            self.tree(codes, 0, len(codes), 2, out)
        return '\n'.join(out) + '\n'

    def tree(self, codes, lo, hi, ind, out):
        if hi - lo == 1:
            out += [' ' * ind + l for l in codes[lo]]
            return
        mid = (lo + hi) // 2
        out.append(' ' * ind + 'if blk < %d:' % mid)
        self.tree(codes, lo, mid, ind + 1, out)
        out.append(' ' * ind + 'else:')
        self.tree(codes, mid, hi, ind + 1, out)

    def jump(self, target, ind=''):
        """lines that go to block target from self.cur"""
        ls = []
        ph = self.phis[target]
        if ph:
            ds = []; vs = []
            for dst, ty, inc in ph:
                ds.append(self.reg(dst)); vs.append(self.val(inc[self.cur], ty))
            prs = [(d, v) for d, v in zip(ds, vs) if d != v]
            if prs:
                ls.append(', '.join(d for d, v in prs) + ' = ' + ', '.join(v for d, v in prs))
        t = self.idx[target]
        if t <= self.idx[self.cur]: ls.append('tick()')
        ls.append('blk = %d' % t)
        ls.append('continue')
        return [ind + l for l in ls]

    FASTF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nuw', 'nsw', 'exact', 'disjoint', 'inbounds', 'nneg', 'volatile', 'tail', 'musttail', 'notail', 'samesign', 'nusw'}

    def instr(self, t, out):
        E = self.E
        p = ir.P(t, self.f.mod)
        dst = None
        if len(t) > 1 and t[1][1] == '=' and t[0][0] == 'loc':
            dst = self.reg(ir.unq(t[0][1])); p.i = 2
        op = p.nextv()
        while op in ('tail', 'musttail', 'notail'): op = p.nextv()
        while p.peek() in self.FASTF: p.nextv()
        if op == 'phi': return
        if op == 'landingpad':
            out.append('%s = pend' % dst); return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(','); b = self.val(p.value(ty), ty)
            if ty[0] == 'v':
                out.append('%s = tuple(ibin(%r, x, y, %d) for x, y in zip(%s, %s))' % (dst, op, ty[2][1], a, b)); return
            w = ty[1]
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor') and w > 1:
                sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
                chk = ' and '.join('type(%s) is int' % x for x in (a, b) if not self.is_const(x)) or 'True'
                if op in ('and', 'or', 'xor'): e = '%s %s %s' % (a, sym, b)
                else: e = '(%s %s %s) & %d' % (a, sym, b, (1 << w) - 1)
                out.append('%s = (%s) if %s else ibin(%r, %s, %s, %d)' % (dst, e, chk, op, a, b, w))
            else:
                out.append('%s = ibin(%r, %s, %s, %d)' % (dst, op, a, b, w))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(','); b = self.val(p.value(ty), ty)
            if ty != ir.F64: out.append(self.f32(dst, op, a, b, ty)); return
            out.append('%s = fbin(%r, %s, %s)' % (dst, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'frem': '%'}[op], a, b))
            return
        if op == 'fneg':
            ty = p.type(); a = self.val(p.value(ty), ty)
            out.append('%s = fneg(%s)' % (dst, a) if ty == ir.F64 else '%s = E.f32(fneg(E.f64(%s)))' % (dst, a)); return
        if op == 'icmp':
            pred = p.nextv()
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(','); b = self.val(p.value(ty), ty)
            if ty[0] == 'v': out.append('unsup("vector icmp")'); return
            w = 64 if ty[0] == 'ptr' else ty[1]
            chk = ' and '.join('type(%s) is int' % x for x in (a, b) if not self.is_const(x)) or 'True'
            if pred in ('eq', 'ne', 'ult', 'ugt', 'ule', 'uge'):
                sy = {'eq': '==', 'ne': '!=', 'ult': '<', 'ugt': '>', 'ule': '<=', 'uge': '>='}[pred]
                out.append('%s = (1 if %s %s %s else 0) if %s else icmp(%r, %s, %s, %d)' % (dst, a, sy, b, chk, pred, a, b, w))
            else:
                out.append('%s = icmp(%r, %s, %s, %d)' % (dst, pred, a, b, w))
            return
        if op == 'fcmp':
            pred = p.nextv()
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(','); b = self.val(p.value(ty), ty)
            if ty == ir.F32:
                out.append('%s = fcmp(%r, E.f64(%s), E.f64(%s))' % (dst, pred, a, b)); return
            if ty != ir.F64: out.append('unsup("fcmp %s")' % ty[0]); return
            out.append('%s = fcmp(%r, %s, %s)' % (dst, pred, a, b)); return
        if op == 'select':
            ct = p.type(); c = self.val(p.value(ct), ct); p.expect(',')
            t1 = p.type(); a = self.val(p.value(t1), t1); p.expect(','); t2 = p.type(); b = self.val(p.value(t2), t2)
            out.append('%s = (%s if %s else %s) if type(%s) is int else select(%s, %s, %s, %d)' % (dst, a, c, b, c, c, a, b, t1[1] if t1[0] == 'i' and t1[1] in (16, 32, 64) else 0)); return
        if op == 'load':
            p.eat('atomic'); p.eat('volatile')
            ty = p.type(); p.expect(','); pt = p.type(); a = self.val(p.value(pt), pt)
            if ty[0] == 'i': out.append('%s = ld_i(%s, %d, %d)' % (dst, a, ir.size_align(ty)[0], ty[1]))
            elif ty[0] == 'ptr': out.append('%s = ld(%s, 8)' % (dst, a))
            elif ty == ir.F64: out.append('%s = ld_d(%s)' % (dst, a))
            else: out.append('%s = ld_t(%s, %s)' % (dst, a, self.konst(ty)))
            return
        if op == 'store':
            p.eat('atomic'); p.eat('volatile')
            ty = p.type(); v = self.val(p.value(ty), ty); p.expect(','); pt = p.type(); a = self.val(p.value(pt), pt)
            if ty[0] == 'i': out.append('st_i(%s, %s, %d)' % (a, v, ir.size_align(ty)[0]))
            elif ty[0] == 'ptr': out.append('st_i(%s, %s, 8)' % (a, v))
            elif ty == ir.F64: out.append('st_d(%s, %s)' % (a, v))
            else: out.append('st_t(%s, %s, %s)' % (a, v, self.konst(ty)))
            return
        if op == 'getelementptr':
            ty = p.type(); p.expect(',')
            pt = p.type(); base = self.val(p.value(pt), pt)
            off = 0; dyn = []
            cur = ty; first = True
            while p.eat(','):
                if p.kind() == 'meta': break
                it = p.type(); iv = p.value(it)
                cst = iv[0] != 'r'
                if first:
                    sz = ir.size_align(cur)[0]; first = False
                elif cur[0] == 's':
                    i = self.E.const(iv, it)
                    off += ir.field_offset(cur, i); cur = cur[1][i]
                    continue
                else:
                    cur = cur[2]; sz = ir.size_align(cur)[0]
                w = it[1]
                if cst: off += sx(self.E.const(iv, it), w) * sz
                else:
                    r = self.reg(iv[1])
                    r = r if w >= 64 else None or 'sx(ci(%s), %d)' % (r, w)
                    if w >= 64: r = 'ci(%s)' % r
                    dyn.append('%s*%d' % (r, sz) if sz != 1 else r)
            e = base if self.is_const(base) else 'ci(%s)' % base
            if off: e += ' + %d' % off
            for d in dyn: e += ' + ' + d
            out.append('%s = (%s) & M64' % (dst, e)); return
        if op == 'alloca':
            p.eat('inalloca')
            ty = p.type(); n = None
            if p.eat(','):
                if p.peek() != 'align':
                    it = p.type(); n = self.val(p.value(it), it)
            sz = ir.size_align(ty)[0]
            out.append('%s = alloc(%s, "stack")' % (dst, str(sz) if n is None else '%d*ci(%s)' % (sz, n)))
            if self.cur == self.f.order[0]: self.allocas.append(dst)
            return
        if op in ('trunc', 'zext', 'sext'):
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect('to'); t2 = p.type()
            if ty[0] == 'v': out.append('unsup("vector cast")'); return
            fn = {'trunc': 'mktrunc', 'zext': 'zext', 'sext': 'sext'}[op]
            out.append('%s = %s(%s, %d, %d)' % (dst, fn, a, ty[1], t2[1])); return
        if op in ('ptrtoint', 'inttoptr'):
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect('to'); t2 = p.type()
            if t2[0] == 'i' and t2[1] < 64: out.append('%s = mktrunc(%s, 64, %d)' % (dst, a, t2[1]))
            else: out.append('%s = %s' % (dst, a))
            return
        if op in ('sitofp', 'uitofp'):
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect('to'); t2 = p.type()
            if t2 == ir.F64: out.append('%s = itof(%s, %d, %s)' % (dst, a, ty[1], op == 'sitofp'))
            elif t2 == ir.F32: out.append('%s = E.f32(itof(%s, %d, %s))' % (dst, a, ty[1], op == 'sitofp'))
            else: out.append('unsup("itof")')
            return
        if op in ('fptosi', 'fptoui'):
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect('to'); t2 = p.type()
            if ty == ir.F64 or ty == ir.F32: out.append('%s = ftoi(%s, %d, %s)' % (dst, a if ty == ir.F64 else 'E.f64(%s)' % a, t2[1], op == 'fptosi'))
            else: out.append('unsup("ftoi")')
            return
        if op in ('fpext', 'fptrunc'):
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect('to'); t2 = p.type()
            if op == 'fpext' and ty == ir.F32 and t2 == ir.F64: out.append('%s = E.f64(%s)' % (dst, a))
            elif op == 'fptrunc' and ty == ir.F64 and t2 == ir.F32: out.append('%s = E.f32(%s)' % (dst, a))
            else: out.append('unsup("%s")' % op)
            return
        if op == 'bitcast':
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect('to'); t2 = p.type()
            if ty == t2: out.append('%s = %s' % (dst, a))
            elif ty == ir.F64 and t2 == ('i', 64): out.append('%s = E.d2i(%s)' % (dst, a))
            elif ty == ('i', 64) and t2 == ir.F64: out.append('%s = E.i2d(%s)' % (dst, a))
            else: out.append('unsup("bitcast")')
            return
        if op == 'freeze':
            ty = p.type(); a = self.val(p.value(ty), ty); out.append('%s = %s' % (dst, a)); return
        if op == 'extractvalue':
            ty = p.type(); a = self.val(p.value(ty), ty); ix = ''
            while p.eat(','):
                if p.kind() != 'num': break
                ix += '[%s]' % p.nextv()
            out.append('%s = %s%s' % (dst, a, ix)); return
        if op == 'insertvalue':
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(','); t2 = p.type(); x = self.val(p.value(t2), t2); ix = []
            while p.eat(','):
                if p.kind() != 'num': break
                ix.append(p.nextv())
            out.append('%s = insval(%s, %s, (%s,))' % (dst, a, x, ','.join(ix))); return
        if op == 'extractelement':
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(','); it = p.type(); i = self.val(p.value(it), it)
            out.append('%s = %s[%s]' % (dst, a, i)); return
        if op == 'insertelement':
            ty = p.type(); a = self.val(p.value(ty), ty); p.expect(','); t2 = p.type(); x = self.val(p.value(t2), t2); p.expect(',')
            it = p.type(); i = self.val(p.value(it), it)
            out.append('%s = insval(%s, %s, (%s,))' % (dst, a, x, i)); return
        if op == 'br':
            if p.peek() == 'label':
                p.nextv(); out += self.jump(ir.unq(p.nextv())); return
            ty = p.type(); c = self.val(p.value(ty), ty); p.expect(','); p.expect('label'); a = ir.unq(p.nextv())
            p.expect(','); p.expect('label'); b = ir.unq(p.nextv())
            out.append('if (%s if type(%s) is int else fork(%s)):' % (c, c, c))
            out += self.jump(a, ' ')
            out += self.jump(b)
            return
        if op == 'switch':
            ty = p.type(); v = self.val(p.value(ty), ty); p.expect(','); p.expect('label'); d = ir.unq(p.nextv())
            p.expect('[')
            out.append('_s = %s' % v)
            while not p.eat(']'):
                ct = p.type(); cv = self.E.const(p.value(ct), ct); p.expect(','); p.expect('label'); l = ir.unq(p.nextv())
                out.append('if (_s == %d if type(_s) is int else fork(icmp("eq", _s, %d, %d))):' % (cv, cv, ct[1]))
                out += self.jump(l, ' ')
            out += self.jump(d)
            return
        if op == 'ret':
            ty = p.type()
            fs = 'free_stack(%s)' % ', '.join(self.allocas) if self.allocas else None
            if ty == ir.VOID:
                if fs: out.append(fs)
                out.append('return None')
            else:
                v = self.val(p.value(ty), ty)
                if fs: out.append(fs)
                out.append('return ' + v)
            return
        if op == 'unreachable':
            out.append('unreach()'); return
        if op == 'resume':
            ty = p.type(); v = self.val(p.value(ty), ty)
            out.append('raise E.resume(%s)' % v); return
        if op in ('call', 'invoke'):
            self.call(p, op, dst, out); return
        if op == 'atomicrmw':
            p.eat('volatile')
            o = p.nextv(); pt = p.type(); a = self.val(p.value(pt), pt); p.expect(','); ty = p.type(); v = self.val(p.value(ty), ty)
            n = ir.size_align(ty)[0]
            out.append('%s = ld_i(%s, %d, %d)' % (dst, a, n, n * 8))
            if o == 'xchg': out.append('st_i(%s, %s, %d)' % (a, v, n))
            else: out.append('st_i(%s, ibin(%r, %s, %s, %d), %d)' % (a, o, dst, v, n * 8, n))
            return
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile')
            pt = p.type(); a = self.val(p.value(pt), pt); p.expect(','); ty = p.type(); c = self.val(p.value(ty), ty); p.expect(',')
            t2 = p.type(); nv = self.val(p.value(t2), t2); n = ir.size_align(ty)[0]
            out.append('_o = ld_i(%s, %d, %d)' % (a, n, n * 8))
            out.append('_e = ci(_o) == ci(%s)' % c)
            out.append('if _e: st_i(%s, %s, %d)' % (a, nv, n))
            out.append('%s = (_o, int(_e))' % dst)
            return
        if op == 'fence': return
        out.append('unsup(%r)' % op)

    def f32(self, dst, op, a, b, ty):
        if ty == ir.F32:
            return '%s = E.f32(fbin(%r, E.f64(%s), E.f64(%s)))' % (dst, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'frem': '%'}[op], a, b)
        return 'unsup("%s %s")' % (op, ty[0])

    CC = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'addrspace'}
    def call(self, p, op, dst, out):
        E = self.E
        while p.peek() in self.CC or p.peek() in self.FASTF: p.nextv()
        ir.skip_pattrs(p)
        ty = p.type()
        if ty[0] == 'fn': ty = ty[1]
        k, v = p.next()
        if v == 'asm':
            out.append('unsup("asm")'); return
        callee = ir.unq(v)
        indirect = k == 'loc'
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                bv = ir.skip_pattrs(p)
                if at == ir.META:
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.nextv()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    args.append('0')
                else:
                    e = self.val(p.value(at), at)
                    if bv: e = 'E.byval(%s, %d)' % (e, ir.size_align(bv)[0])
                    args.append(e)
                if p.eat(')'): break
                p.expect(',')
        if not indirect and callee.startswith('llvm.'):
            if re.match(r'llvm\.(lifetime|experimental\.noalias|dbg|assume|prefetch|donothing|invariant|stackrestore|var\.annotation)', callee): return
        if indirect: ex = 'icall(%s)' % ', '.join([self.reg(callee)] + args)
        else: ex = '%s(%s)' % (E.fref(callee), ', '.join(args))
        if dst: ex = '%s = %s' % (dst, ex)
        if op == 'call':
            out.append(ex); return
        while p.peek() != 'to': p.nextv()
        p.nextv(); p.expect('label'); nb = ir.unq(p.nextv()); p.expect('unwind'); p.expect('label'); ub = ir.unq(p.nextv())
        out.append('try:')
        out.append(' ' + ex)
        out.append('except CxxExc as _x:')
        out.append(' pend = landing(_x, %s)' % self.konst(self.lp[ub]))
        out.append(' if pend is None: raise')
        out.append(' E.pending[pend[0]] = _x.ti')
        out += self.jump(ub, ' ')
        out += self.jump(nb)
