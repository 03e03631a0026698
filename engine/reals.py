"""Exact-real terms for symbolic `double` values, their normal form and lowering to z3.

A value is either a Fraction (concrete), a float inf/nan (concrete, non finite) or an R node.
R nodes are hash-consed DAG nodes over +,*,/ and exp, log, sqrt of base variables.

Normal form: Laurent polynomial with rational exponents over atoms
   v  base variable               E  exp(monomial)          L  log(polynomial)
   P  (canonical) polynomial      C  square-free integer
so that exp/log/sqrt identities become polynomial identities, which are handed to z3.
"""
from fractions import Fraction
import math, z3

F0 = Fraction(0); F1 = Fraction(1)

class TooBig(Exception): pass
LIMIT = [60000]

# ----------------------------------------------------------------------------- DAG
class R:
    __slots__ = ('op', 'a', 'b', 'id', 'nf', 'name', 'sign')
    _tab = {}
    _n = 0
    def __repr__(self):
        return show(self)

def mk(op, a=None, b=None, name=None, sign=None):
    ka = a.id if type(a) is R else a
    kb = b.id if type(b) is R else b
    key = (op, type(a) is R, ka, type(b) is R, kb, name)
    r = R._tab.get(key)
    if r is None:
        r = R(); r.op = op; r.a = a; r.b = b; r.name = name; r.nf = None; r.sign = sign
        R._n += 1; r.id = R._n
        R._tab[key] = r
    return r

def var(name, sign=None):
    return mk('v', name=name, sign=sign)

def show(x, d=6):
    if type(x) is not R: return str(x)
    if x.op == 'v': return x.name
    if d == 0: return '..'
    if x.b is None: return '%s(%s)' % (x.op, show(x.a, d - 1))
    return '(%s %s %s)' % (show(x.a, d - 1), x.op, show(x.b, d - 1))

def isfin(x): return type(x) is not float

class NonFinite(Exception): pass

def _nf2(op, a, b):
    # at least one operand is a non-finite float
    if type(a) is R or type(b) is R:
        fa, fb = (None if type(a) is R else float(a)), (None if type(b) is R else float(b))
        if op in '+-':
            x = fa if fa is not None else (fb if op == '+' else -fb)
            return x
        if op == '/' and fa is None and math.isinf(fb): return F0
        if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)): return math.nan
        raise NonFinite("%s with non-finite operand" % op)
    fa = float(a); fb = float(b)
    try:
        r = {'+': lambda: fa + fb, '-': lambda: fa - fb, '*': lambda: fa * fb, '/': lambda: fa / fb}[op]()
    except ZeroDivisionError:
        r = math.nan
    return lift(r)

def lift(x):
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x): return x
        return Fraction(x)
    return Fraction(x)

def add(a, b):
    ta = type(a); tb = type(b)
    if ta is Fraction and tb is Fraction: return a + b
    if ta is float or tb is float: return _nf2('+', a, b)
    if ta is Fraction and a == 0: return b
    if tb is Fraction and b == 0: return a
    return mk('+', a, b)

def neg(a):
    if type(a) is not R: return -a
    return mul(Fraction(-1), a)

def sub(a, b):
    ta = type(a); tb = type(b)
    if ta is Fraction and tb is Fraction: return a - b
    if ta is float or tb is float: return _nf2('-', a, b)
    if a is b: return F0
    if tb is Fraction and b == 0: return a
    return mk('+', a, neg(b)) if not (ta is Fraction and a == 0) else neg(b)

def mul(a, b):
    ta = type(a); tb = type(b)
    if ta is Fraction and tb is Fraction: return a * b
    if ta is float or tb is float: return _nf2('*', a, b)
    if ta is Fraction:
        if a == 0: return F0
        if a == 1: return b
    if tb is Fraction:
        if b == 0: return F0
        if b == 1: return a
    return mk('*', a, b)

def div(a, b):
    """caller has established b != 0"""
    ta = type(a); tb = type(b)
    if ta is float or tb is float: return _nf2('/', a, b)
    if tb is Fraction:
        if b == 0:
            if ta is Fraction:
                return math.nan if a == 0 else (math.inf if a > 0 else -math.inf)
            raise NonFinite("division by zero")
        if ta is Fraction: return a / b
        return mul(a, F1 / b)
    if ta is Fraction and a == 0: return F0
    return mk('/', a, b)

def exp(a):
    if type(a) is float: return lift(math.exp(a)) if a < 700 else a
    if type(a) is Fraction and a == 0: return F1
    if type(a) is R and a.op == 'log': return a.a
    return mk('exp', a)

def log(a):
    if type(a) is float: return a
    if type(a) is Fraction:
        if a == 1: return F0
        if a <= 0: return math.nan if a < 0 else -math.inf
    if type(a) is R and a.op == 'exp': return a.a
    return mk('log', a)

def isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None

def sqrt(a):
    if type(a) is float: return a
    if type(a) is Fraction:
        if a < 0: return math.nan
        p = isqrt_exact(a.numerator); q = isqrt_exact(a.denominator)
        if p is not None and q is not None: return Fraction(p, q)
    return mk('sqrt', a)

def ipow(a, n):
    if n == 0: return F1
    if n < 0: return div(F1, ipow(a, -n))
    r = a
    for _ in range(n - 1): r = mul(r, a)
    return r

# ----------------------------------------------------------------------------- atoms / normal form
class Atom:
    __slots__ = ('kind', 'pl', 'id', 'pos', 'name', 'zroots')
    tab = {}
    n = 0
    def __repr__(self):
        if self.kind == 'v': return self.pl
        if self.kind == 'E': return 'E{%s}' % pshow({self.pl: F1})
        if self.kind == 'C': return 'c%d' % self.pl
        return '%s{%s}' % (self.kind, pshow(dict(self.pl)))

def atom(kind, pl, pos=None):
    key = (kind, pl)
    a = Atom.tab.get(key)
    if a is None:
        a = Atom(); a.kind = kind; a.pl = pl; a.pos = pos; a.zroots = {}
        Atom.n += 1; a.id = Atom.n
        Atom.tab[key] = a
        BYID[a.id] = a
    return a
BYID = {}

def pshow(p):
    out = []
    for m, c in list(p.items())[:12]:
        out.append(str(c) + ''.join('*%r%s' % (BYID[i], '' if e == 1 else '^%s' % e) for i, e in m))
    return ' + '.join(out) or '0'

ONE = ()
def mmul(a, b):
    if not a: return b
    if not b: return a
    out = []; i = j = 0; la = len(a); lb = len(b)
    while i < la and j < lb:
        x = a[i]; y = b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e: out.append((x[0], e))
            i += 1; j += 1
        elif x[0] < y[0]: out.append(x); i += 1
        else: out.append(y); j += 1
    out.extend(a[i:]); out.extend(b[j:])
    return tuple(out)

def norm_e(e):
    return int(e) if isinstance(e, Fraction) and e.denominator == 1 else e

def mpow(m, k):
    return tuple((i, norm_e(e * k)) for i, e in m) if k else ONE

def needs_red(m):
    for i, e in m:
        k = BYID[i].kind
        if k == 'P' and e >= 1: return True
        if k == 'C' and (e >= 1 or e < 0): return True
    return False

def padd(p, q, k=F1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def pmul(p, q):
    if len(p) * len(q) > LIMIT[0] * 20: raise TooBig()
    r = {}
    red = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    if len(r) > LIMIT[0]: raise TooBig()
    return preduce(r)

def preduce(r):
    todo = [m for m, c in r.items() if c and needs_red(m)]
    if not todo:
        return {m: c for m, c in r.items() if c}
    out = {m: c for m, c in r.items() if c}
    for m in todo: out.pop(m, None)
    for m in todo:
        c = r[m]
        rest = []; factor = {ONE: c}
        for i, e in m:
            a = BYID[i]
            if a.kind == 'C' and (e >= 1 or e < 0):
                fl = math.floor(e); fr = e - fl
                factor = {mm: cc * Fraction(a.pl) ** fl for mm, cc in factor.items()}
                if fr: rest.append((i, fr))
            elif a.kind == 'P' and e >= 1:
                fl = math.floor(e); fr = e - fl
                base = dict(a.pl)
                for _ in range(fl): factor = pmul(factor, base)
                if fr: rest.append((i, fr))
            else: rest.append((i, e))
        t = pmul({tuple(rest): F1}, factor) if rest else factor
        out = padd(out, t)
    return out

def content(p):
    """canonical factorisation p = c * m * P^  with P^ having gcd monomial 1 and leading coeff 1"""
    ms = list(p)
    # gcd monomial over integer part: min exponents over all atoms (0 if absent)
    g = {}
    first = True
    for m in ms:
        d = dict(m)
        if first: g = d; first = False
        else:
            for i in list(g):
                e = min(g[i], d.get(i, 0))
                if e: g[i] = e
                else: del g[i]
            for i, e in d.items():
                if e < 0 and i not in g: g[i] = e
    gm = tuple(sorted((i, e) for i, e in g.items() if e))
    inv = mpow(gm, -1)
    q = {mmul(m, inv): c for m, c in p.items()}
    lead = min(q)   # deterministic choice
    c = q[lead]
    q = {m: v / c for m, v in q.items()}
    return c, gm, q

def fz(p): return frozenset(p.items())

def pinv(p):
    if not p: raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return preduce({mpow(m, -1): 1 / c})
    c, gm, q = content(p)
    q = preduce(q)
    if len(q) == 1:
        return preduce(pmul({mpow(gm, -1): 1 / c}, pinv(q)))
    # after clearing, q may have positive P powers expanded; recompute content once
    c2, gm2, q2 = content(q)
    m = mpow(mmul(gm, gm2), -1)
    A = atom('P', fz(q2))
    return preduce({mmul(m, ((A.id, -1),)): 1 / (c * c2)})

def ppow(p, n):
    if n < 0: return ppow(pinv(p), -n)
    r = {ONE: F1}
    for _ in range(n): r = pmul(r, p)
    return r

def sqfree(n):
    """n = s^2 * f"""
    s = 1; f = n; d = 2
    while d * d <= f and d < 2000:
        while f % (d * d) == 0: f //= d * d; s *= d
        d += 1
    r = isqrt_exact(f)
    if r is not None: s *= r; f = 1
    return s, f

def psqrt(p):
    if not p: return {}
    c, gm, q = content(p)
    q = preduce(q)
    if q == {ONE: F1} or len(q) == 1:
        if q != {ONE: F1}:
            (m1, c1), = q.items(); c *= c1; gm = mmul(gm, m1)
        q = None
    out_m = []; rest = []
    for i, e in gm:
        a = BYID[i]
        if a.pos: out_m.append((i, norm_e(Fraction(e) / 2)))
        elif a.kind == 'P' and isinstance(e, Fraction) and e.denominator != 1: out_m.append((i, norm_e(e / 2)))
        else: rest.append((i, e))
    coef = F1
    inner = {tuple(rest): F1}
    if q is not None: inner = pmul(inner, q)
    sgn = 1 if c > 0 else -1
    if sgn < 0: inner = {m: -v for m, v in inner.items()}
    ca = abs(c)
    sn, fn = sqfree(ca.numerator * ca.denominator)
    coef = Fraction(sn, ca.denominator)
    mono = tuple(sorted(out_m))
    if fn != 1:
        mono = mmul(mono, ((atom('C', fn, 'pos').id, Fraction(1, 2)),))
    if inner != {ONE: F1}:
        if inner == {ONE: -F1}: raise NonFinite('sqrt of negative')
        A = atom('P', fz(inner), 'nonneg')
        mono = mmul(mono, ((A.id, Fraction(1, 2)),))
    return preduce({mono: coef})

def pexp(p):
    r = {ONE: F1}
    mono = []
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and BYID[m[0][0]].kind == 'L':
            base = dict(BYID[m[0][0]].pl)
            if c.denominator == 1:
                r = pmul(r, ppow(base, int(c)))
            elif len(base) == 1 and list(base.values())[0] == 1 and all(BYID[i].pos for i, e in list(base)[0]):
                r = pmul(r, preduce({mpow(list(base)[0], c): F1}))
            else:
                A = atom('P', fz(base), 'pos')
                r = pmul(r, {((A.id, norm_e(c)),): F1})
        else:
            A = atom('E', m, 'pos')
            mono.append((A.id, norm_e(c)))
    return pmul(r, {tuple(sorted(mono)): F1})

def plog_int(n):
    r = {}
    d = 2
    while n > 1 and d < 2000:
        k = 0
        while n % d == 0: n //= d; k += 1
        if k:
            A = atom('L', fz({ONE: Fraction(d)}))
            r = padd(r, {((A.id, 1),): Fraction(k)})
        d += 1
    if n > 1:
        A = atom('L', fz({ONE: Fraction(n)}))
        r = padd(r, {((A.id, 1),): F1})
    return r

def plog(p):
    c, gm, q = content(p)
    q = preduce(q)
    if len(q) == 1:
        (m1, c1), = q.items(); c *= c1; gm = mmul(gm, m1); q = {ONE: F1}
    res = {}
    unk = []
    for i, e in gm:
        a = BYID[i]
        if a.kind == 'E': res = padd(res, {a.pl: F1}, Fraction(e))
        elif a.pos:
            base = {((i, 1),): F1} if a.kind != 'P' else dict(a.pl)
            L = atom('L', fz(base)); res = padd(res, {((L.id, 1),): Fraction(e)})
        else: unk.append((i, e))
    if c < 0:
        q = {m: -v for m, v in q.items()}; c = -c
    res = padd(res, padd(plog_int(c.numerator), plog_int(c.denominator), Fraction(-1)))
    if unk: q = pmul({tuple(unk): F1}, q)
    if q != {ONE: F1}:
        if q == {ONE: -F1}: raise NonFinite('log of negative')
        L = atom('L', fz(q)); res = padd(res, {((L.id, 1),): F1})
    return res

def nf(x):
    """normal form (Laurent polynomial dict)"""
    if type(x) is Fraction: return {ONE: x} if x else {}
    if type(x) is float: raise NonFinite(str(x))
    if x.nf is not None: return x.nf
    # iterative post-order to avoid recursion
    stack = [x]
    while stack:
        y = stack[-1]
        if y.nf is not None: stack.pop(); continue
        kids = [k for k in (y.a, y.b) if type(k) is R and k.nf is None]
        if kids: stack.extend(kids); continue
        y.nf = _nf1(y)
        stack.pop()
    return x.nf

def _n(x): return x.nf if type(x) is R else nf(x)

def _nf1(y):
    op = y.op
    if op == 'v': return {((atom('v', y.name, y.sign).id, 1),): F1}
    if op == '+': return preduce(padd(_n(y.a), _n(y.b)))
    if op == '*': return pmul(_n(y.a), _n(y.b))
    if op == '/':
        d = clear_zero(_n(y.b))
        if not d: raise NonFinite('division by zero')
        return pmul(_n(y.a), pinv(_n(y.b)))
    if op == 'exp': return pexp(_n(y.a))
    if op == 'log': return plog(_n(y.a))
    if op == 'sqrt': return psqrt(_n(y.a))
    raise ValueError(op)

def clear_zero(p):
    """multiply p by denominators; returns a polynomial which is {} iff p == 0 (atoms independent)"""
    for _ in range(12):
        mins = {}
        for m in p:
            for i, e in m:
                if e < 0 and BYID[i].kind == 'P':
                    f = math.floor(e)
                    if f < mins.get(i, 0): mins[i] = f
        if not mins: return p
        mm = tuple(sorted((i, -f) for i, f in mins.items()))
        p = preduce({mmul(m, mm): c for m, c in p.items()})
    return p

# ----------------------------------------------------------------------------- z3 lowering
class Lower:
    """Lowers normal forms / DAGs to z3 reals.  defs: side conditions per z3 helper variable."""
    def __init__(self):
        self.cache = {}
        self.defs = {}      # z3 var name -> list of constraints
        self.deps = {}
        self.dag = {}
    def V(self, name): return z3.Real(name)

    def atom_pow(self, aid, e, used):
        a = BYID[aid]
        q = e.denominator if isinstance(e, Fraction) else 1
        num = e.numerator if isinstance(e, Fraction) else e
        neg_ = num < 0
        num = abs(num)
        base = self.root(a, q, used)
        if neg_:
            base = self.inv(a, q, base, used)
        r = base
        for _ in range(num - 1): r = r * base
        return r

    def base(self, a, used):
        key = ('b', a.id)
        v = self.cache.get(key)
        if v is None:
            if a.kind == 'v': v = z3.Real(a.pl); d = []
            elif a.kind == 'C': v = z3.RealVal(a.pl); d = []
            elif a.kind == 'E':
                v = z3.Real('E!%d' % a.id); sub = set()
                arg = self.poly({a.pl: F1}, sub)
                d = [v > 0, z3.Implies(arg >= 0, v >= 1 + arg), z3.Implies(arg <= 0, v <= 1), v >= 1 + arg]
                d = [(x, sub) for x in d]
            elif a.kind == 'L':
                v = z3.Real('L!%d' % a.id); sub = set()
                arg = self.poly(dict(a.pl), sub)
                d = [(v <= arg - 1, sub), (z3.Implies(arg >= 1, v >= 0), sub), (z3.Implies(arg < 1, v < 0), sub)]
            else:
                sub = set()
                v = self.poly(dict(a.pl), sub); d = [(None, sub)]
            self.cache[key] = v
            self.defs[key] = d
        used.add(key)
        return v

    def root(self, a, q, used):
        b = self.base(a, used)
        if q == 1: return b
        key = ('r', a.id, q)
        v = self.cache.get(key)
        if v is None:
            v = z3.Real('root!%d!%d' % (a.id, q))
            pw = v
            for _ in range(q - 1): pw = pw * v
            self.cache[key] = v
            self.defs[key] = [(v >= 0, {('b', a.id)}), (pw == b, {('b', a.id)})]
            if a.pos == 'pos': self.defs[key].append((v > 0, set()))
        used.add(key)
        return v

    def inv(self, a, q, base, used):
        key = ('i', a.id, q)
        v = self.cache.get(key)
        if v is None:
            v = z3.Real('inv!%d!%d' % (a.id, q))
            self.cache[key] = v
            self.defs[key] = [(v * base == 1, {('b', a.id), ('r', a.id, q)} if q > 1 else {('b', a.id)})]
        used.add(key)
        return v

    def poly(self, p, used):
        terms = []
        for m, c in p.items():
            t = None
            for i, e in m:
                x = self.atom_pow(i, e, used)
                t = x if t is None else t * x
            cv = z3.RealVal(str(c.numerator) if c.denominator == 1 else '%d/%d' % (c.numerator, c.denominator))
            if t is None: t = cv
            elif c != 1: t = cv * t
            terms.append(t)
        if not terms: return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def side(self, used):
        """all side constraints reachable from used keys"""
        out = []; seen = set(); todo = list(used)
        while todo:
            k = todo.pop()
            if k in seen or k not in self.defs: continue
            seen.add(k)
            for d in self.defs[k]:
                if isinstance(d, tuple):
                    c, sub = d
                    if c is not None: out.append((k, c))
                    todo.extend(sub)
                else: out.append((k, d))
        return out

    def lower(self, x, used):
        """z3 term for value x (Fraction or R)"""
        if type(x) is Fraction:
            return z3.RealVal(str(x.numerator) if x.denominator == 1 else '%d/%d' % (x.numerator, x.denominator))
        old = LIMIT[0]
        LIMIT[0] = 3000
        try:
            return self.poly(nf(x), used)
        except TooBig:
            return self.lower_dag(x, used)
        finally:
            LIMIT[0] = old

    def lower_dag(self, x, used):
        if type(x) is Fraction: return self.lower(x, used)
        r = self.dag.get(x.id)
        if r is not None:
            used |= r[1]; return r[0]
        u = set()
        if x.op == 'v': v = z3.Real(x.name)
        elif x.op in '+*/':
            a = self.lower_dag(x.a, u); b = self.lower_dag(x.b, u)
            v = a + b if x.op == '+' else a * b if x.op == '*' else a / b
        else:
            a = self.lower_dag(x.a, u)
            v = z3.Real('%s!dag%d' % (x.op, x.id))
            key = ('d', x.id)
            if x.op == 'exp': d = [v > 0, v >= 1 + a]
            elif x.op == 'sqrt': d = [v >= 0, v * v == a]
            else: d = [v <= a - 1]
            self.defs[key] = [(c, set(u)) for c in d]
            u.add(key)
        self.dag[x.id] = (v, u)
        used |= u
        return v
