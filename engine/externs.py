"""Models of the C/C++ runtime for the symbolic executor, and the vp_* harness API."""
import math, re, struct
from fractions import Fraction
import z3
import irparse as ir
import reals as rl
import symex as sx_
from symex import M64, CxxExc, PathEnd, Unsupported, MemError, Terminate, Obj, s64

STD_EXC = {  # class (mangled length-name) -> base
    '9exception': None, '11logic_error': '9exception', '13runtime_error': '9exception', '9bad_alloc': '9exception',
    '16invalid_argument': '11logic_error', '12out_of_range': '11logic_error', '12length_error': '11logic_error',
    '12domain_error': '11logic_error', '11range_error': '13runtime_error', '14overflow_error': '13runtime_error',
    '15underflow_error': '13runtime_error', '8bad_cast': '9exception', '10bad_typeid': '9exception',
    '12bad_weak_ptr': '9exception', '12system_error': '13runtime_error', '20bad_array_new_length': '9bad_alloc',
    '17bad_function_call': '9exception', '19bad_optional_access': '9exception', '12bad_any_cast': '8bad_cast',
    '18bad_variant_access': '9exception', '13bad_exception': '9exception'}

def install(E):
    X = E.externs
    E.pending = {}
    E.std_bases = {}
    E.extra_globals = {}
    m = E.m

    # ---- std exception classes: type_info objects and vtables
    def ext_global(name, size):
        """address of global `name`; (re)defined here unless the module defines it"""
        g = m.globals.get(name)
        if g is not None and not g.external: return None
        if name not in E.gaddr_:
            E.gaddr_[name] = E.nextg << 32; E.nextg += 1
        o = Obj(); o.size = size; o.data = bytearray(size); o.init = bytearray(b'\1' * size); o.cells = {}; o.kind = 'const'
        E.extra_globals[name] = o
        return o

    def exc_dtor(p, *a): return None
    def exc_dtor0(p, *a): E.free(p)
    def exc_what(p, *a):
        q = E.ld(p + 8, 8) if E.mem[p >> 32].size >= 16 else 0
        return q or E.addr_of('__vp_what')
    a_d1 = E.new_function('__vp_exc_d1', exc_dtor); a_d0 = E.new_function('__vp_exc_d0', exc_dtor0)
    a_what = E.new_function('__vp_exc_what', exc_what)
    o = ext_global('__vp_what', 16); o.data[0:9] = b'exception'
    for c, b in STD_EXC.items():
        ti = '_ZTISt' + c; vt = '_ZTVSt' + c
        if ext_global(ti, 24) is not None:
            E.std_bases[ti] = ['_ZTISt' + b] if b else []
    for c in STD_EXC:
        vo = ext_global('_ZTVSt' + c, 64)
        if vo is not None:
            for off, v in ((8, E.addr_of('_ZTISt' + c)), (16, a_d1), (24, a_d0), (32, a_what)):
                vo.data[off:off + 8] = v.to_bytes(8, 'little')
    # fundamental type infos
    for t in 'vbcahstijlmxyfdew':
        n = '_ZTI' + t
        if n in m.globals and m.globals[n].external: ext_global(n, 16)
    o = ext_global('__libc_single_threaded', 8); o.data[0] = 1
    ext_global('__dso_handle', 8)
    # standard streams: output has no effect, but inlined std::endl looks the ctype facet up
    fo = ext_global('__vp_ctype', 640); fo.data[56] = 1
    vo = ext_global('__vp_streamvt', 64); vo.data[8:16] = (8).to_bytes(8, 'little')
    for n in ('_ZSt4cerr', '_ZSt4cout', '_ZSt4clog'):
        if n in m.globals and m.globals[n].external:
            o = ext_global(n, 280); o.kind = 'global'
            o.data[0:8] = (E.addr_of('__vp_streamvt') + 32).to_bytes(8, 'little')
            o.data[248:256] = E.addr_of('__vp_ctype').to_bytes(8, 'little')

    def mkexc(cls, msg=0):
        p = E.alloc(64, 'heap', 1)
        E.st_i(p, E.addr_of('_ZTVSt' + cls) + 16, 8)
        E.st_i(p + 8, msg, 8)
        return p
    def throw_std(cls):
        return CxxExc(mkexc(cls), E.addr_of('_ZTISt' + cls))
    E.throw_std = throw_std

    def ctor_c(cls):
        def f(p, s=0, *a):
            E.st_i(p, E.addr_of('_ZTVSt' + cls) + 16, 8)
            E.st_i(p + 8, s if type(s) is int else 0, 8)
        return f
    def ctor_s(cls):
        def f(p, s, *a):
            E.st_i(p, E.addr_of('_ZTVSt' + cls) + 16, 8)
            src = E.ld(s, 8); n = E.ci(E.ld(s + 8, 8))
            q = E.alloc(n + 1, 'heap', 1)
            E.memcpy(q, src, n)
            E.st_i(p + 8, q, 8)
        return f
    def ctor_copy(cls):
        def f(p, s, *a):
            E.st_i(p, E.addr_of('_ZTVSt' + cls) + 16, 8); E.st_i(p + 8, E.ld(s + 8, 8), 8)
        return f
    SS = 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
    for c in STD_EXC:
        for k in '12':
            X['_ZNSt%sC%sEPKc' % (c, k)] = ctor_c(c)
            X['_ZNSt%sC%sE%s' % (c, k, SS)] = ctor_s(c)
            X['_ZNSt%sC%sEv' % (c, k)] = ctor_c(c)
            X['_ZNSt%sC%sERKS_' % (c, k)] = ctor_copy(c)
            X['_ZNSt%sC%sEOS_' % (c, k)] = ctor_copy(c)
            X['_ZNSt%sD%sEv' % (c, k)] = exc_dtor
        X['_ZNSt%sD0Ev' % c] = exc_dtor0
        X['_ZNKSt%s4whatEv' % c] = exc_what
    # classes whose members the headers define inline must use the inline code
    for n in [n for n in list(X) if n in m.funcs and n.startswith('_ZN')]: del X[n]

    def thrower(cls):
        def f(*a): raise throw_std(cls)
        return f
    for name, cls in (('_ZSt17__throw_bad_allocv', '9bad_alloc'), ('_ZSt19__throw_logic_errorPKc', '11logic_error'),
                      ('_ZSt20__throw_length_errorPKc', '12length_error'), ('_ZSt20__throw_out_of_rangePKc', '12out_of_range'),
                      ('_ZSt24__throw_out_of_range_fmtPKcz', '12out_of_range'), ('_ZSt16__throw_bad_castv', '8bad_cast'),
                      ('_ZSt28__throw_bad_array_new_lengthv', '20bad_array_new_length'), ('_ZSt20__throw_system_errori', '12system_error'),
                      ('_ZSt25__throw_bad_function_callv', '17bad_function_call'), ('_ZSt24__throw_invalid_argumentPKc', '16invalid_argument'),
                      ('_ZSt21__throw_runtime_errorPKc', '13runtime_error'), ('_ZSt18__throw_bad_typeidv', '10bad_typeid'),
                      ('__cxa_bad_cast', '8bad_cast'), ('__cxa_bad_typeid', '10bad_typeid'),
                      ('__cxa_throw_bad_array_new_length', '20bad_array_new_length'), ('_ZSt20__throw_domain_errorPKc', '12domain_error')):
        X[name] = thrower(cls)

    # ---- exception runtime
    X['__cxa_allocate_exception'] = lambda n, *a: E.alloc(max(E.ci(n), 16), 'heap', 1)
    X['__cxa_free_exception'] = lambda p, *a: E.mem.pop(p >> 32, None) and None
    def cxa_throw(p, ti, dt): raise CxxExc(p, ti)
    X['__cxa_throw'] = cxa_throw
    def begin_catch(p):
        E.caught.append(p)
        return p
    def end_catch():
        if E.caught: E.caught.pop()
    def rethrow():
        if not E.caught: raise Terminate('rethrow without exception')
        p = E.caught[-1]
        raise CxxExc(p, E.pending[p])
    X['__cxa_begin_catch'] = begin_catch
    X['__cxa_get_exception_ptr'] = lambda p: p
    X['__cxa_end_catch'] = end_catch
    X['__cxa_rethrow'] = rethrow
    def terminate(*a): raise Terminate('std::terminate')
    X['_ZSt9terminatev'] = terminate
    X['abort'] = terminate
    X['__clang_call_terminate'] = terminate
    X['__cxa_pure_virtual'] = lambda *a: (_ for _ in ()).throw(Terminate('pure virtual call'))
    X['__cxa_call_unexpected'] = terminate
    E.resume = lambda v: CxxExc(v[0], E.pending[v[0]])
    def guard_acquire(g):
        return 0 if E.ld(g, 1) else 1
    def guard_release(g): E.st_i(g, 1, 1)
    X['__cxa_guard_acquire'] = guard_acquire
    X['__cxa_guard_release'] = guard_release
    X['__cxa_guard_abort'] = lambda g: None
    X['__cxa_atexit'] = lambda *a: 0
    X['__cxa_thread_atexit'] = lambda *a: 0
    X['atexit'] = lambda *a: 0
    X['__dynamic_cast'] = lambda p, s, d, h: E.dynamic_cast(p, s, d, h)
    def demangle(name, buf, lenp, status):
        s = E.cstr(name)
        q = E.alloc(len(s) + 1, 'heap', 1)
        E.mem[q >> 32].data[:len(s)] = s
        if status: E.st_i(status, 0, 4)
        return q
    X['__cxa_demangle'] = demangle

    # ---- memory
    new = lambda n, *a: E.alloc(n, 'heap')
    for n in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'malloc'): X[n] = new
    X['aligned_alloc'] = lambda a, n: E.alloc(n, 'heap')
    X['calloc'] = lambda a, b: E.alloc(E.ci(a) * E.ci(b), 'heap', 1)
    def realloc(p, n):
        q = E.alloc(n, 'heap')
        if p:
            k = min(E.mem[p >> 32].size, E.ci(n)); E.memcpy(q, p, k); E.free(p)
        return q
    X['realloc'] = realloc
    fr = lambda p, *a: E.free(p)
    for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t', 'free'): X[n] = fr
    X['memcpy'] = X['memmove'] = E.memcpy
    X['memset'] = E.memset
    def rdbytes(p, n):
        p = E.ci(p); n = E.ci(n)
        o = E.mem.get(p >> 32); off = p & 0xffffffff
        if n == 0: return b''
        if o is None or off + n > o.size: E.memerr('read', p)
        if any(off - 15 <= k < off + n and k + c[0] > off for k, c in o.cells.items()):
            out = bytearray()
            for i in range(n):
                out.append(E.ci(E.ld(p + i, 1)))
            return bytes(out)
        return bytes(o.data[off:off + n])
    E.rdbytes = rdbytes
    def memcmp(a, b, n):
        x = rdbytes(a, n); y = rdbytes(b, n)
        return (0 if x == y else 1 if x > y else 0xffffffff)
    X['memcmp'] = X['bcmp'] = memcmp
    X['strlen'] = lambda p: len(E.cstr(E.ci(p)))
    def strcmp(a, b):
        x = E.cstr(E.ci(a)); y = E.cstr(E.ci(b))
        return 0 if x == y else 1 if x > y else 0xffffffff
    X['strcmp'] = strcmp
    X['strncmp'] = lambda a, b, n: (lambda x, y: 0 if x == y else 1 if x > y else 0xffffffff)(E.cstr(a)[:E.ci(n)], E.cstr(b)[:E.ci(n)])
    def memchr(p, c, n):
        x = rdbytes(p, n); i = x.find(bytes([E.ci(c) & 255]))
        return p + i if i >= 0 else 0
    X['memchr'] = memchr

    # ---- hashing / containers
    def hash_bytes(p, n, seed):
        h = 1469598103934665603
        for b in rdbytes(p, n): h = ((h ^ b) * 1099511628211) & M64
        return h
    X['_ZSt11_Hash_bytesPKvmm'] = hash_bytes
    PR = '_ZNKSt8__detail20_Prime_rehash_policy'
    primes = [2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731]
    def nextp(n):
        for q in primes:
            if q >= n: return q
        raise Unsupported('rehash')
    def need_rehash(this, nb, ne, ni):
        nb = E.ci(nb); ne = E.ci(ne); ni = E.ci(ni)
        if ne + ni > nb:
            return (1, nextp(max(11, ne + ni, 2 * nb)))
        return (0, 0)
    X[PR + '14_M_need_rehashEmmm'] = need_rehash
    X[PR + '11_M_next_bktEm'] = lambda t, n: nextp(E.ci(n))
    RB = 'RSt18_Rb_tree_node_base'
    X['_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'] = X['_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'] = lambda x: rb_next(E, x)
    X['_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base'] = X['_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'] = lambda x: rb_prev(E, x)
    X['_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_'] = lambda l, x, p, h: rb_insert(E, l, x, p, h)

    # ---- threads
    for n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_trylock'):
        X[n] = lambda *a: 0
    X['_ZNSt8ios_base4InitC1Ev'] = X['_ZNSt8ios_base4InitD1Ev'] = lambda *a: None

    # ---- random device: arbitrary 32-bit words
    X['_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'] = lambda *a: None
    X['_ZNSt13random_device7_M_finiEv'] = lambda *a: None
    def getval(*a):
        v = E.new_bv('random_device', 32)
        E.entropy.append(v)
        return v
    X['_ZNSt13random_device9_M_getvalEv'] = getval

    # ---- iostream: output has no effect
    ios = lambda E_, n, d: (lambda p=0, *a: p)
    E.extern_patterns += [
        (re.compile(r'std::(basic_ostream<char.*>|ostream)& ?(std::)?(basic_ostream|ostream|__ostream_insert|operator<<|endl|flush|put)|std::ostream& std::ostream::_M_insert|std::ostream::|std::basic_ostream<char'), ios, True),
        (re.compile(r'^std::(ctype|locale|ios_base|basic_ios)'), lambda E_, n, d: (lambda p=0, *a: 0), True),
        (re.compile(r'^std::basic_ostream<char, std::char_traits<char>>& std::(operator<<|endl|flush)'), ios, False),
        (re.compile(r'^std::ostream& std::ostream::_M_insert'), ios, False),
        (re.compile(r'^std::basic_ostream<char, std::char_traits<char>>::operator<<'), ios, False),
    ]
    OSS = 'NSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE'
    def oss_ctor(p, *a):
        # vptr stays unset: only the (empty) string buffer is ever read
        E.memset(p, 0, 112)
        return None
    X['_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev'] = oss_ctor
    X['_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev'] = lambda *a: None
    def oss_str(ret, p, *a):
        E.st_i(ret, ret + 16, 8); E.st_i(ret + 8, 0, 8); E.st_i(ret + 16, 0, 1)
    E.extern_patterns.append((re.compile(r'basic_ostringstream<char.*>::str\(\) const|basic_stringbuf<char.*>::str\(\) const'), lambda E_, n, d: oss_str, False))

    X['__cxa_thread_atexit'] = lambda *a: 0
    # ---- libm
    one = lambda f: (lambda E_, *a: None)
    X['exp'] = X['__exp_finite'] = lambda x: E.fexp(x)
    X['log'] = lambda x: E.flog(x)
    X['sqrt'] = lambda x: E.fsqrt(x)
    X['pow'] = lambda x, y: E.fpow(x, y)
    X['fabs'] = lambda x: E.fabs(x)
    X['fmax'] = lambda a, b: E.fminmax(a, b, True)
    X['fmin'] = lambda a, b: E.fminmax(a, b, False)
    X['expm1'] = lambda x: E.fbin('-', E.fexp(x), E.fconst(1.0))
    X['log1p'] = lambda x: E.flog(E.fbin('+', x, E.fconst(1.0)))
    X['exp2'] = lambda x: E.fpow(E.fconst(2.0), x)
    X['log2'] = lambda x: E.fbin('/', E.flog(x), E.flog(E.fconst(2.0)))
    X['log10'] = lambda x: E.fbin('/', E.flog(x), E.flog(E.fconst(10.0)))
    X['cbrt'] = lambda x: E.fpow(x, Fraction(1, 3))
    X['floor'] = lambda x: E.fround(x, 'floor')
    X['ceil'] = lambda x: E.fround(x, 'ceil')
    X['round'] = lambda x: E.fround(x, 'round')
    X['nearbyint'] = X['rint'] = lambda x: E.fround(x, 'rint')
    X['trunc'] = lambda x: E.fround(x, 'trunc')
    X['hypot'] = lambda a, b: E.fsqrt(E.fbin('+', E.fbin('*', a, a), E.fbin('*', b, b)))
    X['fma'] = lambda a, b, c: E.fbin('+', E.fbin('*', a, b), c)
    X['copysign'] = lambda a, b: E.copysign(a, b)
    X['lround'] = X['llround'] = lambda x: E.ftoi(E.fround(x, 'round'), 64, True)

    for n in ('exp', 'log', 'sqrt', 'pow', 'fabs', 'fmax', 'fmin', 'expm1', 'log1p', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'copysign', 'hypot', 'fma', 'exp2', 'log2', 'log10'):
        X.setdefault(n + 'f', (lambda g: lambda *a: E.f32(g(*map(E.f64, a))))(X[n]))

    # ---- misc conversions used by generated code
    def d2i(x): 
        return E.to_bits(x, 64)
    def i2d(x):
        if type(x) is int: return E.from_bits(x)
        if isinstance(x, z3.BitVecRef):
            if E.mode == 'real': raise Unsupported('bits to real')
            return z3.fpBVToFP(x, sx_.FP64)
        return x
    E.d2i = d2i; E.i2d = i2d
    def byval(p, n):
        q = E.alloc(n, 'stack'); E.memcpy(q, p, n); return q
    E.byval = byval
    harness_api(E)

def rb_next(E, x):
    r = E.ld(x + 24, 8)
    if r:
        while True:
            l = E.ld(r + 16, 8)
            if not l: return r
            r = l
    y = E.ld(x + 8, 8)
    while x == E.ld(y + 24, 8):
        x = y; y = E.ld(y + 8, 8)
    return y if E.ld(x + 24, 8) != y else x

def rb_prev(E, x):
    if E.ld(x, 4) == 0 and E.ld(E.ld(x + 8, 8) + 8, 8) == x: return E.ld(x + 24, 8)
    l = E.ld(x + 16, 8)
    if l:
        while True:
            r = E.ld(l + 24, 8)
            if not r: return l
            l = r
    y = E.ld(x + 8, 8)
    while x == E.ld(y + 16, 8):
        x = y; y = E.ld(y + 8, 8)
    return y

def rb_insert(E, left, x, p, h):
    """unbalanced insertion (balance is not observable)"""
    E.st_i(x + 8, p, 8); E.st_i(x + 16, 0, 8); E.st_i(x + 24, 0, 8); E.st_i(x, 1, 4)
    if E.ci(left) & 1:
        E.st_i(p + 16, x, 8)
        if p == h: E.st_i(h + 8, x, 8); E.st_i(h + 24, x, 8)
        elif p == E.ld(h + 16, 8): E.st_i(h + 16, x, 8)
    else:
        E.st_i(p + 24, x, 8)
        if p == E.ld(h + 24, 8): E.st_i(h + 24, x, 8)

# ------------------------------------------------------------------------------------------ LLVM intrinsics
def intrinsic(E, name):
    p = name.split('.')
    k = p[1]
    w = 64
    mm = re.search(r'\.i(\d+)$', name)
    if mm: w = int(mm.group(1))
    if name.endswith('.f32') and k in ('fabs', 'sqrt', 'exp', 'log', 'pow', 'fmuladd', 'fma', 'maxnum', 'minnum', 'maximum', 'minimum', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'copysign'):
        g = intrinsic(E, name[:-4])
        return lambda *a: E.f32(g(*map(E.f64, a)))
    if k in ('memcpy', 'memmove'): return lambda d, s, n, *a: E.memcpy(d, s, n)
    if k == 'memset': return lambda d, v, n, *a: E.memset(d, v, n)
    if k in ('smin', 'smax', 'umin', 'umax'):
        pred = {'smin': 'slt', 'smax': 'sgt', 'umin': 'ult', 'umax': 'ugt'}[k]
        return lambda a, b: E.select(E.icmp(pred, a, b, w), a, b)
    if k == 'abs': return lambda a, b=0: E.select(E.icmp('slt', a, 0, w), E.ibin('sub', 0, a, w), a)
    if k == 'fabs': return lambda a: E.fabs(a)
    if k == 'sqrt': return lambda a: E.fsqrt(a)
    if k == 'exp': return lambda a: E.fexp(a)
    if k == 'log': return lambda a: E.flog(a)
    if k == 'pow': return lambda a, b: E.fpow(a, b)
    if k == 'powi': return lambda a, n: E.fpow(a, E.fconst(float(sx_.sx(E.ci(n), 32))))
    if k in ('fmuladd', 'fma'): return lambda a, b, c: E.fbin('+', E.fbin('*', a, b), c)
    if k in ('maxnum', 'maximum'): return lambda a, b: E.fminmax(a, b, True)
    if k in ('minnum', 'minimum'): return lambda a, b: E.fminmax(a, b, False)
    if k in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint'): return lambda a: E.fround(a, {'nearbyint': 'rint'}.get(k, k))
    if k == 'copysign': return lambda a, b: E.copysign(a, b)
    if k == 'eh': 
        if 'typeid' in name: return lambda ti: E.tid(ti)
    if k in ('trap', 'ubsantrap'):
        def trap(*a): raise Terminate('trap')
        return trap
    if k == 'is' and p[2] == 'constant': return lambda *a: 0
    if k == 'is' and p[2] == 'fpclass': return lambda x, mask: E.fpclass(x, mask)
    if k == 'objectsize': return lambda *a: M64
    if k == 'expect': return lambda a, *b: a
    if k == 'launder' or k == 'strip' or k == 'threadlocal': return lambda a: a   # one thread: a thread-local variable is one variable
    if k == 'stacksave': return lambda *a: 0
    if k == 'ctlz':
        return lambda a, z=0: w - E.ci(a).bit_length()
    if k == 'cttz':
        return lambda a, z=0: (lambda v: w if v == 0 else (v & -v).bit_length() - 1)(E.ci(a))
    if k == 'ctpop': return lambda a: bin(E.ci(a)).count('1')
    if k == 'bswap': return lambda a: int.from_bytes(E.ci(a).to_bytes(w // 8, 'little'), 'big')
    if k == 'fshl':
        return lambda a, b, c: (((E.ci(a) << (E.ci(c) % w)) | (E.ci(b) >> (w - E.ci(c) % w))) & ((1 << w) - 1)) if E.ci(c) % w else E.ci(a)
    if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and p[2] == 'with':
        op = k[1:]; sg = k[0] == 's'
        def ov(a, b):
            if type(a) is not int or type(b) is not int: a = E.ci(a); b = E.ci(b)
            x, y = (sx_.sx(a, w), sx_.sx(b, w)) if sg else (a, b)
            r = x * y if op == 'mul' else x + y if op == 'add' else x - y
            t = r & ((1 << w) - 1)
            return (t, int((sx_.sx(t, w) if sg else t) != r))
        return ov
    if k in ('usub', 'uadd') and p[2] == 'sat':
        def sat(a, b):
            a = E.ci(a); b = E.ci(b)
            return max(a - b, 0) if k == 'usub' else min(a + b, (1 << w) - 1)
        return sat
    if k in ('lifetime', 'assume', 'experimental', 'prefetch', 'dbg', 'donothing', 'invariant', 'stackrestore'):
        return lambda *a: 0
    def missing(*a): raise Unsupported('intrinsic ' + name)
    return missing

# ------------------------------------------------------------------------------------------ harness API
def harness_api(E):
    X = E.externs
    def nm(p): return E.cstr(p).decode()
    X['vp_double'] = lambda n: E.new_double(nm(n))
    def fl(x): return x if type(x) is float else float(x)
    X['vp_range'] = lambda n, lo, hi: E.new_double(nm(n), Fraction(lo) if E.mode == 'real' else fl(lo), Fraction(hi) if E.mode == 'real' else fl(hi))
    big = 1.7976931348623157e308
    X['vp_pos'] = lambda n: E.new_double(nm(n), 0, None if E.mode == 'real' else big, True)
    X['vp_nonneg'] = lambda n: E.new_double(nm(n), 0, None if E.mode == 'real' else big)
    def vp_int(n, lo, hi):
        lo = sx_.sx(lo, 32); hi = sx_.sx(hi, 32)
        z = E.new_bv(nm(n), 32)
        E.vars[-1] = E.vars[-1][:3] + (lo, hi, False)
        E.add(z3.And(z >= lo, z <= hi))
        return E.concretize(z)
    X['vp_int'] = vp_int
    X['vp_u32'] = lambda n: E.new_bv(nm(n), 32)
    def vp_bool(n):
        z = E.new_bv(nm(n), 32)
        E.vars[-1] = E.vars[-1][:3] + (0, 1, False)
        E.add(z3.And(z >= 0, z <= 1))
        return E.concretize(z)
    X['vp_bool'] = vp_bool
    def zbool(c):
        if type(c) is int: return bool(c)
        if isinstance(c, z3.BitVecRef): return c != 0
        return c
    def vp_assume(c):
        c = zbool(c)
        if c is True: return
        if c is False: raise PathEnd()
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        E.add(c)
        r, m = E.check([])
        if r == z3.unsat: raise PathEnd()
        if m is not None: E.model = m
    X['vp_assume'] = vp_assume
    def vp_assert(c, i):
        E.stats['asserts'] += 1
        c = zbool(c); i = nm(i)
        if c is True: E.note_ok(i); return
        if c is False:
            E.report('assert', i, None, [], id=i); return
        E.decide(i, z3.Not(c))
    X['vp_assert'] = vp_assert
    X['vp_assert_eq'] = lambda a, b, i: E.assert_eq(a, b, nm(i))
    X['vp_assert_le'] = lambda a, b, i: E.assert_le(a, b, nm(i))
    def vp_reach(i):
        n = nm(i)
        if n not in E.reach:
            r, m = E.check([], timeout=20000)
            if r == z3.unsat: raise PathEnd()
            E.reach[n] = 'sat' if r == z3.sat else 'unknown'
    X['vp_reach'] = vp_reach
    X['vp_entropy'] = lambda i: E.entropy[i] if i < len(E.entropy) else 0
    X['vp_entropy_count'] = lambda: len(E.entropy)
    X['vp_exact'] = lambda x: x
    X['vp_tier'] = lambda: getattr(E, 'tier', 0)
    X['vp_symbolic_engine'] = lambda: 1
    def vp_draw(kind, a, b):
        k = E.ci(kind)
        if k == 0: return E.fbin('+', a, E.fbin('*', b, E.new_double('z')))
        if k == 1: return E.fbin('/', E.new_double('e', 0), a)
        if k == 2: return E.fbin('*', b, E.new_double('g', 0))
        if k == 3: return E.fbin('+', a, E.fbin('*', E.fbin('-', b, a), E.new_double('u', 0, 1)))
        z = E.new_bv('n', 32); E.vars[-1] = E.vars[-1][:3] + (0, 1, False)
        E.add(z3.And(z >= 0, z <= 1))
        return E.itof(E.concretize(z), 32, True)
    if 'vp_draw' not in E.m.funcs: X['vp_draw'] = vp_draw
    if 'vp_qrng' not in E.m.funcs: X['vp_qrng'] = lambda *a: E.new_double('q', 0, 1)
