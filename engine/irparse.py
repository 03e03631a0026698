"""Parser for textual LLVM 18 IR (opaque pointers).  Functions are parsed lazily."""
import re, struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            e = s.find('\n', pos)
            if e < 0: break
            pos = e; continue
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("tokenize: %r" % s[pos:pos+60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out

def unq(name):
    # strip sigil and quotes
    n = name[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

# ---- types -----------------------------------------------------------------
# ('i',n) ('f',bits) ('ptr',) ('void',) ('a',n,t) ('s',(t,..),packed) ('v',n,t) ('label',) ('meta',) ('fn',)
PTR = ('ptr',); VOID = ('void',); F64 = ('f', 64); F32 = ('f', 32); F80 = ('f', 80)
LABEL = ('label',); META = ('meta',); OPAQUE = ('opaque',)

_ti_cache = {}
def size_align(t):
    r = _ti_cache.get(t)
    if r: return r
    k = t[0]
    if k == 'i':
        n = t[1]
        b = 1
        while b * 8 < n: b *= 2
        r = (b, min(b, 16) if b <= 8 else 16)
        if n > 64: r = ((n + 7) // 8, 16)
    elif k == 'f':
        r = {64: (8, 8), 32: (4, 4), 80: (16, 16)}[t[1]]
    elif k == 'ptr': r = (8, 8)
    elif k == 'a':
        s, a = size_align(t[2]); r = (s * t[1], a)
    elif k == 'v':
        s, a = size_align(t[2]); r = (s * t[1], s * t[1])
    elif k == 's':
        off = 0; al = 1
        for f in t[1]:
            s, a = size_align(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        r = ((off + al - 1) // al * al, al)
    elif k == 'opaque': r = (1, 1)
    elif k == 'fn': r = (1, 1)
    else: raise ValueError(t)
    _ti_cache[t] = r
    return r

_fo_cache = {}
def field_offset(t, idx):
    key = (t, idx)
    r = _fo_cache.get(key)
    if r is not None: return r
    off = 0
    for i, f in enumerate(t[1]):
        s, a = size_align(f)
        if t[2]: a = 1
        off = (off + a - 1) // a * a
        if i == idx:
            _fo_cache[key] = off
            return off
        off += s
    raise IndexError

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i]; self.i += 1; return v
    def nextv(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def eat(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError("expected %r got %r in %r" % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    def type(self):
        k, v = self.next()
        if v == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.nextv(); self.expect('('); self.nextv(); self.expect(')')
        elif v == 'void': t = VOID
        elif v == 'double': t = F64
        elif v == 'float': t = F32
        elif v == 'x86_fp80': t = F80
        elif v == 'label': t = LABEL
        elif v == 'metadata': t = META
        elif v == 'token': t = META
        elif v == 'opaque': t = OPAQUE
        elif k == 'word' and re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
        elif k == 'loc':
            t = self.mod.named_type(unq(v))
        elif v == '[':
            n = int(self.nextv()); self.expect('x'); et = self.type(); self.expect(']')
            t = ('a', n, et)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'): break
                    self.expect(',')
            t = ('s', tuple(fs), False)
        elif v == '<':
            if self.peek() == '{':
                self.nextv(); fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'): break
                        self.expect(',')
                self.expect('>')
                t = ('s', tuple(fs), True)
            else:
                n = int(self.nextv()); self.expect('x'); et = self.type(); self.expect('>')
                t = ('v', n, et)
        else:
            raise SyntaxError("type? %r in %r" % (v, ' '.join(x[1] for x in self.t)[:300]))
        # function type:  ret (args)
        if self.peek() == '(' and t[0] != 'label':
            # could be function type in call:  "void (ptr, ...)"
            save = self.i
            try:
                self.nextv()
                while not self.eat(')'):
                    if self.eat('...'): pass
                    else: self.type()
                    self.eat(',')
                t = ('fn', t)
            except SyntaxError:
                self.i = save
        return t

    # ---- values: returns ('r',name) | ('c',type,val) etc
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('r', unq(v))
        if k == 'glob': return ('g', unq(v))
        if k == 'num':
            if ty[0] == 'f':
                return ('f', parse_float(v, ty))
            return ('i', int(v) & ((1 << ty[1]) - 1)) if ty[0] == 'i' else ('i', int(v))
        if v == 'true': return ('i', 1)
        if v == 'false': return ('i', 0)
        if v == 'null': return ('i', 0)
        if v in ('undef', 'poison'): return ('undef', ty)
        if v == 'zeroinitializer': return ('zero', ty)
        if v == 'none': return ('i', 0)
        if k == 'str':
            return ('bytes', parse_cstr(v))
        if v == '{' or (v == '<' and self.peek() == '{'):
            packed = v == '<'
            if packed: self.nextv()
            els = []
            if not self.eat('}'):
                while True:
                    t = self.type(); els.append((t, self.value(t)))
                    if self.eat('}'): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', els)
        if v == '[' or v == '<':
            close = ']' if v == '[' else '>'
            els = []
            if not self.eat(close):
                while True:
                    t = self.type(); els.append((t, self.value(t)))
                    if self.eat(close): break
                    self.expect(',')
            return ('agg', els)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.nextv()
                if self.peek() == '(' and self.peek(-1) == 'inrange':
                    while not self.eat(')'): self.nextv()
            self.expect('(')
            t = self.type(); self.expect(',')
            ops = []
            while True:
                self.eat('inrange')
                ot = self.type(); ops.append((ot, self.value(ot)))
                if self.eat(')'): break
                self.expect(',')
            return ('cgep', t, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('('); t = self.type(); val = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', v, t, val, t2)
        if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact'): self.nextv()
            self.expect('(')
            t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', v, t, a, b)
        if v in ('icmp',):
            pred = self.nextv(); self.expect('(')
            t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cicmp', pred, t, a, b)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return self.value(ty)
        if k == 'meta':
            return ('meta',)
        raise SyntaxError("value? %r in %r" % (v, ' '.join(x[1] for x in self.t)[:400]))

def parse_float(v, ty):
    if v.startswith('0x'):
        if v[2] == 'K':
            raw = int(v[3:], 16)
            return ('x87', raw)
        bits = int(v[2:], 16)
        return struct.unpack('<d', struct.pack('<Q', bits))[0]
    return float(v)

def parse_cstr(v):
    s = v[v.index('"') + 1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('utf-8'); i += 1
    return bytes(out)

class Func:
    __slots__ = ('name', 'ret', 'params', 'body', 'mod', 'vararg', 'blocks', 'order', 'compiled', 'addr')
    def __init__(self, name, ret, params, body, mod, vararg):
        self.name = name; self.ret = ret; self.params = params; self.body = body
        self.mod = mod; self.vararg = vararg; self.blocks = None; self.compiled = None; self.addr = 0

class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'external')

LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc'}
PATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext', 'returned',
         'inreg', 'nest', 'immarg', 'swiftself', 'nofree', 'noext', 'writable', 'dead_on_unwind', 'inalloca', 'allocptr', 'allocalign'}
PATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'range', 'preallocated', 'nofpclass', 'initializes', 'captures'}

def skip_pattrs(p):
    byval = None
    while True:
        v = p.peek()
        if v in PATTR: p.nextv()
        elif v in PATTR_ARG:
            p.nextv()
            if v == 'byval':
                p.expect('('); byval = p.type(); p.expect(')')
            elif p.peek() == '(':
                d = 0
                while True:
                    x = p.nextv()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
            else:
                p.nextv()
        elif p.kind() == 'attr': p.nextv()
        elif p.kind() == 'str':
            p.nextv()
            if p.eat('='): p.nextv()
        else: return byval

class Module:
    def __init__(self, text):
        self.types = {}
        self._tdefs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self._parse(text)

    def named_type(self, n):
        t = self.types.get(n)
        if t is None:
            d = self._tdefs.get(n)
            if d is None: t = OPAQUE
            else: t = P(tokenize(d), self).type()
            self.types[n] = t
        return t

    def _parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        defs = []
        gl = []
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', l)
                self._tdefs[unq(m.group(1))] = m.group(2)
            elif l.startswith('@'):
                gl.append(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                defs.append((l, lines[i + 1:j])); i = j
            elif l.startswith('declare'):
                defs.append((l, None))
            i += 1
        for l in gl: self._global(l)
        for l, b in defs: self._func(l, b)

    def _global(self, l):
        p = P(tokenize(l), self)
        name = unq(p.nextv()); p.expect('=')
        ext = False
        while True:
            v = p.peek()
            if v in ('external', 'extern_weak'): ext = True; p.nextv()
            elif v in LINKAGE:
                p.nextv()
                if p.peek() == '(' :
                    while not p.eat(')'): p.nextv()
            elif v == 'addrspace':
                p.nextv(); p.expect('('); p.nextv(); p.expect(')')
            else: break
        if p.peek() in ('alias', 'ifunc'):
            p.nextv(); t = p.type(); p.expect(','); t2 = p.type(); val = p.value(t2)
            self.aliases[name] = val
            return
        g = Global(); g.name = name; g.external = ext
        g.const = p.nextv() == 'constant'
        g.ty = p.type()
        g.init = None if ext else p.value(g.ty)
        self.globals[name] = g

    def _func(self, l, body):
        p = P(tokenize(l), self)
        p.nextv()
        while True:
            v = p.peek()
            if v in LINKAGE: p.nextv()
            elif v in PATTR or v in PATTR_ARG: skip_pattrs(p)
            else: break
        # return type: avoid function-type parse greediness (next is @name)
        ret = p.type()
        name = unq(p.nextv())
        p.expect('(')
        params = []; vararg = False
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    vararg = True
                else:
                    t = p.type(); bv = skip_pattrs(p)
                    nm = None
                    if p.kind() == 'loc': nm = unq(p.nextv())
                    params.append((t, nm, bv))
                if p.eat(')'): break
                p.expect(',')
        f = Func(name, ret, params, body, self, vararg)
        if body is None: self.decls[name] = f
        else: self.funcs[name] = f

    # ---- function bodies
    def parse_body(self, f):
        if f.blocks is not None: return
        blocks = {}; order = []
        # implicit numbering: unnamed params then entry
        cnt = 0
        params = []
        for (t, nm, bv) in f.params:
            if nm is None: nm = str(cnt); cnt += 1
            elif nm.isdigit(): cnt = int(nm) + 1
            params.append((t, nm, bv))
        f.params = params
        cur = None
        lines = f.body
        i = 0; n = len(lines)
        m = re.match(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):', lines[0]) if lines else None
        if not m:
            cur = str(cnt); blocks[cur] = []; order.append(cur)
        while i < n:
            l = lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'): continue
            if not l.startswith(' '):
                m = re.match(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):', l)
                if m:
                    cur = m.group(1)
                    if cur.startswith('"'): cur = cur[1:-1]
                    blocks[cur] = []; order.append(cur)
                    continue
            s = l.strip()
            # multi-line constructs
            if re.search(r'(^|= )invoke ', s):
                while ' unwind label' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            elif re.search(r'= landingpad ', s):
                while i < n and re.match(r'\s+(catch|filter|cleanup)\b', lines[i]):
                    s += ' ' + lines[i].strip(); i += 1
            elif s.startswith('switch '):
                while not re.search(r'\]', s):
                    s += ' ' + lines[i].strip(); i += 1
            blocks[cur].append(s)
        f.blocks = blocks; f.order = order
        f.body = None
