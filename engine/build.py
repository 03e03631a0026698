"""Compiles /repo's current working tree (plus one harness) to LLVM IR and links the parts the harness needs."""
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

LLVM = '/usr/lib/llvm-18/bin/'
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
CACHE = os.path.join(VERIF, '.cache')

FLAGS = ['-std=c++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-unroll-loops',
         '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVP_SYMBOLIC', '-w',
         '-I' + os.path.join(HARN, 'stubs'), '-I' + HARN, '-I' + os.path.join(REPO, 'include'),
         '-isystem', '/usr/include/eigen3', '-include', 'cmath', '-include', 'stdexcept',
         '-include', os.path.join(HARN, 'vp_random.h')]

class BuildError(Exception): pass

def read(p):
    with open(p, 'rb') as f: return f.read()

_state = {}
def header_hash():
    if 'h' not in _state:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, 'include'), HARN):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(('.h', '.hpp', '.inl', '.tpp', '.ipp')):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(read(p))
        # headers living beside sources
        for p in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.h*'), recursive=True)):
            h.update(p.encode()); h.update(read(p))
        _state['h'] = h.digest()
    return _state['h']

def compile_tu(src, extra=()):
    key = hashlib.sha256(b'1' + header_hash() + src.encode() + read(src) + repr((FLAGS, extra)).encode()).hexdigest()[:32]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + '.bc')
    if os.path.exists(out): return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([LLVM + 'clang++', *FLAGS, *extra, '-c', '-emit-llvm', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stderr[-3000:]))
    os.replace(tmp, out)
    return out

INC = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
def needed_sources(harness):
    incroot = os.path.join(REPO, 'include'); srcroot = os.path.join(REPO, 'src')
    seen = set(); srcs = []; todo = [harness]
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f): continue
        seen.add(f)
        for inc in INC.findall(read(f).decode('utf-8', 'replace')):
            for base in (os.path.dirname(f), incroot, HARN, srcroot):
                p = os.path.normpath(os.path.join(base, inc))
                if os.path.isfile(p) and (p.startswith(REPO) or p.startswith(HARN)):
                    todo.append(p)
                    if p.startswith(incroot):
                        s = os.path.splitext(srcroot + p[len(incroot):])[0] + '.cpp'
                        if os.path.isfile(s) and s not in seen:
                            todo.append(s)
                    break
        if f.startswith(srcroot) and f.endswith('.cpp'): srcs.append(f)
    return sorted(srcs)

def all_sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))

def build(harness, extra=(), jobs=8):
    """returns (path of linked .ll, path of linked .bc, sources used); caller owns the directory"""
    out = tempfile.mkdtemp(prefix='vp_build_')
    try:
        srcs = needed_sources(harness)
        for attempt in (0, 1):
            with ThreadPoolExecutor(jobs) as ex:
                bcs = list(ex.map(lambda s: compile_tu(s, tuple(extra)), [harness] + srcs))
            bc = os.path.join(out, 'all.bc')
            r = subprocess.run([LLVM + 'llvm-link', *bcs, '-o', bc], capture_output=True, text=True)
            if r.returncode: raise BuildError('llvm-link: ' + r.stderr[-2000:])
            names = ['vp_test_' + n for n in re.findall(r'VP_TEST\((\w+)\)', read(harness).decode())]
            names = sorted(set(names))
            r = subprocess.run([LLVM + 'opt', '-passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(names),
                                bc, '-o', os.path.join(out, 'lib.bc')], capture_output=True, text=True)
            if r.returncode: raise BuildError('opt: ' + r.stderr[-2000:])
            r = subprocess.run([LLVM + 'llvm-dis', os.path.join(out, 'lib.bc'), '-o', os.path.join(out, 'lib.ll')], capture_output=True, text=True)
            if r.returncode: raise BuildError('llvm-dis: ' + r.stderr[-2000:])
            txt = read(os.path.join(out, 'lib.ll')).decode('utf-8', 'replace')
            und = re.findall(r'^declare .*?@([\w.$]+)\(', txt, re.M)
            und += re.findall(r'^@([\w.$]+) = external ', txt, re.M)
            und = [u for u in und if re.match(r'_ZT?[VTISK]*N?K?12OptionPricer|_ZN?K?12OptionPricer|_ZT[VISC]+N12OptionPricer', u)]
            if not und: break
            rest = all_sources()
            if rest == srcs: break
            srcs = rest
        return dict(dir=out, ll=os.path.join(out, 'lib.ll'), bc=os.path.join(out, 'lib.bc'), sources=srcs, tests=names, text=txt, undefined=und)
    except BaseException:
        shutil.rmtree(out, ignore_errors=True)
        raise
