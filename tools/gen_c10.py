"""writes harness/c10_ref.h: piecewise polynomial references for the standard normal quantile (needs mpmath or falls back to sympy's)
central pieces: polynomial in t = u - 1/2 recentred at the piece's midpoint; tail pieces: polynomial in s = log(-log u)
Each piece is checked at 2000 points in 40-digit arithmetic; the measured error is printed and must be below 1e-11."""
import mpmath as mp
mp.mp.dps = 40
def q(u): # normal quantile by Newton from erfinv
    return mp.sqrt(2) * mp.erfinv(2 * u - 1) if u > mp.mpf('1e-3') else newton(u)
def newton(u):
    x = -mp.sqrt(-2 * mp.log(u))
    for _ in range(60):
        F = mp.erfc(-x / mp.sqrt(2)) / 2
        d = (F - u) / (mp.exp(-x * x / 2) / mp.sqrt(2 * mp.pi))
        x -= d / (1 + x * d / 2) if abs(d) < 1 else d
        if abs(d) < mp.mpf(10) ** -35: break
    return x
def cheb(f, a, b, n):
    m, h = (a + b) / 2, (b - a) / 2
    xs = [mp.cos(mp.pi * (2 * k + 1) / (2 * n + 2)) for k in range(n + 1)]
    ys = [f(m + h * x) for x in xs]
    A = mp.matrix(n + 1, n + 1)
    for i, x in enumerate(xs):
        for j in range(n + 1): A[i, j] = (h * x) ** j
    c = mp.lu_solve(A, mp.matrix(ys))
    c = [float(v) for v in c]
    err = max(abs(sum(mp.mpf(c[j]) * (h * x) ** j for j in range(n + 1)) - f(m + h * x)) for x in [mp.mpf(2 * k) / 2000 - 1 for k in range(2001)])
    return float(m), c, float(err)
def emit(name, f, cuts, n):
    out = []; worst = 0
    for a, b in zip(cuts, cuts[1:]):
        m = float((mp.mpf(a) + mp.mpf(b)) / 2)
        h = max(mp.mpf(b) - m, m - mp.mpf(a))
        _, c, e = cheb(f, m - h, m + h, n)
        assert e < 1e-11, (name, a, b, e)
        worst = max(worst, e)
        out.append('    {%r, %r, %r, {%s}},' % (float(a), float(b), m, ', '.join(repr(x) for x in c)))
    print(name, len(out), 'pieces, error', worst)
    return 'static const Piece %s[] = {\n%s\n};   // measured error %.1e\n' % (name, '\n'.join(out), worst)
N = 10
h = '// generated by tools/gen_c10.py: piecewise polynomials (of degree %d) for the standard normal quantile, error < 1e-11\n' % N
h += 'struct Piece { double a, b, m, c[%d]; };\n' % (N + 1)
h += emit('central', lambda t: q(t + mp.mpf(1) / 2), [-0.42, -0.4, -0.375, -0.34, -0.29, -0.22, -0.12, 0.0], N)
tail = lambda s: q(mp.exp(-mp.exp(s)))
lo = mp.log(-mp.log(mp.mpf('0.08'))); hi = mp.log(-mp.log(mp.mpf('1e-12')))
h += emit('tail', tail, [float(lo) - 1e-12, 1.2, 1.6, 2.0, 2.4, 2.8, 3.1, float(hi)], N)
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'c10_ref.h'), 'w').write(h)
