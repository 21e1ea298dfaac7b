"""Cases for the sign matrices, conversion, sequents, parsing and the caching algebra."""
import itertools
from .cases import gen, check, bad
from . import oracle as o
@check('matrices')
def _(a, r):
    b = bad(r)
    if b: return b
    for seg, res in zip(a[0], r['ok']):
        for (kind, n), x in zip(seg, res):
            want = 'ok' if isinstance(n, int) and 1 <= n <= 5 else 'exc'
            if x != want and not (want == 'exc' and x == 'returned' and isinstance(n, list) and n[0] % n[1] == 0): return '%s(%r): got %s, expected %s' % ({'m': 'get_matrix', 'i': 'get_matrix_inverse'}[kind], n, x, want)
@gen('C07')
def _(R, n):
    for k in 'mi':
        for x in (0, -1, 6, 7, 10, [1, 2], [7, 2], 'two', None): yield 'matrices', [[[[k, x]]]]
        for x in (0, 6, [3, 2]): yield 'matrices', [[[[k, 2], [k, x]], [[k, 3], [k, x]]]]
    reqs = [[k, x] for k in 'mi' for x in (1, 2, 3)]
    for a in reqs:
        for b in reqs:
            if a[1] == 3 and b[1] == 3 and a != b: continue
            if 3 not in (a[1], b[1]): yield 'matrices', [[[a, b, a]]]
            yield 'matrices', [[[a], [b, a], [b]]]
    for k in range(n // 4):
        yield 'matrices', [[[[R.choice('mi'), R.choice([1, 2, 2, 2])] for _ in range(R.randint(1, 4))] for _ in range(R.randint(1, 3))]]
    far = [[[k, a], [k, b]] for k in 'mi' for a, b in ((2, 4), (1, 4), (3, 4), (4, 2))]
    R.shuffle(far)
    yield 'matrices', [[far[0]]]
    yield 'matrices', [[[['m', 4], ['i', 2]], [['m', 4], ['i', 3], ['m', 3]]]]
    yield 'matrices', [[[['i', 4], ['m', 4]], [['i', 4], ['m', 4], ['i', 4]]]]
    for h in far[1:]: yield 'matrices', [[h]]
# ------------------------------------------------------------------------ C09
from fractions import Fraction as F
from .cases import expect
from .cases2 import SYS, small_systems, system
def _coefs(spec):
    """coefficients as pairs a + b*sqrt(2), or None if a float occurs"""
    if isinstance(spec, int): return [(F(spec), F(0))] if spec else []
    tot = []
    def add(p, q):
        n = max(len(p), len(q)); z = (F(0), F(0))
        return [((p[i] if i < len(p) else z)[0] + (q[i] if i < len(q) else z)[0], (p[i] if i < len(p) else z)[1] + (q[i] if i < len(q) else z)[1]) for i in range(n)]
    def mul(p, q):
        r = [(F(0), F(0))] * max(0, len(p) + len(q) - 1)
        for i, (a, b) in enumerate(p):
            for j, (c, d) in enumerate(q): r[i + j] = (r[i + j][0] + a * c + 2 * b * d, r[i + j][1] + a * d + b * c)
        return r
    def co(c):
        if isinstance(c, list):
            if c[0] == 's': return (F(0), F(c[1], c[2]))
            return (F(c[0], c[1]), F(0))
        return (F(c), F(0))
    for fs in spec:
        t = [(F(1), F(0))]
        for f in fs: t = mul(t, [co(c) for c in f])
        tot = add(tot, t)
    while tot and tot[-1] == (0, 0): tot.pop()
    return tot
def _hasfloat(spec): return 'f' in str(spec)
@check('conv')
def _(a, r):
    if _hasfloat(a[0]): return None if r and r.get('exc') else 'accepted a coefficient that is no rational: %r' % (r,)
    cs = _coefs(a[0])
    if any(b for _, b in cs): return None if r and r.get('exc') else 'accepted irrational coefficients: %r' % (r,)
    b = bad(r)
    if b: return b
    cs = [c for c, _ in cs]; g = r['ok']
    if any(isinstance(c, list) for c in g): return 'not a list of integers: %r' % (g,)
    if len(g) != len(cs): return 'has length %d, expected %d: %r' % (len(g), len(cs), g)
    if not cs: return None
    m = F(g[-1]) / cs[-1]
    if m <= 0 or [m * c for c in cs] != g: return 'got %r, not a positive multiple of %s' % (g, [str(c) for c in cs])
    if m.denominator != 1 or (all(c.denominator == 1 for c in cs) and m != 1): return 'got %r for %s' % (g, [str(c) for c in cs])
@check('convback')
def _(a, r):
    l = list(a[0])
    while l and l[-1] == 0: l.pop()
    b = bad(r)
    if b: return b
    g = r['ok']
    while g and g[-1] == 0: g.pop()
    if g != l: return 'got the polynomial with coefficients %r for %r' % (g, a[0])
@check('roundtrip')
def _(a, r): return expect(r, a[0])
@check('sym_sat')
def _(a, r):
    ls = [[[c for c, _ in _coefs(e)] for e in l] for l in a[2]]
    if a[0] == 'vts' and r and r.get('exc') == 'Exception' and any(len(p) >= 6 for l in ls for p in l): return None
    return expect(r, o.sat(*ls))
def _rat(R):
    c = R.choice([R.randint(-6, 6), R.randint(-6, 6), [R.randint(-9, 9), R.randint(1, 12)], [R.randint(-9, 9), R.randint(2, 9)], R.coef()])
    return c
def _wrap(R, p):
    """the polynomial with integer coefficients p, written differently and scaled by a positive rational"""
    k = R.choice([0, 1, 2, 3])
    if k == 0: return [[p]]
    if k == 1: return [[[[R.choice([1, 2, 5]), R.choice([2, 3, 4, 7])]], p]]
    if k == 2:
        q = [R.randint(-3, 3) for _ in range(R.randint(1, 3))]
        return [[p], [q], [[-1], q]]
    return [[[0] * i + [c]] for i, c in enumerate(p) if c] or [[p]]
@gen('C09')
def _(R, n):
    for v in (0, 1, -1, 7, -12, 2**31 - 1): yield 'conv', [v, 'x']
    for v in (0, 1, -3, [1, 2], [-7, 3], ['s', 1, 1], ['f', '0.5'], 10**20): yield 'conv', [[[[v]]], 'x']
    yield 'conv', [[[[0, 1]], [[0, -1]]], 'x']
    yield 'conv', [[[[0, ['s', 1, 1]]], [[0, ['s', -1, 1]]]], 'x']
    for c in (['s', 1, 1], ['s', -3, 2], ['f', '1.5']):
        for f in ([c, 1], [1, c], [0, c], [0, 1, c], [c, 0, 1], [1, 1, 1, c]): yield 'conv', [[[f]], 'x']
    for f in ([0, 1], [0, 0, 1], [1, 1], [0, [1, 2]]): yield 'conv', [[[f], [[['s', 1, 1]], f]], 'x'];  yield 'conv', [[[f, f], [[['s', 1, 1]], f, f], [[5]]], 'y']
    yield 'conv', [[[[1, ['s', 1, 1]], [-1, ['s', 1, 1]]]], 'x']
    for d in range(0, 16):
        yield 'conv', [[[[0] * d + [1]]], 'x']; yield 'conv', [[[[1] + [0] * d + [[-1, 3]]]], 'x']; yield 'conv', [[[[_rat(R) for _ in range(d + 1)]]], R.choice('xyzat')]
        yield 'roundtrip', [[0] * d + [R.choice([1, -1, 5, -12])]]; yield 'convback', [R.list(d)]
    for q in range(1, 14):
        for q2 in (1, 2, 3, 4, 6, 9): yield 'conv', [[[[[1, q], [-1, q2], 1]]], 'x']; yield 'conv', [[[[[1, q], [-1, q2]]]], 'x']; yield 'conv', [[[[[3, q], 0, [5, q2], 0, [-7, 4]]]], 'x']
    for k in range(n):
        spec = [[[_rat(R) for _ in range(R.randint(1, 4))] for _ in range(R.choice([1, 1, 2, 3]))] for _ in range(R.choice([1, 1, 2, 3]))]
        yield 'conv', [spec, R.choice(['x', 'y', 't', 'alpha', 'w1'])]
    for k in range(n):
        p = R.poly(1, 8); yield 'roundtrip', [p]; yield 'convback', [R.list(R.randint(0, 8))]
    for c in R.consts:
        if c < 60: yield 'roundtrip', [[R.randint(-2, 2) for _ in range(c)] + [1]]; yield 'convback', [[R.randint(-2, 2) for _ in range(c + 1)]]
    for s in SYS[:25]: yield 'sym_sat', [R.choice(['ts', 'vts']), 'x', [[_wrap(R, p) for p in l] for l in s]]
    for s in small_systems(R, n // 5): yield 'sym_sat', [R.choice(['ts', 'vts']), R.choice('xt'), [[_wrap(R, p) for p in l] for l in s]]
    for k in range(n // 3): yield 'sym_sat', [R.choice(['ts', 'vts']), 'x', [[_wrap(R, p) for p in l] for l in system(R, 3, 3)]]

def _also(pid, proc):
    """the same systems through the symbolic interface"""
    from .cases import GEN
    g0 = GEN[pid]
    def g(R, n):
        yield from g0(R, n)
        for s in SYS[:12]: yield 'sym_sat', [proc, 'x', [[_wrap(R, p) for p in l] for l in s]]
        for k in range(n // 4): yield 'sym_sat', [proc, R.choice('xt'), [[_wrap(R, p) for p in l] for l in system(R, 3, 3)]]
    GEN[pid] = g
_also('C01', 'vts'); _also('C02', 'ts')
