"""Cases for satisfiability, signs at roots, discrimination and the sign table."""
import itertools
from fractions import Fraction as F
from . import oracle as o
from .cases import gen, check, expect, bad, small_polys
def system(R, maxdeg=4, m=3, rooted=.5):
    """four lists of trimmed non-zero polynomials that share roots and repeat"""
    pool = []
    L = [[], [], [], []]
    for _ in range(R.randint(0, R.larger(m))):
        r = R.random()
        if pool and r < .2: p = R.choice(pool)
        elif pool and r < .3: p = [-c for c in R.choice(pool)]
        elif pool and r < .4 and len(pool[-1]) > 2: p = o.der(R.choice([q for q in pool if len(q) > 1] or [[0, 1]]))
        elif r < .4 + rooted / 2: p, _ = R.rooted(R.randint(1, maxdeg))
        else: p = R.poly(1, maxdeg + 1, R.choice('ssz'))
        pool.append(p); R.choice(L).append(p)
    return L
SYS = [
    [[], [], [], []], [[[1]], [], [], []], [[[-1]], [], [], []], [[], [[-1]], [], []], [[], [], [[2]], []], [[], [], [], [[3]]],
    [[[0, 0, 1]], [], [], []], [[], [[0, 0, 1]], [], []], [[[0, 0, 1]], [], [], [[0, 1]]], [[], [[-1, 0, 1]], [], [[0, 1]]],
    [[], [[-1, 1], [1, -1]], [], []], [[[-1, 1], [1, -1]], [], [], []], [[[-1, 1], [1, -1]], [], [], [[-1, 1]]],
    [[[0, 0, -2, 0, 1]], [], [], []], [[], [], [[-2, 0, 1]], [[0, 1]]], [[], [[0, 1]], [[-2, 0, 1]], []], [[], [[0, -1]], [[-2, 0, 1]], []],
    [[], [[0, 1, 0, 1]], [[0, 0, 1]], []], [[], [[-1, 0, 1], [0, -1]], [], []], [[], [], [], [[0, 1], [-1, 1], [0, -1, 1]]],
    [[], [[-6, 11, -6, 1]], [], []], [[[-6, 11, -6, 1]], [[6, -5, 1]], [], []], [[[0, 1]], [[0, -1]], [], []],
    [[[1, -2, 1]], [], [], []], [[[1, -2, 1]], [[-1, 1]], [], []], [[[1, -2, 1]], [], [], [[-1, 1]]], [[[1, -2, 1]], [], [], [[-2, 1]]]]
def small_systems(R, k, vals=(-1, 0, 1), ln=3):
    sm = [p for p in small_polys(ln, vals) if p and p[-1] != 0]
    for _ in range(k):
        L = [[], [], [], []]
        for _ in range(R.choice([1, 1, 2, 2, 3])): R.choice(L).append(R.choice(sm))
        yield L
@check('its')
def _(a, r): return expect(r, o.sat(*a))
@check('evaluate')
def _(a, r):
    x, lists = a[0], a[1:]
    kinds = ('le', 'lt', 'eq', 'ne')
    if isinstance(x, dict):
        if 'root' in x:
            rt = o.roots(x['root'])[x['k']]; s = rt.sign
        elif 'eps' in x:
            rt = o.roots(x['eps'])[x['k']]; s = rt.right
        else: s = lambda p: o.sgn(p[-1]) * (-1) ** (len(p) - 1)
    else:
        v = F(*x) if isinstance(x, list) else F(x); s = lambda p: o.sgn(o.ev(p, v))
    return expect(r, all(o.cond(k, s(p)) for k, ps in zip(kinds, lists) for p in ps))
@gen('C02')
def _(R, n):
    for s in SYS: yield 'its', s
    for s in small_systems(R, n): yield 'its', s
    for k in range(n):
        yield 'its', system(R, 4, 4)
    for k in range(n // 2):
        L = system(R, 3, 3)
        ps = [p for l in L for p in l if len(p) > 1 and o.roots(p)]
        yield 'evaluate', [R.choice([0, 1, -1, 2, -3, [1, 2], [-7, 3]])] + L
        if ps:
            p = R.choice(ps); k2 = R.randrange(len(o.roots(p)))
            yield 'evaluate', [{R.choice(['root', 'eps']): p, 'k': k2}] + L
        yield 'evaluate', [{'minf': 1}] + L
    for k in range(4):
        for i in range(4):
            for v in (-1, 0, 1):
                L = [[], [], [], []]; L[i] = [[v]] if v else [[0, 1]]
                yield 'evaluate', [0] + L
                if v: yield 'its', L
@check('ivts')
def _(a, r):
    if r and r.get('exc') == 'Exception' and any(len(p) >= 6 for l in a for p in l): return None
    return expect(r, o.sat(*a))
@gen('C01')
def _(R, n):
    for s in SYS: yield 'ivts', s
    for s in small_systems(R, n): yield 'ivts', s
    for k in range(n): yield 'ivts', system(R, 3, 4)
    for k in range(n // 3): yield 'ivts', system(R, 4, 3)
@check('sign_at')
def _(a, r):
    b = bad(r)
    if b: return b
    p, q, close = a
    rs = o.roots(p)
    want = [[i, (x.right if close else x.sign)(q)] for i, x in enumerate(rs)]
    got = r['ok']
    if len(p) >= 6: got = [g if not str(g[1]).startswith('exc') else w for g, w in zip(got, want)] if len(got) == len(want) else got
    if got != want: return 'signs of %r %s the roots of %r: got %r, expected %r' % (q, 'right of' if close else 'at', p, got, want)
@check('pick')
def _(a, r):
    rec, goal, counts = a
    b = bad(r)
    if b: return b
    if r['ok'] == 'absent': return None
    base = 0
    for _, s in rec: base = base * 3 + {0: 0, 1: 1, -1: 2}[s]
    v = counts[base * 3:base * 3 + 3]
    w = 'exc' if sorted(v) != [0, 0, 1] else (0, 1, -1)[v.index(1)]
    if r['ok'] != w: return 'got %r, expected %r' % (r['ok'], w)
@gen('C05')
def _(R, n):
    sm = [p for p in small_polys(3, (-1, 0, 1)) if p and p[-1] != 0]
    for p in sm:
        if len(p) < 2 or not o.roots(p): continue
        for q in R.sample(sm, 5): yield 'sign_at', [p, q, R.choice([0, 1])]
    for k in range(n // 2):
        p, fs = R.rooted(4)
        q, _ = R.rooted(R.randint(1, 3))
        if R.random() < .5: q = o.imul(q, R.choice(fs))
        if R.random() < .2: q = R.choice([p, o.der(p), [-c for c in p], o.imul(p, p)])
        for c in (0, 1): yield 'sign_at', [p, q, c]
        yield 'sign_at', [p, R.poly(1, 4, 's'), k % 2]
    for k in range(n):
        m = R.randint(0, 2)
        rec = [[q, R.choice([-1, 0, 1])] for q in R.sample([p for p in sm if len(p) > 1], m)]
        goal = R.choice(sm)
        if any(q == goal for q, _ in rec): continue
        t = 3 ** (m + 1)
        if R.random() < .6:
            v = [0] * t
            base = 0
            for _, s in rec: base = base * 3 + {0: 0, 1: 1, -1: 2}[s]
            v[base * 3 + R.randrange(3)] = 1
            if R.random() < .7: v[R.randrange(t)] = R.choice([0, 1, 1, 2, -1, 3])
        else: v = [R.choice([0, 1]) for _ in range(t)]
        yield 'pick', [rec, goal, v]
def sepok(p, rs, desc, full=True, maxlen=None):
    seen = set()
    for d in desc:
        i, rec = d[0], d[1]
        if not (isinstance(i, int) and 0 <= i < len(rs)): return 'a descriptor names no given root'
        if i in seen: return 'root %d has two descriptors' % i
        seen.add(i)
        ks = set()
        for q, s in rec:
            if tuple(q) in ks: return '%r is recorded twice' % q
            ks.add(tuple(q))
            if rs[i].sign(q) != s: return 'root %d: %r is recorded with sign %r, is %r' % (i, q, s, rs[i].sign(q))
            ders, t = [], list(p)
            while len(t) > 1: t = o.der(t); ders.append(t)
            if q not in ders: return '%r is no derivative' % q
        for j in range(len(rs)):
            if j != i and all(rs[j].sign(q) == s for q, s in rec): return 'the descriptor of root %d also fits root %d' % (i, j)
        if len(d) > 2 and d[2]:
            for l, s in zip(d[2], (-1, 0, 1)):
                if sorted(l) != sorted(q for q, t in rec if t == s): return 'the polynomials listed with sign %d do not match the recorded signs' % s
    if len(seen) != len(rs): return '%d descriptors for %d roots' % (len(seen), len(rs))
@check('discri')
def _(a, r): return bad(r) or sepok(a[0], o.roots(a[0]), r['ok'])
@check('discri_some')
def _(a, r): return bad(r) or sepok(a[2], [o.roots(a[0])[k] for k in a[1]], r['ok'])
@check('descapi')
def _(a, r):
    b = bad(r)
    if b: return b
    d = {tuple(q): s for q, s in a[0]}
    return expect(r, [[d[tuple(q)] for q in a[1]], [q for q, _ in a[0]]])
@gen('C06')
def _(R, n):
    for p in small_polys(4, (-1, 0, 2)):
        if len(p) > 1 and p[-1] != 0: yield 'discri', [p]
    for k in range(n):
        p, _ = R.rooted(R.randint(2, 6)); yield 'discri', [p]
    for rts in itertools.chain(itertools.combinations(range(-2, 3), 3), itertools.combinations(range(-2, 3), 4), itertools.combinations(range(-1, 4), 5)):
        p = [1]
        for x in rts: p = o.imul(p, [-x, 1])
        yield 'discri', [p]; yield 'discri', [[-c for c in p]]; yield 'discri', [o.imul(p, [-rts[0], 1])]
        if len(rts) > 3: yield 'discri_some', [p, sorted(R.sample(range(len(rts)), 3)), p]; yield 'discri_some', [p, sorted(R.sample(range(len(rts)), 2)), p]
    for k in range(n):
        ps = []
        for _ in range(R.randint(1, 4)):
            q = R.poly(1, 4, R.choice('sszb'))
            if q not in ps: ps.append(q)
        yield 'descapi', [[[q, R.choice([-1, 0, 1])] for q in ps], R.sample(ps, len(ps))]
    yield 'descapi', [[[[1, 2], 1], [[12], -1], [[1, -2], 0], [[-12], -1], [[1, 2, 0, 3], 0], [[1, 20, 3], 1]], [[12], [1, 2], [-12], [1, -2], [1, 20, 3], [1, 2, 0, 3]]]
ADM = {0: {-1, 0}, 1: {-1}, 2: {0}, 3: {-1, 1}}
@check('lookup')
def _(a, r):
    t = {}
    for i in range(4):
        for p in a[i]: t[tuple(p)] = t.get(tuple(p), {-1, 0, 1}) & ADM[i]
    return expect(r, [len(t), [sorted(t[tuple(q)]) if tuple(q) in t else None for q in a[4]]])
@check('keys')
def _(a, r):
    l = [tuple(p) for p in a[0]]
    return expect(r, [l.index(p) for p in l] + [[True] * len(l)])
@gen('C13')
def _(R, n):
    for mask in itertools.product(range(3), repeat=4):
        p, q = R.poly(1, 4), R.poly(1, 4)
        L = [[p] * (m > 0) + [q] * (m > 1) for m in mask]
        yield 'lookup', L + [[p, q, [7, 7, 7]]]
    for k in range(n * 3):
        pool = [R.poly(1, 4, R.choice('sszb')) for _ in range(R.randint(1, 4))]
        if R.random() < .3: pool += [[-c for c in pool[0]], pool[0] + [1], pool[0][1:] or [5]]
        L = [[R.choice(pool) for _ in range(R.randint(0, 3))] for _ in range(4)]
        yield 'lookup', L + [pool + [R.poly(1, 3)]]
    base = [[1, 2], [12], [1, 2, 0], [-1, 2], [-12], [1, -2], [10, 2], [1, 0, 2], [102], [2, 1], [2 ** 63], [2 ** 64], [2 ** 31], [-2 ** 31], [0, 1], [0, 0, 1], [1], [11], [1, 1], [2 ** 53], [2 ** 53 + 1], [10 ** 17], [10 ** 17 + 1], [1, 12], [11, 2], [-1], [0, -1], [1, -1]]
    yield 'keys', [base]
    for k in range(n): yield 'keys', [[R.poly(1, 4) for _ in range(8)] + R.sample(base, 4)]
