"""Cases for sequents: clauses, the four lists, univariate rewriting."""
from fractions import Fraction as F
import random, itertools
from .cases import gen, check, bad
KINDS = ['Le', 'Lt', 'Eq', 'Ne', 'Gt', 'Ge']
OPS = {'Le': lambda a, b: a <= b, 'Lt': lambda a, b: a < b, 'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
def val(e, pt):
    s = F(0)
    for c, es in e:
        if isinstance(c, list):
            if c[0] == '?': raise ValueError('not a rational number: %r' % (c,))
            c = F(c[0], c[1])
        t = F(c)
        for v, k in zip(pt, es): t *= v ** k
        s += t
    return s
def holds(r, pt):
    if isinstance(r, bool): return r
    if r[0] == '?': raise ValueError('not a relation: %s' % r[1])
    return OPS[r[0]](val(r[1], pt), val(r[2], pt))
def points(*_):
    R = random.Random(7)
    g = [F(v) for v in (-2, -1, 0, 1, 2)]
    return [p for p in itertools.product(g, repeat=3)] + [tuple(F(R.randint(-30, 30), R.randint(1, 9)) for _ in range(3)) for _ in range(60)]
PTS = points()
def raised(r, names): return r and r.get('exc') in names
@check('clauses')
def _(a, r):
    if not r or ('ok' not in r):
        # an empty side, or sides that consist of True only, are refused; so is a succedent that contains False
        def given(l): return [x for x in l]
        if raised(r, ('Exception',)) and any(trivial(l) for l in a): return None
        if raised(r, ('KeyError', 'Exception')) and any(false(x) for x in a[1]): return None
        return bad(r)
    (ante, succ), cs = r['ok']
    for c in cs:
        for x in c:
            if not isinstance(x, bool) and x[0] in ('Gt', 'Ge'): return 'a clause contains %s: %r' % (x[0], x)
    for p in PTS:
        w = all(holds(x, p) for x in ante) and not all(holds(x, p) for x in succ)
        g = any(all(holds(x, p) for x in c) for c in cs)
        if w != g: return 'at %s: some clause holds is %r, the sequent fails is %r; clauses %r' % ([str(v) for v in p], g, w, cs)
def closed(x):
    """truth of a relation between constants, which sympy evaluates; None otherwise"""
    if x in (True, 'T'): return True
    if x in (False, 'F'): return False
    if x == 'sym': return None
    vs = [holds(x, p) for p in PTS]
    return vs[0] if all(v == vs[0] for v in vs) else None
def trivial(l): return all(closed(x) is True for x in l)
def false(x): return closed(x) is False
def pointwise(neg):
    def f(a, r):
        if neg and raised(r, ('KeyError',)) and any(closed(x) is not None for x in a[0]): return None
        b = bad(r)
        if b: return b
        (rels,), out = r['ok']
        if len(out) != len(rels): return '%d relations for %d' % (len(out), len(rels))
        for x, y in zip(rels, out):
            if not neg and not isinstance(y, bool) and y[0] in ('Gt', 'Ge'): return 'still %r' % (y,)
            for p in PTS:
                if holds(y, p) != (holds(x, p) != neg): return '%r became %r, which differs at %s' % (x, y, [str(v) for v in p])
    return f
check('rewless')(pointwise(False)); check('negrel')(pointwise(True))
@check('relmap')
def _(a, r):
    odd = [x for x in a[0] if x in (True, False, 'T', 'F', 'sym') or x[0] in ('Gt', 'Ge')]
    if raised(r, ('Exception',)) and (odd or any(closed(x) is not None for x in a[0])): return None
    b = bad(r)
    if b: return b
    (rels,), m = r['ok']
    if any(isinstance(x, bool) or x[0] not in ('Le', 'Lt', 'Eq', 'Ne') for x in rels): return 'accepted a relation of another kind: %r' % (rels,)
    if set(m) != {'le', 'lt', 'eq', 'ne'}: return 'keys %r' % sorted(m)
    for k in m:
        w = [x[1] for x in rels if x[0].lower() == k]
        if sorted(map(repr, w)) != sorted(map(repr, m[k])): return 'under %s: %r, expected %r' % (k, m[k], w)
@check('univ')
def _(a, r):
    if raised(r, ('AttributeError',)) and any(closed(x) is not None for x in a[0]): return None      # no relation but a truth value
    b = bad(r)
    if b: return b
    (rels,), out = r['ok']
    if len(out) != len(rels): return '%d relations for %d' % (len(out), len(rels))
    for x, y in zip(rels, out):
        if isinstance(x, bool): continue
        for v in sorted({p[0] for p in PTS}):
            if isinstance(y, bool):
                if holds(x, (v,) * 3) != y: return '%r became %r, which differs at %s' % (x, y, v)
                continue
            if y[0] != x[0]: return '%r became %r, of another kind' % (x, y)
            if val(y[2], (v,) * 3) != 0: return 'right side of %r is not zero' % (y,)
            if any(es[1] or es[2] for _, es in y[1]): return 'more variables than x in %r' % (y,)
            if val(y[1], (v,) * 3) != val(x[1], (v,) * 3) - val(x[2], (v,) * 3): return '%r became %r, which differs at %s' % (x, y, v)
def expr(R, nv=3, deg=2):
    k = R.choice([0, 1, 1, 2, 2, 3])
    return [[R.choice([R.randint(-3, 3), R.randint(-3, 3), [R.randint(-5, 5), R.choice([2, 3])]]), [R.randint(0, deg) if i < nv else 0 for i in range(3)]] for _ in range(k)]
def relspec(R, kinds=KINDS, nv=3):
    if R.random() < 0.08: return [R.choice(kinds), [[R.randint(-2, 2), [0, 0, 0]]], [[R.randint(-2, 2), [0, 0, 0]]]]
    return [R.choice(kinds), expr(R, nv), expr(R, nv) if R.random() < 0.5 else []]
X, Y, ONE = [[1, [1, 0, 0]]], [[1, [0, 1, 0]]], [[1, [0, 0, 0]]]
@gen('C10')
def _(R, n):
    for k in KINDS:
        for l, r in ((X, []), ([], X), (X, Y), (X, ONE), (X, [[-2, [1, 0, 0]]]), ([[-1, [2, 0, 0]]], Y)):
            yield 'rewless', [[[k, l, r]]]; yield 'negrel', [[[k, l, r]]]; yield 'relmap', [[[k, l, []]]]
            for k2 in KINDS: yield 'clauses', [[[k, l, r]], [[k2, Y, ONE]]]
    some = [[k, X, ONE] for k in KINDS]
    yield 'clauses', [some, some]
    yield 'clauses', [some[:2] + some[:2], some[3:] + some[3:]]
    yield 'clauses', [[['Le', X, ONE]], [['Lt', X, ONE]]]; yield 'clauses', [[['Le', X, ONE]], [['Le', X, ONE]]]
    for b in (True, False, 'T', 'F'):
        yield 'clauses', [[b, some[0]], [some[1]]]; yield 'clauses', [[some[0]], [some[1], b]]; yield 'relmap', [[some[0], b]]; yield 'rewless', [[b, some[4], b]]
        yield 'clauses', [[b], [some[1]]]; yield 'clauses', [[some[0]], [b]]
    yield 'clauses', [[], [some[0]]]; yield 'clauses', [[some[0]], []]; yield 'relmap', [['sym']]; yield 'relmap', [[]]
    for k in range(n):
        yield 'clauses', [[relspec(R) for _ in range(R.choice([1, 1, 2, 3, 4]))], [relspec(R) for _ in range(R.choice([1, 1, 2, 3]))]]
    for k in range(n // 2):
        yield 'rewless', [[relspec(R) for _ in range(R.randint(0, 5))]]; yield 'negrel', [[relspec(R) for _ in range(R.randint(0, 5))]]
        l = [relspec(R, KINDS[:4]) for _ in range(R.randint(0, 6))]
        yield 'relmap', [l + l[:R.randint(0, 2)]]
        yield 'relmap', [[relspec(R) for _ in range(R.randint(1, 4))]]
@gen('C11')
def _(R, n):
    for k in KINDS:
        for l, r in ((X, []), ([], X), (X, Y), (Y, ONE), (ONE, [[2, [0, 2, 1]]]), ([[1, [1, 1, 1]], [-1, [3, 0, 0]]], [[2, [0, 0, 3]]]), ([[1, [1, 0, 0]], [-1, [0, 1, 0]]], ONE), (ONE, [])):
            yield 'univ', [[[k, l, r]]]
    yield 'univ', [[]]
    yield 'univ', [[[k, X, Y] for k in KINDS]]
    yield 'univ', [[[k, Y, ONE] for k in KINDS] + [[k, [[1, [0, 0, 1]]], X] for k in KINDS]]
    for k in range(n * 2): yield 'univ', [[relspec(R, nv=R.choice([1, 2, 3])) for _ in range(R.choice([1, 1, 2, 3, 5]))]]
# ------------------------------------------------------------------------ C16
UN = ['LT', 'LC', 'LS', 'degree', 'p_tail', 'has_variable', 'derivative']
BIN = ['div', 'pseudo_div']
@check('calg')
def _(a, r):
    b = bad(r)
    if b: return b
    if r['ok']:
        i, g, w = r['ok'][0]
        return 'step %d of the history, %s%r in %s: got %s, the plain algebra gives %s' % (i, a[0][i][2], a[0][i][3], a[0][i][1], g, w)
def mono(R):
    k = R.choice([1, 1, 2, 2, 3])
    return [[R.choice([R.randint(-3, 3) or 1, R.randint(1, 4), [R.randint(-5, 5) or 2, R.choice([2, 3])]]), [R.randint(0, 3) for _ in range(3)]] for _ in range(k)]
@gen('C16')
def _(R, n):
    P = [[[1, [2, 0, 0]], [3, [1, 1, 0]], [-2, [0, 0, 0]]], [[1, [0, 2, 0]], [-1, [1, 0, 0]]], [[1, [0, 0, 0]]], [], [[2, [1, 0, 0]]], [[1, [0, 3, 1]], [5, [2, 0, 0]]], [[-1, [1, 0, 0]], [1, [0, 1, 0]]]]
    for p in P:
        for v in 'xy':
            h = [[0, v, m, [p]] for m in UN] + [[0, v, m, [p, q]] for m in BIN for q in P] + [[0, v, m, [q, p]] for m in BIN for q in P]
            yield 'calg', [h + h]; yield 'calg', [h[::-1] + h]
            yield 'calg', [[[0, v, 'sign', [[[c, [0, 0, 0]]]]] for c in (-3, 0, 4, [1, 2])] + [[0, v, 'zero', []], [0, v, 'e_var', []]] * 2 + h]
    # two algebras, the same questions
    for p in P:
        yield 'calg', [[[w, v, m, [p]] for m in UN for w, v in ((0, 'x'), (0, 'y'), (1, 'x'), (1, 'z'))] * 2]
        yield 'calg', [[[w, v, m, [p, q]] for m in BIN for q in P for w, v in ((0, 'x'), (1, 'y'), (0, 'z'))] * 2]
    for a in UN + BIN:
        for b in UN + BIN:
            args = lambda m: [P[0]] if m in UN else [P[0], P[4]]
            yield 'calg', [[[0, 'x', a, args(a)], [0, 'x', b, args(b)], [0, 'x', a, args(a)]]]
    for k in range(n):
        qs = [mono(R) for _ in range(R.choice([1, 2, 3]))]
        h = []
        for _ in range(R.choice([3, 6, 12, 30])):
            m = R.choice(UN + UN + BIN + BIN + ['sign', 'zero', 'e_var'])
            if m == 'sign': args = [[[R.choice([-2, 0, 1, [3, 4]]), [0, 0, 0]]]]
            elif m in UN: args = [R.choice(qs)]
            elif m in BIN: args = [R.choice(qs), R.choice(qs)]
            else: args = []
            h.append([R.choice([0, 0, 1]), R.choice('xxy'), m, args])
        yield 'calg', [h]
    c = R.consts and [x for x in R.consts if 3 < x < 2000] or []
    for x in list(c)[:4] + [70, 300]:      # long histories
        yield 'calg', [[[0, 'x', 'LC', [[[k, [1, 0, 0]]]]] for k in range(1, x + 2)] + [[0, 'x', 'LC', [[[k, [1, 0, 0]]]]] for k in range(1, x + 2)]]
        yield 'calg', [[[0, 'x', 'degree', [[[1, [k % 5, 0, 0]], [k, [0, 0, 0]]]]] for k in range(1, x + 2)] + [[0, 'x', 'LT', [[[1, [k % 5, 0, 0]], [k, [0, 0, 0]]]]] for k in range(1, x + 2)]]
