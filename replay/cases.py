"""Case generators and exact checks, per property. A check returns None or what is wrong."""
import random, re, os
from fractions import Fraction as F
from . import oracle as o
from .batch import REPO

CHECK = {}
def check(op):
    def d(f): CHECK[op] = f; return f
    return d
GEN = {}
def gen(pid):
    def d(f): GEN[pid] = f; return f
    return d

class Rng(random.Random):
    consts = []
    grow = 0          # later rounds of a search look at larger cases
    def larger(self, hi): return hi + self.randint(0, self.grow) if self.grow and self.random() < .4 else hi
    def coef(self, style=None):
        style = style or self.choice('ssszbm')
        if style == 's': return self.randint(-4, 4)
        if style == 'z': return self.choice([0, 0, 0, 1, -1, 2])
        if style == 'b': return self.choice([1, -1]) * self.choice([7, 10, 12, 97, 10**3, 2**31, 2**53 + 1, 2**63, 10**20])
        c = self.choice(self.consts or [3]); return self.choice([1, -1]) * (c + self.choice([-1, 0, 1]))
    def list(self, n, style=None):
        if style is None: style = self.choice(['s', 's', 's', 'z', 'b', 'm', None])
        return [self.coef(style) for _ in range(n)]
    def poly(self, lo, hi, style=None):
        """trimmed, non-zero"""
        n = self.randint(lo, self.larger(hi))
        p = self.list(n, style)
        while p and p[-1] == 0: p[-1] = self.coef(style if style not in ('z',) else 's') or self.choice([1, -1])
        return p
    def rooted(self, maxdeg=5, extra=True):
        """product of simple factors: repeated roots, close roots, irreducible parts"""
        p = [self.choice([1, 1, -1, 2, -3])]
        d = self.randint(1, self.larger(maxdeg))
        fac = []
        while len(p) - 1 < d:
            if fac and self.random() < .3: f = self.choice(fac)
            else:
                f = self.choice([[self.randint(-3, 3), 1], [self.randint(-3, 3), 2], [self.randint(-5, 5), self.choice([1, 3, -1])], [-2, 0, 1], [1, 0, 1], [-3, 0, 1], [1, 1, 1], [-1, -1, 1]])
                if len(p) - 1 + len(f) - 1 > d: f = [self.randint(-3, 3), 1]
                fac.append(f)
            p = o.imul(p, f)
        return p, fac

def mine_consts(files):
    out = set()
    for f in files:
        try: t = open(os.path.join(REPO, f)).read()
        except OSError: continue
        for m in re.findall(r'(?<![\w.])\d+(?![\w.])', t):
            if len(m) < 25: out.add(int(m))
    return sorted(c for c in out if c > 2)

def canon(v):
    """result -> exact numbers"""
    if isinstance(v, list): return [canon(x) for x in v]
    return v
def bad(r):
    if r is None: return 'not run'
    if r.get('hang'): return 'does not return'
    if r.get('died'): return 'the interpreter died'
    if 'exc' in r: return 'raised %s: %s' % (r['exc'], r['msg'])
    return None
def expect(r, v):
    b = bad(r)
    if b: return b
    if r['ok'] != v: return 'got %r, expected %r' % (r['ok'], v)

# ------------------------------------------------------------------------ C08
@check('multiply')
def _(a, r): return expect(r, o.imul(*a))
@check('derivative')
def _(a, r): return expect(r, o.der(a[0]))
@check('evaluate_poly')
def _(a, r):
    x = F(*a[1]) if isinstance(a[1], list) else F(a[1])
    v = o.ev(a[0], x)
    b = bad(r)
    if b: return b
    g = r['ok']; g = F(g[0], g[1]) if isinstance(g, list) and g[0] != '?' else g
    if g != v: return 'got %r, expected %s' % (r['ok'], v)
@check('make_product_list')
def _(a, r):
    out = [[1]]
    for p in reversed(a[0]):
        out = out + [o.imul(x, p) for x in out] + [o.imul(o.imul(x, p), p) for x in out]
    b = bad(r)
    if b: return b
    if len(r['ok']) != len(out): return 'has %d entries, expected %d' % (len(r['ok']), len(out))
    for j, (x, y) in enumerate(zip(r['ok'], out)):
        if o.trim(x) != o.trim(y) if not any(isinstance(c, list) for c in x) else True: return 'entry %d is %r, expected %r' % (j, x, y)
        if all(p and p[-1] != 0 for p in a[0]) and x[-1] == 0: return 'entry %d has a leading zero' % j
@gen('C08')
def _(R, n):
    big = [c for c in R.consts if 3 < c < 40]
    for i in range(14):
        for j in range(14): yield 'multiply', [R.list(i), R.list(j)]
    for k in range(n * 4): yield 'multiply', [R.list(R.randint(0, 7)), R.list(R.randint(0, 7))]
    for c in big:
        for d in (-1, 0, 1):
            yield 'multiply', [R.list(c + d), R.list(R.randint(1, 4))]
            yield 'multiply', [R.list(R.randint(1, 4)), R.list(c + d)]
            yield 'derivative', [R.list(c + d)]
            yield 'evaluate_poly', [R.list(c + d), R.randint(-3, 3)]
    for i in range(25):
        for k in range(4): yield 'derivative', [R.list(i)]
        for k in range(8): yield 'evaluate_poly', [R.list(i), R.choice([R.coef(), [R.coef(), R.randint(1, 9)]])]
    for k in range(n): yield 'derivative', [R.list(R.randint(0, 9))]
    for k in range(n): yield 'evaluate_poly', [R.list(R.randint(0, 9)), R.choice([R.coef(), [R.coef(), R.randint(1, 9)], 0, 1, -1])]
    for m in range(5):
        for k in range(6 if m < 4 else 2): yield 'make_product_list', [[R.poly(1, 3) for _ in range(m)]]
        yield 'make_product_list', [[R.list(R.randint(0, 3)) for _ in range(m)]]
    p = [1, 1]; yield 'make_product_list', [[p, p]]; yield 'make_product_list', [[[2], [2], [0, 1]]]
    for k in range(n // 8): yield 'make_product_list', [[R.poly(1, 4, 's') for _ in range(R.randint(1, 2))]]
# ------------------------------------------------------------------------ C04
def posmult(r, m):
    """r = c*m with c > 0"""
    r, m = o.trim(r), o.trim(m)
    if len(r) != len(m): return False
    if not r: return True
    c = r[-1] / m[-1]
    return c > 0 and all(x == c * y for x, y in zip(r, m))
@check('spr')
def _(a, r):
    f, g = a
    if f and not g:
        if r and r.get('exc') == 'Exception': return None
        return 'division by the empty polynomial: %r' % (r,)
    b = bad(r)
    if b: return b
    r = r['ok']
    if not f: return None if r == [] else 'remainder of [] is %r' % r
    if not isinstance(r, list) or any(isinstance(c, list) for c in r): return 'got %r' % (r,)
    if r and r[-1] == 0: return 'result %r has a leading zero' % r
    if len(r) >= len(g): return 'result %r has no lower degree' % r
    m = o.rem(f, g)
    if not posmult(r, m): return 'result %r is no positive multiple of %s modulo the divisor' % (r, [str(c) for c in m])
@check('srs')
def _(a, r):
    b = bad(r)
    if b: return b
    s = r['ok']
    if len(s) < 2 or s[0] != a[0] or s[1] != a[1]: return 'sequence %r does not start with the arguments' % s
    for i in range(2, len(s)):
        if not s[i] or s[i][-1] == 0: return 'element %d is %r' % (i, s[i])
        if not posmult([-c for c in s[i]], o.rem(s[i - 2], s[i - 1])): return 'element %d of %r is not minus a signed remainder of the two before it' % (i, s)
    if o.trim(o.rem(s[-2], s[-1])): return 'sequence %r stops although the next remainder is not zero' % s
def small_polys(maxlen, vals):
    import itertools
    for n in range(maxlen + 1):
        for t in itertools.product(vals, repeat=n): yield list(t)
@gen('C04')
def _(R, n):
    sm = list(small_polys(3, [-2, 0, 1])); tr = [p for p in sm if not p or p[-1] != 0]
    for f in sm:
        for g in tr:
            if R.random() < .5: yield 'spr', [f, g]
    for f in R.sample(sm, 10): yield 'spr', [f, []]
    for k in range(n * 4):
        g = R.poly(1, 6)
        yield 'spr', [R.list(R.randint(0, 8)), g]
        if k % 3 == 0:
            q = R.list(R.randint(1, 4)); yield 'spr', [o.imul(g, q), g]
    for c in [c for c in R.consts if 3 < c < 30]:
        for d in (-1, 0, 1): yield 'spr', [R.poly(c + d, c + d, 's'), R.poly(1, min(c, 4), 's')]
    for p in tr:
        for q in tr:
            if p and q and R.random() < .6: yield 'srs', [p, q]
    for k in range(n * 2):
        p, _f = R.rooted(6); yield 'srs', [p, o.der(p)]
        yield 'srs', [R.poly(1, 6), R.poly(1, 6)]
        q, _f = R.rooted(4); yield 'srs', [p, q]
        if k % 5 == 0: yield 'srs', [o.imul(p, q), q]
        if k % 7 == 0: yield 'srs', [q, o.imul(p, q)]
# ------------------------------------------------------------------------ C03
@check('taq')
def _(a, r): return expect(r, o.taq(*a))
@check('cauchy')
def _(a, r): return expect(r, o.cauchy_index(*a))
@gen('C03')
def _(R, n):
    sm = [p for p in small_polys(3, [-2, 0, 1]) if p and p[-1] != 0]
    for p in sm:
        if len(p) < 2: continue
        for q in sm: yield 'taq', [p, q]
    for k in range(n * 2):
        p, fs = R.rooted(6)
        if R.random() < .5:
            q, _ = R.rooted(3)
            if R.random() < .5: q = o.imul(q, R.choice(fs))
        else: q = R.poly(1, 5)
        yield 'taq', [p, q]
        yield 'taq', [R.poly(2, 6), R.poly(1, 5)]
        if k % 2 == 0: yield 'cauchy', [p, q]
        if k % 3 == 0: yield 'cauchy', [R.poly(1, 5), R.poly(1, 6)]
    for k in range(n // 4):
        p, _ = R.rooted(9); yield 'taq', [p, R.poly(1, 3, 's')]
    for p in sm:
        yield 'cauchy', [p, []]
        for q in R.sample(sm, 6): yield 'cauchy', [p, q]
