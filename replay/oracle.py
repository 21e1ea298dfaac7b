"""Exact reference computations on rational polynomials (independent of the code under test)."""
from fractions import Fraction as F
def trim(p):
    p = [F(c) for c in p]
    while p and p[-1] == 0: p.pop()
    return p
def add(p, q):
    n = max(len(p), len(q)); return trim([(p[i] if i < len(p) else 0) + (q[i] if i < len(q) else 0) for i in range(n)])
def neg(p): return [-c for c in p]
def mul(p, q):
    if not p or not q: return []
    r = [F(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        if a:
            for j, b in enumerate(q): r[i + j] += a * b
    return r
def imul(p, q):
    """convolution of lists as lists of length max(0, m+n-1)"""
    if len(p) + len(q) <= 1: return []
    r = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q): r[i + j] += a * b
    return r
def divmod_(p, q):
    p, q = trim(p), trim(q); r = list(p); d = []
    quo = [F(0)] * max(0, len(p) - len(q) + 1)
    while len(r) >= len(q):
        k = len(r) - len(q); c = r[-1] / q[-1]; quo[k] = c
        for i, b in enumerate(q): r[i + k] -= c * b
        r.pop(); r = trim(r)
    return trim(quo), r
def rem(p, q): return divmod_(p, q)[1]
def der(p): return [i * c for i, c in enumerate(p)][1:]
def ev(p, x):
    r = F(0)
    for c in reversed(p): r = r * x + c
    return r
def sgn(v): return (v > 0) - (v < 0)
def gcd(p, q):
    p, q = trim(p), trim(q)
    while q:
        p, q = q, rem(p, q)
        if q: q = [c / q[-1] for c in q]
    return [c / p[-1] for c in p] if p else []
def sqfree(p):
    p = trim(p)
    if len(p) <= 2: return p
    g = gcd(p, der(p))
    return divmod_(p, g)[0] if len(g) > 1 else p
def content(p):
    """divide by a positive rational to keep numbers small"""
    if not p: return p
    from math import gcd as g
    d = 1
    for c in p: d = d * c.denominator // g(d, c.denominator)
    n = 0
    for c in p: n = g(n, int(c * d))
    return [c * d / n for c in p]
def sturm(p):
    s = [content(trim(p)), content(trim(der(p)))]
    while s[-1] and len(s[-1]) > 0:
        r = neg(rem(s[-2], s[-1]))
        if not r: break
        s.append(content(r))
    return [q for q in s if q]
def variations(vals):
    v = [x for x in vals if x != 0]
    return sum(1 for a, b in zip(v, v[1:]) if a * b < 0)
class Root:
    """a real root of a square-free p: exact rational (lo == hi) or the only root in (lo, hi), p(lo), p(hi) != 0"""
    def __init__(self, p, lo, hi): self.p, self.lo, self.hi = p, lo, hi
    def refine(self):
        if self.lo == self.hi: return
        m = (self.lo + self.hi) / 2
        v = ev(self.p, m)
        if v == 0: self.lo = self.hi = m
        elif sgn(v) == sgn(ev(self.p, self.lo)): self.lo = m
        else: self.hi = m
    def sign(self, q):
        """sign of q at the root"""
        q = trim(q)
        if not q: return 0
        if self.lo == self.hi: return sgn(ev(q, self.lo))
        g = gcd(self.p, q)
        if len(g) > 1 and nroots(g, self.lo, self.hi) > 0: return 0
        while True:
            if self.lo == self.hi: return sgn(ev(q, self.lo))
            if nroots(sqfree(q), self.lo, self.hi) == 0 and ev(q, self.lo) != 0 and ev(q, self.hi) != 0: return sgn(ev(q, self.lo))
            self.refine()
    def right(self, q):
        q = trim(q)
        while q:
            s = self.sign(q)
            if s: return s
            q = trim(der(q))
        return 0
    def __repr__(self): return '%s' % float((self.lo + self.hi) / 2)
_sc = {}
def sturm_c(p):
    k = tuple(p)
    if k not in _sc:
        if len(_sc) > 5000: _sc.clear()
        _sc[k] = sturm(p)
    return _sc[k]
def nroots(p, a, b):
    """distinct roots in (a, b]"""
    s = sturm_c(trim(p))
    return variations([ev(q, a) for q in s]) - variations([ev(q, b) for q in s])
def roots(p):
    p = sqfree(p)
    if len(p) <= 1: return []
    B = 1 + max(abs(c / p[-1]) for c in p[:-1])
    out = []
    def go(a, b, n):
        if n == 0: return
        if n == 1:
            if ev(p, b) == 0: out.append(Root(p, b, b)); return
            if ev(p, a) == 0:   # a itself is a root found on the other side: move it
                e = (b - a) / 2
                while ev(p, a + e) == 0 or nroots(p, a, a + e) > 0: e /= 2
                a = a + e
            out.append(Root(p, a, b)); return
        m = (a + b) / 2
        k = nroots(p, a, m)
        go(a, m, k); go(m, b, n - k)
    go(-B, B, nroots(p, -B, B))
    return out
def taq(p, q): return sum(r.sign(q) for r in roots(p))
def cauchy_index(p, q):
    """Cauchy index of q/p on the line, by the definition (jumps at the poles)"""
    p, q = trim(p), trim(q)
    if not q: return 0
    g = gcd(p, q)
    if len(g) > 1: p, q = divmod_(p, g)[0], divmod_(q, g)[0]
    t = 0
    for r in roots(p):
        a = r.right(mul(p, q))
        # sign of p*q just left of r: substitute x -> -x
        fl = lambda h: [c * (-1) ** i for i, c in enumerate(h)]
        r2 = Root(fl(r.p), -r.hi, -r.lo)
        b = r2.right(fl(mul(p, q)))
        if a > 0 and b < 0: t += 1
        if a < 0 and b > 0: t -= 1
    return t
def cond(kind, s): return {'le': s <= 0, 'lt': s < 0, 'eq': s == 0, 'ne': s != 0}[kind]
def sat(le, lt, eq, ne):
    """satisfiability over the reals by sampling every cell of the line"""
    cons = [('le', trim(p)) for p in le] + [('lt', trim(p)) for p in lt] + [('eq', trim(p)) for p in eq] + [('ne', trim(p)) for p in ne]
    prod = [F(1)]
    seen = set()
    for _, p in cons:
        if len(p) > 1 and tuple(p) not in seen:
            seen.add(tuple(p)); prod = mul(prod, sqfree(p))
    rs = roots(prod) if len(prod) > 1 else []
    for r in rs:
        if all(cond(k, r.sign(p)) for k, p in cons): return True
    pts = []
    if not rs: pts = [F(0)]
    else:
        for i in range(len(rs) - 1):
            while rs[i].hi >= rs[i + 1].lo and not (rs[i].hi == rs[i + 1].lo and rs[i].lo < rs[i].hi and rs[i + 1].lo < rs[i + 1].hi):
                rs[i].refine(); rs[i + 1].refine()
            pts.append((rs[i].hi + rs[i + 1].lo) / 2)
        pts += [rs[0].lo - 1, rs[-1].hi + 1]
    return any(all(cond(k, sgn(ev(p, x))) for k, p in cons) for x in pts)
