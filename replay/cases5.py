"""Cases for the sequent parser: random derivations of the input language in random white space."""
from fractions import Fraction as F
import random, os, re
from .cases import gen, check, bad
from .batch import REPO
KIND = {'<=': 'Le', '<': 'Lt', '=': 'Eq', '!=': 'Ne', '>=': 'Ge', '>': 'Gt'}
REL = {'Le': lambda a, b: a <= b, 'Lt': lambda a, b: a < b, 'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Ge': lambda a, b: a >= b, 'Gt': lambda a, b: a > b}
class Undef(Exception): pass
def dec(s): return '.' in s and not s.endswith('.')
def floats(t): return (t[0] == 'n' and dec(t[1])) or any(floats(x) for x in t[1:] if isinstance(x, list))
def names(t):
    if t[0] == 'v': return {t[1]}
    return set().union(*[names(x) for x in t[1:] if isinstance(x, list)])
def ev(t, env):
    """value and the size of what was computed on the way"""
    k = t[0]
    if k == 'n': v = F(t[1].rstrip('.') if not dec(t[1]) else t[1]); return v, abs(v)
    if k == 'v': v = env[t[1]]; return v, abs(v)
    a, m = ev(t[1], env)
    if k == 'neg': return -a, m
    b, m2 = ev(t[2], env)
    if k == '+': return a + b, m + m2
    if k == '-': return a - b, m + m2
    if k == '*': return a * b, (m + 1) * (m2 + 1)
    if b == 0: raise Undef()
    return a / b, (m + 1) * (m2 + 1) * (1 + 1 / abs(b)) ** 2
def got(t, env):
    k = t[0]
    if k == 'Sym':
        if t[1] not in env: raise ValueError('variable %r' % t[1])
        return env[t[1]]
    if k == 'Rat': return F(int(t[1]), int(t[2]))
    if k == 'Float': return F(int(t[1])) * F(2) ** t[2]
    if k == 'Undef': raise Undef()
    if k == 'Add': return sum(got(x, env) for x in t[1:])
    if k == 'Mul':
        r = F(1)
        for x in t[1:]: r *= got(x, env)
        return r
    if k == 'Pow':
        b, e = got(t[1], env), got(t[2], env)
        if e.denominator != 1: raise ValueError('power %s' % e)
        if b == 0 and e < 0: raise Undef()
        return b ** int(e)
    raise ValueError('read as %r' % (t,))
def hasundef(t): return t[0] == 'Undef' or any(hasundef(x) for x in t[1:] if isinstance(x, list))
def envs(ns):
    R = random.Random(5)
    for k in range(12): yield {n: F(R.choice([1, -1]) * R.randint(1, 40), R.choice([1, 2, 3, 7])) for n in sorted(ns)}
def close(a, b, m, fl): return a == b if not fl else abs(a - b) <= F(1, 10**9) * (1 + m)
def term(t, r):
    fl = floats(t); ok = 0
    for env in envs(names(t)):
        try: w, m = ev(t, env)
        except Undef: continue
        try: g = got(r, env)
        except Undef: return 'undefined at %r, expected %s: %r' % ({k: str(v) for k, v in env.items()}, w, r)
        if not close(w, g, m, fl): return 'value %s instead of %s: %r' % (g, w, r)
        ok += 1
def relation(t, r):
    k = KIND[t[0]]
    if isinstance(r, bool):
        fl = floats(t)
        for env in envs(names(t)):
            try: (a, m), (b, m2) = ev(t[1], env), ev(t[2], env)
            except Undef: continue
            if fl and close(a, b, m + m2, True): continue
            if REL[k](a, b) != r: return 'truth value %r is wrong at %r' % (r, {x: str(v) for x, v in env.items()})
        return None
    if r[0] != k: return 'read as %r' % (r,)
    return term(t[1], r[1]) or term(t[2], r[2])
@check('parsed')
def _(a, r):
    kind, text, t = a
    if r and r.get('exc') in ('ZeroDivisionError',) : pass
    b = bad(r)
    if b: return b
    r = r['ok']
    if kind == 'term': return term(t, r)
    if kind == 'rln': return relation(t, r)
    if r[0] != t[0]: return 'name %r' % r[0]
    for side, w, g in (('antecedent', t[1], r[1]), ('succedent', t[2], r[2])):
        if len(w) != len(g): return '%s: %d relations instead of %d' % (side, len(g), len(w))
        for x, y in zip(w, g):
            e = relation(x, y)
            if e: return '%s: %s' % (side, e)
def size(R): return R.choice([0, 0, 1, 1, 1, 2, 3])
NAMES = ['x', 'y', 'z', 'x1', 'x_1', '_', '_a', '__', 'E', 'e', 'I', 'pi', 'S', 'N', 'Q', 'O', 'C', 'oo', 'zoo', 'nan', 'X', 'skoX', 'skoSP1', 'a' * 40, 'sequent', 'antecedent', 'succedent', 't', 's', 'l', 'e5', 'x2y3', 'Sqrt', 'beta', 'gamma', 'lambda', 'True', 'None', 'vt', 'v0']
NUMS = ['0', '1', '2', '3', '10', '007', '00', '42', '123456789', '98765432109876543210987', '1.', '20.', '0.5', '0.25', '1.5', '3.125', '0.1', '00.10', '12.75', '0.0', '1.0', '2.0']
def mined():
    out = set()
    for f in ('vts/grf_parser.py',):
        try: s = open(os.path.join(REPO, f)).read()
        except OSError: continue
        for m in re.findall(r'[A-Za-z_]\w*', s): out.add(m)
    return sorted(out)
def numeral(R):
    s = R.choice(NUMS)
    if R.random() < .25: s = str(R.choice((R.consts or [5])) + R.choice([-1, 0, 1]))
    if R.random() < .1: s = str(R.randint(0, 999)) + '.' + str(R.randint(0, 9999)).rjust(R.choice([1, 2, 3]), '0')
    return ('-' if R.random() < .3 else '') + s
def rterm(R, d):
    if d <= 0 or R.random() < .15:
        if R.random() < .5: return ['v', R.choice(NAMES[:5] if R.random() < .6 else NAMES + R.names)]
        return ['n', numeral(R)]
    k = R.choice(['+', '*', '-', '/', 'neg', '+', '*', '-'])
    if k == 'neg': return ['neg', rterm(R, d - 1)]
    a, b = d - 1, R.choice([0, d - 1, d - 1])
    if R.random() < .5: a, b = b, a
    return [k, rterm(R, a), rterm(R, b)]
def ws(R, need):
    if R.style == 0: return ' ' if need else ''
    if R.style == 1: return ' '
    n = R.choice([0, 1, 1, 2, 5])
    return ''.join(R.choice(' \n\t\r' if R.style == 2 else ' \n') for _ in range(n)) or (' ' if need else '')
def show(R, t):
    if t[0] in 'nv': return t[1]
    op = '-' if t[0] == 'neg' else t[0]
    ps = [show(R, x) for x in t[1:]]
    s = '(' + ws(R, False) + op
    prev = op
    for p in ps:
        s += ws(R, not (p[0] == '(' or prev[-1] == ')')) + p; prev = p
    return s + ws(R, False) + ')'
def rrel(R, d): return [R.choice(list(KIND)), rterm(R, R.choice([0, d, d])), rterm(R, R.choice([0, 0, d]))]
def sequent(R, na, ns, d):
    nm = R.choice(['x', 'problem 1', "it's (here)", 'a\nb', 'sequent', '(', '\\', '0', ' lead', 'long ' * 20])
    A, S = [rrel(R, d) for _ in range(na)], [rrel(R, d) for _ in range(ns)]
    def side(k, l): return '(' + ws(R, False) + k + ws(R, False) + ''.join(show(R, x) + ws(R, False) for x in l) + ')'
    text = ws(R, False) + '(' + ws(R, False) + 'sequent' + ws(R, False) + '"' + nm + '"' + ws(R, False) + side('antecedent', A) + ws(R, False) + side('succedent', S) + ws(R, False) + ')' + R.choice(['', '\n', ' (sequent', ')'])
    return 'parsed', ['cmd', text, [nm, A, S]]
@gen('C12')
def _(R, n):
    R.names = mined(); R.style = 1
    A = [['v', v] for v in NAMES + R.names] + [['n', m + x] for x in NUMS for m in ('', '-')]
    for a in A: yield 'parsed', ['term', show(R, a), a]
    small = [['v', 'x'], ['v', 'y'], ['n', '2'], ['n', '-3'], ['n', '1.5'], ['n', '-0.25'], ['n', '4.'], ['neg', ['v', 'x']], ['-', ['v', 'x'], ['n', '1']], ['/', ['n', '1'], ['n', '3']]]
    for a in small:
        t = ['neg', a]
        for R.style in (0, 1, 2): yield 'parsed', ['term', show(R, t), t]
        for b in small:
            for op in '+*-/':
                R.style = R.choice([0, 1, 2]); t = [op, a, b]; yield 'parsed', ['term', show(R, t), t]
            for op in KIND:
                R.style = R.choice([0, 1, 2]); t = [op, a, b]; yield 'parsed', ['rln', show(R, t), t]
    for d in (10, 20):
        for k in range(4):
            R.style = k % 3; t = ['v', 'x']
            for i in range(d):
                o = R.choice(['neg', '+', '-', '*']); q = ['n', numeral(R)]
                t = ['neg', t] if o == 'neg' else ([o, t, q] if R.random() < .5 else [o, q, t])
            yield 'parsed', ['term', show(R, t), t]
    for na in (0, 1, 2, 5):
        for ns in (0, 1, 2):
            R.style = R.choice([0, 1, 2]); yield sequent(R, na, ns, 1)
    for na, ns in ((40, 1), (1, 30)): R.style = 1; yield sequent(R, na, ns, 0)
    for k in range(n):
        R.style = R.choice([0, 1, 1, 2, 2])
        c = R.choice(['term', 'term', 'rln', 'cmd'])
        if c == 'cmd': yield sequent(R, R.randint(0, 3), R.randint(0, 3), size(R))
        else:
            t = (rterm if c == 'term' else rrel)(R, R.choice([1, 2, 3, 4]))
            yield 'parsed', [c, show(R, t), t]
