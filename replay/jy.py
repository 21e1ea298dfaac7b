# Runs under Jython, in a scratch directory: executes batches of calls of the real code.
# usage: jy.py CASES.jsonl RESULTS.jsonl REPO START
import sys, os, json, traceback
REPO = sys.argv[3]
sys.path[:0] = [os.path.join(REPO, 'vts')]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
out = open(sys.argv[2], 'a')
class Null(object):
    def write(self, s): pass
    def flush(self): pass
real_stdout = sys.stdout
sys.stdout = Null()
OPS = {}
def op(f): OPS[f.__name__] = f; return f
_m = {}
def mod(name):
    if name not in _m: _m[name] = __import__(name)
    return _m[name]
def num(x):
    """JSON number -> int or Fraction"""
    if isinstance(x, list):
        from fractions import Fraction
        return Fraction(x[0], x[1])
    return int(x)
def polys(l): return [[int(c) for c in p] for p in l]
def outnum(x):
    if isinstance(x, bool): return x
    if isinstance(x, (int, long)): return int(x)
    from fractions import Fraction
    if isinstance(x, Fraction): return [int(x.numerator), int(x.denominator)]
    import sympy
    if isinstance(x, sympy.Integer): return int(x)
    if isinstance(x, sympy.Rational): return [int(x.p), int(x.q)]
    return ['?', repr(x), type(x).__name__]
def outpoly(p):
    if not isinstance(p, list): return ['?', repr(p)]
    return [outnum(c) for c in p]
def outpolys(l):
    if not isinstance(l, list): return ['?', repr(l)]
    return [outpoly(p) for p in l]
class Mutated(Exception): pass
def pure(f, *args):
    import copy
    before = copy.deepcopy(args)
    r = f(*args)
    if before != args: raise Mutated('arguments were modified: %r -> %r' % (before, args))
    return r
# ---- C08
@op
def multiply(p, q): return outpoly(pure(mod('uni_vts').multiply, p, q))
@op
def derivative(p): return outpoly(pure(mod('uni_vts').derivative, p))
@op
def evaluate_poly(p, x): return outnum(pure(mod('uni_vts').evaluate_poly, p, num(x)))
@op
def make_product_list(ps): return outpolys(pure(mod('uni_vts').make_product_list, ps))
# ---- C04
@op
def spr(f, g): return outpoly(pure(mod('uni_vts').signed_pseudo_remainder, f, g))
@op
def srs(p, q): return outpolys(pure(mod('uni_vts').signed_remainder_sequence, p, q))
# ---- C03
@op
def cauchy(p, q): return outnum(pure(mod('uni_vts').signed_remainder_cauchy_index, p, q))
@op
def taq(p, q): return outnum(pure(mod('uni_vts').tarski_query, p, q))
@op
def many(name, argss):
    """a history of calls in one process"""
    return [OPS[name](*a) for a in argss]
try:
    execfile(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'jy_ops.py'))
except IOError: pass

start = int(sys.argv[4])
for i, line in enumerate(open(sys.argv[1])):
    if i < start: continue
    c = json.loads(line)
    try: r = {'i': i, 'ok': OPS[c['op']](*c['args'])}
    except KeyboardInterrupt: raise
    except BaseException, e:
        r = {'i': i, 'exc': type(e).__name__, 'msg': str(e)[:500], 'tb': traceback.format_exc()[-1500:]}
    except:
        r = {'i': i, 'exc': str(sys.exc_info()[0]), 'msg': str(sys.exc_info()[1])[:500]}
    out.write(json.dumps(r) + '\n'); out.flush()
out.close()
