# more operations; executed inside jy.py
# ---- C02
@op
def its(le, lt, eq, ne): return pure(mod('uni_vts').internal_ts, le, lt, eq, ne)
@op
def evaluate(point, le, lt, eq, ne):
    import z3rcf
    u = mod('uni_vts')
    if isinstance(point, dict):
        if 'root' in point: x = z3rcf.MkRoots(point['root'])[point['k']]
        elif 'eps' in point: x = z3rcf.MkRoots(point['eps'])[point['k']] + z3rcf.MkInfinitesimal('eps')
        else: x = -1 / z3rcf.MkInfinitesimal('eps')
    else: x = z3rcf.MkRoots([-point[0], point[1]] if isinstance(point, list) else [-point, 1])[0]
    try:
        u.evaluate(x, le, lt, eq, ne)
        return True
    except u.ConditionExc: return False
# ---- C01
@op
def ivts(le, lt, eq, ne): return pure(mod('uni_vts').internal_vts, le, lt, eq, ne)
# ---- C05 / C06
def _desc(p):
    import z3rcf
    u = mod('uni_vts')
    rs = z3rcf.MkRoots(p)
    ds = u.get_discri_der_signs(rs, p)
    return u, rs, ds
def _ix(rs, x):
    h = [i for i in range(len(rs)) if rs[i] == x]
    return h[0] if len(h) == 1 else -1
def _order(rs): return sorted(range(len(rs)), cmp=lambda i, j: -1 if rs[i] < rs[j] else 1)
@op
def discri(p):
    """[root number (sorted), [[poly, sign]...]] per descriptor"""
    u, rs, ds = _desc(p)
    o = _order(rs); pos = dict((i, k) for k, i in enumerate(o))
    out = []
    for d in ds:
        al = d.get_all_polies()
        out.append([pos.get(_ix(rs, d.point), -1), [[[int(c) for c in q], d.get_sign(q)] for q in al],
                    [[[int(c) for c in q] for q in l] for l in (d.neg_polies, d.zer_polies, d.pos_polies)]])
    return out
@op
def discri_some(p, ks, q):
    """discrimination of some of the roots of p by the derivatives of q"""
    import z3rcf
    u = mod('uni_vts')
    rs = z3rcf.MkRoots(p); o = _order(rs)
    sel = [rs[o[k]] for k in ks]
    ds = u.get_discri_der_signs(sel, q)
    return [[_ix(sel, d.point), [[[int(c) for c in t], d.get_sign(t)] for t in d.get_all_polies()], []] for d in ds]
@op
def descapi(steps, asks):
    u = mod('uni_vts')
    d = u.DiscDerSigns(0)
    for q, s in steps: {1: d.add_pos_poly, -1: d.add_neg_poly, 0: d.add_zer_poly}[s](q)
    return [[d.get_sign(q) for q in asks], d.get_all_polies()]
@op
def sign_at(p, q, close):
    """[root number, sign] per root of p"""
    u, rs, ds = _desc(p)
    o = _order(rs); pos = dict((i, k) for k, i in enumerate(o))
    f = u.e_close_evaluate_single_on_sign_assignment if close else u.evaluate_single_on_sign_assignment
    out = []
    for d in ds: d.set_origin_poly(p)
    for d in ds:
        try: s = int(f(d, q))
        except Exception, e: s = 'exc ' + type(e).__name__
        out.append([pos.get(_ix(rs, d.point), -1), s])
    return sorted(out)
@op
def pick(rec, goal, counts):
    import sympy
    u = mod('uni_vts')
    if not hasattr(u, 'pick_sign_of_goal'): return 'absent'
    d = u.DiscDerSigns(__import__('z3rcf').MkRoots([-1, 1])[0])
    for q, s in rec: {1: d.add_pos_poly, -1: d.add_neg_poly, 0: d.add_zer_poly}[s](q)
    d.set_origin_poly([-1, 1])
    try: return int(u.pick_sign_of_goal([q for q, s in rec] + [goal], d, sympy.Matrix([[c] for c in counts])))
    except Exception, e: return 'exc'
# ---- C13
@op
def lookup(le, lt, eq, ne, asks):
    u = mod('uni_vts')
    t = pure(u.sign_conditions_lookup, le, lt, eq, ne)
    out = []
    for q in asks:
        k = u.make_poly_hashabel(q)
        out.append(sorted(t[k]) if k in t else None)
    return [len(t), out]
@op
def keys(ps):
    u = mod('uni_vts')
    ks = [u.make_poly_hashabel(p) for p in ps]
    return [ks.index(k) for k in ks] + [[k2 == k and hash(k2) == hash(k) for k, k2 in zip(ks, [u.make_poly_hashabel(list(p)) for p in ps])]]
# ---- C07
def _kron(a, b): return [[x * y for x in r for y in s] for r in a for s in b]
def _kp(n, base):
    m = base
    for k in range(n - 1): m = _kron(m, base)
    return m
@op
def matrices(segments):
    """requests ['m' | 'i', n] in segments; the module is loaded afresh for every segment, the files stay"""
    import tempfile, shutil, sympy
    h = sympy.Rational(1, 2)
    base = {'m': [[1, 1, 1], [0, 1, -1], [0, 1, 1]], 'i': [[1, 0, -1], [0, h, h], [0, -h, h]]}
    old = sys.modules.get('matrix_of_signs'); cwd = os.getcwd()
    d = tempfile.mkdtemp(dir=cwd)
    out = []
    try:
        os.chdir(d)
        for seg in segments:
            sys.modules.pop('matrix_of_signs', None)
            m = __import__('matrix_of_signs')
            res = []
            for kind, n in seg:
                if isinstance(n, list): n = float(n[0]) / n[1]
                if isinstance(n, unicode): n = str(n)
                try: r = {'m': m.get_matrix, 'i': m.get_matrix_inverse}[kind](n)
                except Exception, e: res.append('exc'); continue
                if not isinstance(n, int) or n < 1 or n > 5: res.append('returned'); continue
                w = _kp(n, base[kind])
                if tuple(r.shape) != (3 ** n, 3 ** n): res.append('shape %r' % (r.shape,)); continue
                bad = [(i, j) for i in range(3 ** n) for j in range(3 ** n) if r[i, j] != w[i][j]]
                res.append('ok' if not bad else 'wrong entry %r: %s' % (bad[0], r[bad[0][0], bad[0][1]]))
            out.append(res)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, True)
        if old is not None: sys.modules['matrix_of_signs'] = old
    return out
# ---- C09
def _expr(spec, x):
    """sum of products of factors; a factor is a coefficient list; a coefficient an int, [p, q], ['s', p, q] (times root of two), ['f', text]"""
    import sympy
    if isinstance(spec, int): return spec
    def co(c):
        if isinstance(c, list):
            if c[0] == 's': return sympy.Rational(c[1], c[2]) * sympy.sqrt(2)
            if c[0] == 'f': return sympy.Float(str(c[1]))
            return sympy.Rational(c[0], c[1])
        return sympy.Integer(c)
    r = sympy.Integer(0)
    for fs in spec:
        t = sympy.Integer(1)
        for f in fs: t = t * sum([co(c) * x ** k for k, c in enumerate(f)], sympy.Integer(0))
        r = r + t
    return r
@op
def conv(spec, name):
    import sympy
    return outtyped(mod('isym').convert(_expr(spec, sympy.Symbol(str(name)))))
def outtyped(l):
    if not isinstance(l, list): return ['?', repr(l)]
    return [int(c) if isinstance(c, (int, long)) and not isinstance(c, bool) else ['?', repr(c), type(c).__name__] for c in l]
@op
def convback(l):
    import sympy
    e = mod('isym').convert_back(l)
    x = sympy.Symbol('x'); d = sympy.expand(sympy.sympify(e))
    if d.free_symbols - set([x]): return ['?', repr(e)]
    p = sympy.Poly(d, x)
    return [outnum(c) for c in reversed(p.all_coeffs())]
@op
def roundtrip(l):
    m = mod('isym')
    return outtyped(m.convert(m.convert_back(l)))
@op
def sym_sat(proc, name, lists):
    import sympy
    x = sympy.Symbol(str(name))
    r = getattr(mod('isym'), str(proc))(*[[_expr(e, x) for e in l] for l in lists])
    return r if isinstance(r, bool) else ['?', repr(r)]
# ---- C10 / C11: relations are [kind, left, right]; an expression is a list of [coefficient, exponents of x, y, z]
_KINDS = ['Le', 'Lt', 'Eq', 'Ne', 'Gt', 'Ge']
def _mexpr(spec):
    import sympy
    vs = [sympy.Symbol(c) for c in 'xyz']
    r = sympy.Integer(0)
    for c, es in spec:
        t = sympy.Rational(c[0], c[1]) if isinstance(c, list) else sympy.Integer(c)
        for v, e in zip(vs, es): t = t * v ** e
        r = r + t
    return r
def _mrel(spec):
    import sympy
    if spec is True or spec is False: return spec
    if spec == 'T': return sympy.true
    if spec == 'F': return sympy.false
    if spec == 'sym': return sympy.Symbol('p')
    return getattr(sympy, str(spec[0]))(_mexpr(spec[1]), _mexpr(spec[2]))
def _outexpr(e):
    import sympy
    p = sympy.Poly(sympy.expand(sympy.sympify(e)), *[sympy.Symbol(c) for c in 'xyz'])
    return [[outnum(c), [int(k) for k in m]] for m, c in p.terms() if c != 0]
def _outrel(r):
    import sympy
    if r is True or r is sympy.true or r == True: return True
    if r is False or r is sympy.false or r == False: return False
    for k in _KINDS:
        if isinstance(r, getattr(sympy, k)): return [k, _outexpr(r.lhs), _outexpr(r.rhs)]
    return ['?', repr(r), repr(r)]
def _twice(f, *specs):
    """the result; the argument lists must be left alone"""
    args = [[_mrel(s) for s in l] for l in specs]
    keep = [list(l) for l in args]
    r = f(*args)
    if args != keep: raise Mutated('arguments were modified')
    return [[_outrel(x) for x in l] for l in keep], r
@op
def clauses(ante, succ):
    g, r = _twice(mod('checker').vts_preformat, ante, succ)
    return [g, [[_outrel(x) for x in c] for c in r]]
@op
def rewless(rels):
    g, r = _twice(mod('checker').rewrite_to_less, rels)
    return [g, [_outrel(x) for x in r]]
@op
def negrel(rels):
    g, r = _twice(mod('checker').negate_relations, rels)
    return [g, [_outrel(x) for x in r]]
@op
def relmap(rels):
    g, r = _twice(mod('checker').make_relation_map, rels)
    return [g, dict((k, [_outexpr(x) for x in r[k]]) for k in r)]
@op
def univ(rels):
    g, r = _twice(mod('examples_parser').make_univariate, rels)
    return [g, [_outrel(x) for x in r]]
# ---- C16
def _algebras():
    if 'blist' not in sys.modules:
        try: import blist
        except ImportError:
            import types
            b = types.ModuleType('blist')      # the container library is not installed; the algebras do not use it
            b.sortedset = b.sortedlist = b.sorteddict = None
            sys.modules['blist'] = b
    return mod('cachedsympywrapper').CachedSympyWrapper, mod('sympywrapper').SympyWrapper
def _asks(v):
    import sympy
    if v is None: return []
    return [_mexpr(e) if isinstance(e, list) else sympy.Symbol(str(e)) for e in v]
def _answer(f, args):
    try: r = f(*args)
    except Exception, e: return ('exc', type(e).__name__)
    return ('ok', r)
def _alike(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all([_alike(x, y) for x, y in zip(a, b)])
    return type(a) == type(b) and a == b and str(a) == str(b)
@op
def calg(history):
    """history of [instance, variable, operation, arguments]: answers that differ from the plain algebra's"""
    import sympy
    C, P = _algebras()
    inst = {}
    out = []
    for i, (who, v, name, args) in enumerate(history):
        k = (who, v)
        if k not in inst: inst[k] = (C(sympy.Symbol(str(v))), P(sympy.Symbol(str(v))))
        c, p = inst[k]
        es = _asks(args); fs = _asks(args)
        g = _answer(getattr(c, str(name)), es)
        w = _answer(getattr(P(sympy.Symbol(str(v))), str(name)), fs)
        if not _alike(g, w): out.append([i, str(g), str(w)])
        if es != fs: out.append([i, 'arguments were modified', ''])
    return out
# ---- C12
def _tree(e):
    import sympy
    if isinstance(e, bool): return ['Bool', e]
    if isinstance(e, sympy.Symbol): return ['Sym', e.name] if e == sympy.Symbol(e.name) else ['?', 'symbol with assumptions']
    if isinstance(e, sympy.Rational): return ['Rat', str(e.p), str(e.q)]
    if isinstance(e, sympy.Float):
        s, m, x, b = e._mpf_
        if not m and x: return ['Undef', str(e)]
        return ['Float', str(-m if s else m), int(x)]
    if e in (sympy.zoo, sympy.nan, sympy.oo, -sympy.oo): return ['Undef', str(e)]
    if isinstance(e, (sympy.Add, sympy.Mul, sympy.Pow)): return [type(e).__name__] + [_tree(a) for a in e.args]
    return ['?', type(e).__name__, repr(e)[:200]]
def _reltree(r):
    import sympy
    if isinstance(r, bool): return r
    if r in (sympy.true, sympy.false): return bool(r)
    for k in ('Le', 'Lt', 'Eq', 'Ne', 'Ge', 'Gt'):
        if type(r) is getattr(sympy, k): return [k, _tree(r.lhs), _tree(r.rhs)]
    return ['?', type(r).__name__]
@op
def parsed(kind, text, ast):
    p = getattr(mod('grf_parser'), kind)
    if kind == 'term' or kind == 'rln':
        r = p.parseString(text, parseAll=True)
        if len(r) != 1: return ['several', len(r)]
        return (_tree if kind == 'term' else _reltree)(r[0])
    r = p.parseString(text)
    return [r['str_name'], [_reltree(x) for x in r['antecedent']['fmls']], [_reltree(x) for x in r['succedent']['fmls']]]
