"""The caching algebra against the plain one. The plain operations are deterministic functions of the variable and
the arguments (checked on their bodies, given that for sympy's); the cache maps an operation and its arguments to the
plain result (invariant), so every answer equals the plain one after any history of calls."""
import z3
from pyded.sym import *
from pyded.contract import Contract
from pyded.execu import DictC, State, RaiseV
CW = 'highschool_qe/cachedsympywrapper.py'; SW = 'highschool_qe/sympywrapper.py'
FILES = [CW, SW]
PVS = obj_sort('PV')
VAR = z3.Const('VARIABLE', PVS)
UND = z3.Const('UNDERLYING', obj_sort('SympyWrapper')); SELF = z3.Const('SELF', obj_sort('CachedSympyWrapper'))
OPS = {'LT': 1, 'LC': 1, 'LS': 1, 'degree': 1, 'div': 2, 'p_tail': 1, 'e_var': 0, 'has_variable': 1, 'pseudo_div': 2, 'derivative': 1, 'zero': 0, 'sign': 1}
def fn(n, *s): return z3.Function(n, *s)
def PLAIN(m, v, *a): return fn('PLAIN_%s' % m, *([PVS] * (len(a) + 2)))(v, *a)
def ERR(m, v, *a): return fn('ERR_%s' % m, *([PVS] * (len(a) + 1) + [Bool]))(v, *a)
def pv(t): return ObjT('PV', t)
def PVK(ex, st, nm): return pv(z3.Const(nm, PVS))
class SymsV(V):
    """a fresh set of symbols: those of an expression, and some more"""
    extcls = 'SymsV'
    def __init__(self, of): self.of, self.more = of, []
def pt(x):
    if isinstance(x, ObjT) and x.cls == 'PV': return x.term
    if isinstance(x, SymsV):
        t = fn('SYMSET', PVS, PVS)(x.of)
        for m in x.more: t = fn('WITHSYM', PVS, PVS, PVS)(t, m)
        return t
    if isinstance(x, (int, bool)): return fn('PYCONST', Int, PVS)(int(x))
    raise Unsupported('an argument that is no expression: %r' % (x,))
def pure(name):
    def h(ex, st, *a):
        ts = [pt(x) for x in a]
        return pv(fn('%s/%d' % (name, len(ts)), *([PVS] * (len(ts) + 1)))(*ts))
    return h
def add(ex, st, s, x): s.more.append(pt(x)); return None
def ext7():
    d = {'sympy.' + f: pure('sympy.' + f) for f in ('LT', 'LC', 'LM', 'degree', 'div', 'pdiv', 'diff', 'sign', 'Poly', 'expand', 'rem', 'quo', 'simplify', 'factor', 'sympify', 'Integer', 'Symbol', 'gcd', 'resultant')}
    base = {}
    for o in ('Add', 'Sub', 'Mult', 'Div', 'Pow'): base[o + ':PV,PV'] = base[o + ':PV,Int'] = base[o + ':Int,PV'] = pure('op' + o)
    d.update(base)
    d.update({'neg:PV': pure('neg'), 'meth:PV.expand': pure('expand'), 'meth:PV.diff': pure('diff'), 'attr:PV.free_symbols': lambda ex, st, x: SymsV(x.term),
              'meth:SymsV.add': add, 'len:SymsV': lambda ex, st, s: fn('NSYMS', PVS, Int)(pt(s)), 'truth:PV': lambda ex, st, x: fn('TRUTH', PVS, Bool)(x.term)})
    return d
# ------------------------------------------------------------------- the cache
class Cell(DictC):
    """a dictionary: what it held on entry (base) and what was written since"""
    def __init__(self, base, writes=()):
        DictC.__init__(self, conc=None, has=True)
        self.base, self.writes = base, list(writes)
    def dhas(self, ex, st, k):
        k = norm(ex, k)
        return S(z3.Or(*[keq(k, w) for w, _ in self.writes] + [zbool(self.bhas(k))]))
    def dget(self, ex, st, k):
        k = norm(ex, k); s = st
        for w, v in reversed(self.writes):
            nx = None
            for s2, t in ex.branch(s, S(keq(k, w))):
                if t: yield s2, v
                else: nx = s2
            if nx is None: return
            s = nx
        for s2, t in ex.branch(s, S(zbool(self.bhas(k)))):
            if not t: yield s2, RaiseV(ExcV('KeyError')); continue
            v, f = self.bget(k)
            if f is not None: ex.assume(s2, f)
            yield s2, v
    def dset(self, ex, st, addr, k, v): st.heap[addr] = Cell(self.base, self.writes + [(norm(ex, k), ex.freeze(st, v))])
    def bhas(self, k):
        if self.base is None: return False
        m, ts = decode(k)
        if self.base == 'outer':
            if k[0] == 'm' and k[1] in OPS: return z3.Const('known!' + k[1], Bool)
            if m is None or ts is None or OPS[m] != len(ts): return False
            return fn('known!%s!%s' % (m, shape(k)), *([PVS] * len(ts) + [Bool]))(*ts)
        m0 = self.base[1]
        if m is not None or ts is None or OPS[m0] != len(ts): return False
        return fn('stored!%s!%s' % (m0, shape(k)), *([PVS] * len(ts) + [Bool]))(*ts)
    def bget(self, k):
        m, ts = decode(k)
        if self.base == 'outer' and k[0] == 'm': return DRef('inner!' + k[1]), None
        if m is None: m = self.base[1]
        return pv(PLAIN(m, VAR, *ts)), z3.Not(ERR(m, VAR, *ts))
def op(ex, n, kind):
    if getattr(ex, 'opkeys', kind) != kind: raise Unsupported('operations as keys, by name and by function')
    ex.opkeys = kind
    return ('m', n)
def norm(ex, k):
    if isinstance(k, FnV):
        if k.selfv is None or not isinstance(k.selfv, ObjT) or not k.selfv.term.eq(UND): raise Unsupported('a function as a key')
        n = k.qual.split('.')[-1]
        return op(ex, n, 'function')
    if isinstance(k, Tup): return ('t', tuple(norm(ex, x) for x in k.items))
    if isinstance(k, TupSeq) and k.seq.items is not None: return ('t', tuple(norm(ex, x) for x in k.seq.items))
    if isinstance(k, ObjT) and k.cls == 'PV': return ('v', k.term)
    if isinstance(k, str) and k in OPS: return op(ex, k, 'name')      # an operation known by its name
    if isinstance(k, (str, int)) or k is None: return ('c', k)
    raise Unsupported('key %r' % (k,))
def keq(a, b):
    if a[0] != b[0]: return z3.BoolVal(False)
    if a[0] == 'v': return a[1] == b[1]
    if a[0] == 't': return z3.And(*[keq(x, y) for x, y in zip(a[1], b[1])] or [z3.BoolVal(True)]) if len(a[1]) == len(b[1]) else z3.BoolVal(False)
    return z3.BoolVal(a[1] == b[1])
def decode(k):
    """(operation or None, arguments) that a key stands for"""
    ls = []
    def go(x):
        if x[0] == 't':
            for y in x[1]: go(y)
        else: ls.append(x)
    go(k)
    m = None
    if ls and ls[0][0] == 'm': m = ls.pop(0)[1]
    if not all(x[0] == 'v' for x in ls): return m, None
    return m, [x[1] for x in ls]
def shape(k): return '(%s)' % ','.join(shape(x) for x in k[1]) if k[0] == 't' else k[0]
def cellify(conc): return Cell(None)
# ------------------------------------------------------------------- contracts
class PlainC(Contract):
    """an operation of the plain algebra: answers depend on the variable and the arguments only"""
    def __init__(self, m):
        Contract.__init__(self, '%s:SympyWrapper.%s' % (SW, m), ['any'] * (OPS[m] + 1), None, axioms=lambda: [])
        self.m = m
    def call(self, ex, st, args, line):
        v = ex.field(st, args[0], '_variable')
        if not isinstance(v, ObjT): raise Unsupported('variable of the plain algebra')
        ts = [pt(a) for a in args[1:]]
        for s, t in ex.branch(st, ERR(self.m, v.term, *ts)):
            yield s, (RaiseV(ExcV('Exception')) if t else pv(PLAIN(self.m, v.term, *ts)))
    def verify(self, ex, node, mod):
        ex.curfn = self.qual; o = ObjT('SympyWrapper', UND); A = [z3.Const('arg%d' % i, PVS) for i in range(OPS[self.m])]
        runs = []
        for rnd in range(2):
            st = State(); ex.setfield(st, o, '_variable', pv(VAR)); f0 = st.heap[('F', 'SympyWrapper', '_variable')]
            outs = body(ex, st, self.qual, node, [o] + [pv(a) for a in A])
            for k, s, x in outs:
                for h in s.heap:
                    if h not in st.heap and isinstance(h, tuple): ex.oblige(s, '%s writes no attribute (%s)' % (self.m, h[2]), z3.BoolVal(False), None, 'frame')
                v = s.heap[('F', 'SympyWrapper', '_variable')].get(UND)
                ex.oblige(s, '%s leaves the variable alone' % self.m, v.term == VAR if isinstance(v, ObjT) else z3.BoolVal(False), None, 'frame')
            runs.append(outs)
        for k, s, x in runs[0]:
            for k2, s2, x2 in runs[1]:
                b = s.fork(); b.conds += s2.conds; b.facts += [f for f in s2.facts]
                if k == 'raise' or k2 == 'raise':
                    g = z3.BoolVal(k == k2 and x.cls == x2.cls)
                else:
                    x, x2 = (None if k == 'next' else x), (None if k2 == 'next' else x2)
                    g = determined(x, x2)
                ex.oblige(b, '%s: equal arguments give equal answers' % self.m, g, None, 'post')
        return st, [], runs[0]
def determined(x, y):
    if isinstance(x, ObjT) and isinstance(y, ObjT) and x.cls == y.cls: return x.term == y.term
    if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items): return z3.And(*[determined(p, q) for p, q in zip(x.items, y.items)] or [z3.BoolVal(True)])
    if is_z3(x) and is_z3(y) and x.sort() == y.sort(): return x == y
    if isinstance(x, (int, bool, str)) and type(x) == type(y): return z3.BoolVal(x == y)
    if isinstance(x, SymsV) and isinstance(y, SymsV): return pt(x) == pt(y)
    raise Unsupported('answer %r of the plain algebra' % (x,))
def body(ex, st, qual, node, args):
    mod = qual.split(':')[0]
    fid = ex.newframe(st, None, mod, qual); f = FnV(node, None, qual, mod); outs = []
    ex.stack.append(qual)
    try:
        for k, a, x in ex.bind(st.fork(), f, args, {}, fid):
            if k == 'raise': outs.append((k, a, x)); continue
            outs += ex.block(node['body'], a, fid)
    finally: ex.stack.pop()
    return outs
class CachedC(Contract):
    def __init__(self, m):
        Contract.__init__(self, '%s:CachedSympyWrapper.%s' % (CW, m), ['any'] * (OPS[m] + 1), None, axioms=lambda: [])
        self.m = m
    def call(self, ex, st, args, line): raise Unsupported('call of %s' % self.m)
    def start(self, ex):
        st = State(); o = ObjT('CachedSympyWrapper', SELF); u = ObjT('SympyWrapper', UND)
        ex.setfield(st, u, '_variable', pv(VAR)); ex.setfield(st, o, '_variable', pv(VAR)); ex.setfield(st, o, '_underlying', u)
        st.heap['outer'] = Cell('outer'); ex.setfield(st, o, '_cache', DRef('outer'))
        for m in OPS: st.heap['inner!' + m] = Cell(('inner', m))
        return st, o, u
    def invariant(self, ex, s, who):
        o = ObjT('CachedSympyWrapper', SELF); u = ObjT('SympyWrapper', UND)
        x = ex.field(s, o, '_underlying'); v = ex.field(s, u, '_variable')
        ex.oblige(s, '%s: the plain algebra stays the same' % who, x.term == UND if isinstance(x, ObjT) and x.cls == 'SympyWrapper' else z3.BoolVal(False), None, 'inv')
        ex.oblige(s, '%s: the variable stays the same' % who, v.term == VAR if isinstance(v, ObjT) else z3.BoolVal(False), None, 'inv')
        c = ex.field(s, o, '_cache')
        if not isinstance(c, DRef): ex.oblige(s, '%s: the cache is a dictionary' % who, z3.BoolVal(False), None, 'inv'); return
        self.contents(ex, s, c.addr, who)
        for m in OPS: self.inner(ex, s, 'inner!' + m, m, who)
    def contents(self, ex, s, addr, who):
        c = s.heap[addr]
        if not isinstance(c, Cell):
            if c.conc == []: return
            if c.conc is not None: c = Cell(None, [(norm(ex, k), v) for k, v in c.conc])
            else: raise Unsupported('contents of the cache')
        if c.base not in (None, 'outer'): ex.oblige(s, '%s: the cache holds operations' % who, z3.BoolVal(False), None, 'inv')
        for k, v in c.writes:
            m, ts = decode(k)
            if m is not None and k[0] == 'm' and isinstance(v, DRef): self.inner(ex, s, v.addr, m, who); continue
            self.entry_(ex, s, m, ts, v, who)
    def inner(self, ex, s, addr, m0, who):
        c = s.heap[addr]
        if not isinstance(c, Cell):
            if c.conc == []: return
            raise Unsupported('contents of the cache')
        if c.base not in (None, ('inner', m0)): ex.oblige(s, '%s: the entries of %s are its own' % (who, m0), z3.BoolVal(False), None, 'inv')
        for k, v in c.writes:
            m, ts = decode(k)
            self.entry_(ex, s, m0 if m is None else None, ts, v, who)
    def entry_(self, ex, s, m, ts, v, who):
        nm = '%s: what is stored is the answer to that very question' % who
        if m is None or m not in OPS or ts is None or len(ts) != OPS[m] or not isinstance(v, ObjT) or v.cls != 'PV': ex.oblige(s, nm, z3.BoolVal(False), None, 'inv'); return
        ex.oblige(s, nm + ' (%s)' % m, z3.And(v.term == PLAIN(m, VAR, *ts), z3.Not(ERR(m, VAR, *ts))), None, 'inv')
    def verify(self, ex, node, mod):
        ex.curfn = self.qual
        st, o, u = self.start(ex)
        A = [z3.Const('arg%d' % i, PVS) for i in range(OPS[self.m])]
        outs = body(ex, st, self.qual, node, [o] + [pv(a) for a in A])
        for k, s, x in outs:
            if k == 'raise':
                ex.oblige(s, '%s fails only when the plain operation does' % self.m, ERR(self.m, VAR, *A), None, 'raise')
                self.invariant(ex, s, self.m + ' (failing)'); continue
            v = x if k == 'return' else None
            for s2, v2 in ex.split(s, v):
                ex.oblige(s2, '%s returns the plain answer' % self.m, z3.And(v2.term == PLAIN(self.m, VAR, *A), z3.Not(ERR(self.m, VAR, *A))) if isinstance(v2, ObjT) and v2.cls == 'PV' else z3.BoolVal(False), None, 'post')
            self.invariant(ex, s, self.m)
        return st, [], outs
class InitC(CachedC):
    def __init__(self):
        Contract.__init__(self, '%s:CachedSympyWrapper.__init__' % CW, ['any'] * 2, None, axioms=lambda: [])
        self.m = '__init__'
    def verify(self, ex, node, mod):
        ex.curfn = self.qual
        st = State(); o = ObjT('CachedSympyWrapper', SELF)
        outs = body(ex, st, self.qual, node, [o, pv(VAR)])
        for k, s, x in outs:
            if k == 'raise': ex.oblige(s, 'an algebra can be made', z3.BoolVal(False), None, 'raise'); continue
            u = ex.field(s, o, '_underlying'); v = ex.field(s, u, '_variable') if isinstance(u, ObjT) and u.cls == 'SympyWrapper' else None
            ex.oblige(s, 'a new algebra asks a plain one with the same variable', v.term == VAR if isinstance(v, ObjT) else z3.BoolVal(False), None, 'inv')
            c = ex.field(s, o, '_cache')
            ok = isinstance(c, DRef) and c.addr not in s.frozen and (s.heap[c.addr].conc == [] if not isinstance(s.heap[c.addr], Cell) else s.heap[c.addr].base is None and not s.heap[c.addr].writes)
            ex.oblige(s, 'a new algebra has an empty cache of its own', z3.BoolVal(bool(ok)), None, 'inv')
            w = ex.field(s, o, '_variable')
            if w is not None: ex.oblige(s, 'a new algebra keeps its variable', w.term == VAR if isinstance(w, ObjT) else z3.BoolVal(False), None, 'inv')
        return st, [], outs
def contracts():
    C = {}
    for m in OPS:
        for c in (PlainC(m), CachedC(m)): C[c.qual] = c
    c = InitC(); C[c.qual] = c
    return C
