"""Contracts: what a function requires and ensures, how a call is replaced by
the contract, and how the body is verified against it."""
import z3
from .sym import *
from .execu import State, RaiseV, FnV, S2

class Contract:
    """kinds of parameters and results: poly, polys, num, int, bool, any, obj:Cls, or a
    function (ex, st, name) -> value. `result` may be a function giving the exact result
    term from the arguments (the function returns precisely that value)."""
    def __init__(self, qual, params, result='any', pre=None, post=None, exact=None, derived=None,
                 raises=None, fresh=False, public=True, setup=None, call=None, lemmas=(), doc='', effects=None, measure=None, axioms=None, may=None, advances=False, proves=None, cuts=None, asserts=None, hints=None, invariants=None):
        self.qual, self.params, self.result = qual, params, result
        self.pre, self.post, self.exact, self.derived = pre, post, exact, derived
        self.raises = raises or {}
        self.fresh, self.public, self.setup = fresh, public, setup
        self.arity = len(params)
        self.custom_call = call
        self.lemmas = lemmas
        self.doc = doc
        self.effects = effects
        self.measure, self.axioms = measure, axioms
        self.may = may or {}       # exceptions it may raise, each only under its condition
        self.cuts = cuts           # specification sums that sums of the code are expected to equal
        self.asserts = asserts     # (sort name -> for a constant of that sort: formulas expected to hold of it)
        self.hints = hints         # intermediate claims worth trying when an obligation about the result is hard
        self.invariants = invariants  # candidates for loops whose effect on a number has no closed form
        self.proves = proves       # lemmas about the specification functions that its axioms rely on
        self.advances = advances   # it may create objects
    # -------------------------------------------------------- conversions --
    def totermv(self, ex, st, kind, v):
        if kind == 'poly': return ex.listterm(st, v, PL)
        if kind == 'polys': return ex.listterm(st, v, PLL)
        if kind == 'num':
            if not is_num(v) and not is_bool(v): raise Unsupported('number expected')
            return zreal(znum(v))
        if kind == 'int':
            if not is_num(v): raise Unsupported('integer expected')
            v = znum(v)
            if v.sort() != Int: raise Unsupported('integer expected')
            return v
        if kind == 'bool':
            if not is_bool(v): raise Unsupported('boolean expected')
            return zbool(v)
        if kind == 'any': return v
        if isinstance(kind, str) and kind.startswith('obj:'):
            if not isinstance(v, ObjT) or v.cls != kind[4:]: raise Unsupported('%s expected' % kind[4:])
            return v.term
        if isinstance(kind, tuple):
            return kind[1](ex, st, v)
        raise Unsupported('kind %r' % (kind,))
    def symbolic(self, ex, st, kind, name):
        if kind == 'poly': return wrap(z3.Const(name, PL.sort))
        if kind == 'polys': return wrap(z3.Const(name, PLL.sort))
        if kind == 'num': return z3.Const(name, Real)
        if kind == 'int': return z3.Const(name, Int)
        if kind == 'bool': return z3.Const(name, Bool)
        if isinstance(kind, str) and kind.startswith('obj:'): return ObjT(kind[4:], z3.Const(name, obj_sort(kind[4:])))
        if isinstance(kind, tuple): return kind[0](ex, st, name)
        raise Unsupported('kind %r' % (kind,))
    def newresult(self, ex, st, kind):
        if kind == 'poly': return wrap(ex.fresh('res', PL.sort))
        if kind == 'polys': return wrap(ex.fresh('res', PLL.sort))
        if kind == 'num': return ex.fresh('res', Real)
        if kind == 'int': return ex.fresh('res', Int)
        if kind == 'bool': return ex.fresh('res', Bool)
        if kind == 'none': return None
        if isinstance(kind, str) and kind.startswith('obj:'): return ObjT(kind[4:], ex.fresh('res', obj_sort(kind[4:])))
        if isinstance(kind, tuple): return kind[2](ex, st)
        raise Unsupported('result kind %r' % (kind,))
    # --------------------------------------------------------------- calls --
    def call(self, ex, st, args, line):
        if self.custom_call is not None:
            for r in self.custom_call(self, ex, st, args, line): yield r
            return
        A = [self.totermv(ex, st, k, v) for k, v in zip(self.params, args)]
        nm = self.qual.split(':')[-1]
        if self.pre is not None:
            for n, f in named(self.pre(ex, *A), 'precondition'):
                ex.oblige(st, 'call of %s: %s' % (nm, n), f, line, 'pre')
        self.check_measure(ex, st, A, line)
        s = st
        for exc, cond in self.raises.items():
            nxt = None
            for s2, t in ex.branch(s, cond(ex, *A)):
                if t: yield s2, RaiseV(ExcV(exc))
                else: nxt = s2
            if nxt is None: return
            s = nxt
        for exc, cond in self.may.items():
            b = z3.And(ex.fresh('raises', Bool), zbool(S(cond(ex, *A))))
            s2 = s.fork()
            s2.conds.append(b)
            if ex.feasible(s2): yield s2, RaiseV(ExcV(exc))
            s.conds.append(z3.Not(b))
        now0 = s.now
        if self.advances:
            s.now = ex.fresh('now', Int)
            ex.assume(s, s.now >= now0)
        s.was = now0
        if self.exact is not None:
            r = wrap(self.exact(ex, *A)) if self.result != 'none' else None
        else:
            r = self.newresult(ex, s, self.result)
        rt = self.totermv(ex, s, self.result, r) if self.result not in ('none', 'any') else r
        if self.post is not None:
            for n, f in named(self.post(ex, s, rt, *A), 'post'): ex.assume(s, f)
        if self.derived is not None:
            for n, f in named(self.derived(ex, s, rt, *A), 'derived'): ex.assume(s, f)
        if self.advances and isinstance(r, LV) and r.seq.reif is not None: ex.freshlists.add(r.seq.reif.decl().name())
        if self.fresh and isinstance(r, LV): r = ex.alloc(s, r.seq)
        yield s, r
    def check_measure(self, ex, st, A, line):
        if self.measure is None or ex.curfn != self.qual: return
        m0, m1 = self.measure(ex, *ex.entry[1]), self.measure(ex, *A)
        ex.oblige(st, 'recursive call of %s: its measure decreases' % self.qual.split(':')[-1], z3.And(m1 >= 0, m1 < m0), line, 'term')
    # -------------------------------------------------------------- verify --
    def verify(self, ex, node, mod):
        """execute the body on arbitrary arguments meeting the precondition"""
        st = State()
        ex.curfn = self.qual
        ex.preload(st)
        nm = self.qual.split(':')[-1]
        names = [p['id'] if p['_'] == 'Name' else 'arg%d' % i for i, p in enumerate(node['args']['args'])]
        vals = [self.symbolic(ex, st, k, '%s.%s' % (nm.replace('.', '_'), n)) for k, n in zip(self.params, names)]
        A = [self.totermv(ex, st, k, v) for k, v in zip(self.params, vals)]
        if self.setup is not None: self.setup(ex, st, *A)
        if self.pre is not None:
            for n, f in named(self.pre(ex, *A), 'precondition'): ex.assume(st, f)
        pre_st = st.fork()
        ex.entry = (pre_st, A)
        fid = ex.newframe(st, None, mod, self.qual)
        f = FnV(node, None, self.qual, mod)
        outs = []
        ex.stack.append(self.qual)
        try:
            for k, a, x in ex.bind(st, f, vals, {}, fid):
                if k == 'raise': outs.append((k, a, x)); continue
                outs += ex.block(node['body'], a, fid)
        finally:
            ex.stack.pop()
        for k, s, x in outs:
            if k == 'raise':
                cond = None
                for exc, c in list(self.raises.items()) + list(self.may.items()):
                    if ex.subclass(x.cls, exc):
                        cc = c(ex, *A); cond = cc if cond is None else z3.Or(zbool(cond), zbool(cc))
                ex.oblige(s, '%s raises %s only when it may' % (nm, x.cls), zbool(cond) if cond is not None else z3.BoolVal(False), None, 'raise')
                continue
            if k not in ('return', 'next'): raise Unsupported(k)
            v = x if k == 'return' else None
            for exc, c in self.raises.items():
                ex.oblige(s, '%s does not raise %s only when it need not' % (nm, exc), z3.Not(zbool(c(ex, *A))), None, 'raise')
            for s2, v2 in ex.split(s, v): self.check_result(ex, s2, v2, A, nm, pre_st)
        return pre_st, A, outs
    def check_result(self, ex, s, v, A, nm, pre_st):
        if self.result == 'none':
            if v is not None: ex.oblige(s, '%s returns nothing' % nm, z3.BoolVal(False), None, 'post')
            rt = None
        elif self.result == 'any': rt = v
        else:
            if self.fresh:
                ok = isinstance(v, Ref) and v.addr not in s.frozen
                if not ok: raise Unsupported('%s returns a list that is shared with something else' % nm)
            try: rt = self.totermv(ex, s, self.result, v)
            except Unsupported as e:
                ex.oblige(s, '%s returns a value of the right kind (%s)' % (nm, e), z3.BoolVal(False), None, 'post'); return
        if self.exact is not None:
            ex.oblige(s, '%s returns exactly its specified result' % nm, rt == self.exact(ex, *A), None, 'post')
        if self.post is not None:
            for n, f in named(self.post(ex, s, rt, *A), 'post'):
                ex.oblige(s, '%s: %s' % (nm, n), f, None, 'post')

def named(x, dflt):
    if x is None: return []
    if isinstance(x, (list, tuple)):
        return [(y if isinstance(y, tuple) else ('%s %d' % (dflt, i + 1), y)) for i, y in enumerate(x)]
    return [(dflt, x)]
