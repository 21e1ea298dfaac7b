"""Symbolic values of the executor: numbers and objects are z3 terms, lists are
lazily composed sequences, everything else is a small Python-side structure."""
import copy
import z3, itertools
from fractions import Fraction

class Unsupported(Exception):
    """The construct is outside the verifier's subset."""

_ctr = itertools.count()
def uid(): return next(_ctr)

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# constants that may later be replaced (loop indices, loop-carried unknowns)
SUBST = {}
HAVOC_DECLS = set()      # names of declarations that stand for unknown loop state

def limited(ms):
    """a solver that gives up after about ms milliseconds of work, counted by z3 so that the load of the machine does not matter"""
    s = z3.Solver(); s.set('rlimit', ms * 3000); s.set('timeout', ms * 6)
    return s
def subst_const(prefix, sort):
    c = z3.Const('%s!%d' % (prefix, uid()), sort)
    SUBST[c.get_id()] = c
    return c

# ---------------------------------------------------------------- sequences --
_seq_sorts = {}
class SeqSort:
    def __init__(self, esort):
        n = 'L_' + esort.name()
        self.esort = esort
        self.sort = z3.DeclareSort(n)
        self.len = z3.Function('len_' + n, self.sort, Int)
        self.at = z3.Function('at_' + n, self.sort, Int, esort)
def seqsort(esort):
    if isinstance(esort, SeqSort): esort = esort.sort
    k = esort.name()
    if k not in _seq_sorts:
        _seq_sorts[k] = SeqSort(esort)
        _by_sort[_seq_sorts[k].sort.name()] = _seq_sorts[k]
    return _seq_sorts[k]
_by_sort = {}
PL = seqsort(Real)        # coefficient lists
PLL = seqsort(PL.sort)    # lists of coefficient lists
def seq_of_sort(sort): return _by_sort.get(sort.name())

def is_z3(v): return isinstance(v, z3.ExprRef)
def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or \
        (is_z3(v) and v.sort() in (Int, Real))
def is_bool(v): return isinstance(v, bool) or (is_z3(v) and v.sort() == Bool)
def zi(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    return v
def znum(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(str(v))
    return v
def zreal(v):
    if isinstance(v, bool): return z3.RealVal(int(v))
    if isinstance(v, (int, Fraction)): return z3.RealVal(str(v))
    if v.sort() == Int:
        if z3.is_int_value(v): return z3.RealVal(v.as_long())
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return z3.If(v.arg(0), zreal(v.arg(1)), zreal(v.arg(2)))
        return z3.ToReal(v)
    return v
def zbool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    return v
def concrete(v):
    """z3 numeral/bool -> Python value where possible"""
    if is_z3(v):
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return v
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    return v
def S(e):
    return concrete(z3.simplify(e)) if is_z3(e) else e

class Seq:
    """n: length (int or z3 Int); get(i): value at i (0 <= i < n assumed)"""
    __slots__ = ('n', '_get', 'reif', 'items', 'base', 'tail', 'havoc', 'adds', 'cache', 'isum', 'stores', 'parts', 'filt')
    def __init__(self, n, get, reif=None, items=None):
        n = S(n) if is_z3(n) else n
        self.n, self._get, self.reif, self.items = n, get, reif, items
        self.base = None; self.tail = None; self.havoc = None; self.adds = None
        self.cache = {}; self.isum = None; self.stores = None; self.parts = None; self.filt = None
    def get(self, i):
        i = concrete(i)
        if self.items is not None:
            if isinstance(i, int): return self.items[i]
            if not self.items: return Undef
            v = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                v = merge(i == k, self.items[k], v)
            return v
        k = i if isinstance(i, int) else ('z', i.get_id())
        if k not in self.cache:
            self.cache[k] = (i, self._get(i))
        return self.cache[k][1]

def seq_items(items):
    items = list(items)
    return Seq(len(items), None, items=items)
def seq_term(t):
    ss = seq_of_sort(t.sort())
    def get(i): return wrap(ss.at(t, zi(i)))
    return Seq(ss.len(t), get, reif=t)
def wrap(t):
    """z3 term -> value (sequence sorts become list values)"""
    if is_z3(t) and seq_of_sort(t.sort()) is not None:
        return LV(seq_term(t))
    if is_z3(t) and t.sort().name() in OBJ_SORTS:
        return ObjT(OBJ_SORTS[t.sort().name()], t)
    return t
OBJ_SORTS = {}
def obj_sort(cls):
    s = z3.DeclareSort('O_' + cls)
    OBJ_SORTS[s.name()] = cls
    return s

def seq_append(s, items):
    """s ++ items, remembering the shape for loop summaries"""
    if s.items is not None:
        return seq_items(s.items + list(items))
    if s.base is not None:
        base, tail = s.base, s.tail + list(items)
    else:
        base, tail = s, list(items)
    r = seq_concat(base, seq_items(tail))
    if isinstance(r, Seq) and r is not base:
        r.base, r.tail = base, tail
    return r
def seq_concat(a, b):
    if a.items is not None and b.items is not None:
        return seq_items(a.items + b.items)
    if isinstance(a.n, int) and a.n == 0: return b
    if isinstance(b.n, int) and b.n == 0: return a
    an, bn = a.n, b.n
    def get(i):
        if isinstance(i, int) and isinstance(an, int):
            return a.get(i) if i < an else b.get(i - an)
        c = S(zi(i) < zi(an))
        if c is True: return a.get(i)
        if c is False: return b.get(S(zi(i) - zi(an)))
        return merge(c, a.get(i), b.get(S(zi(i) - zi(an))))
    r = Seq(zi(an) + zi(bn), get)
    r.parts = (a.parts or [a]) + (b.parts or [b])
    return r
def nonneg(t):
    """obviously not negative"""
    t = concrete(t)
    if isinstance(t, int): return t >= 0
    if not z3.is_app(t): return False
    if t.decl().name().startswith(('len_L_', 'nroots')): return True
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL): return all(nonneg(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        if nonneg(t.arg(1)) and nonneg(t.arg(2)): return True
        c = t.arg(0)
        return nonneg(t.arg(2)) and (z3.is_app_of(c, z3.Z3_OP_LE) and nonneg(c.arg(0)) and c.arg(1).eq(t.arg(1)) or
                                     z3.is_app_of(c, z3.Z3_OP_GE) and nonneg(c.arg(1)) and c.arg(0).eq(t.arg(1)))
    return False
def zmax(a, b):
    if isinstance(a, int) and isinstance(b, int): return max(a, b)
    if isinstance(b, int) and b == 0 and nonneg(a): return a
    if isinstance(a, int) and a == 0 and nonneg(b): return b
    return S(z3.If(zi(a) >= zi(b), zi(a), zi(b)))
def zmin(a, b):
    if isinstance(a, int) and isinstance(b, int): return min(a, b)
    return S(z3.If(zi(a) <= zi(b), zi(a), zi(b)))
def seq_slice(s, lo, hi):
    if s.items is not None and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        return seq_items(s.items[lo:hi])
    n = zi(s.n)
    def norm(x, dflt):
        if x is None: return dflt
        x = concrete(x)
        if isinstance(x, int):
            if x >= 0: return zmin(x, s.n) if x > 0 else 0
            return zmax(S(n + x), 0)
        y = z3.If(x < 0, x + n, x)
        return S(z3.If(y < 0, z3.IntVal(0), z3.If(y > n, n, y)))
    a = norm(lo, 0); b = norm(hi, s.n)
    m = zmax(S(zi(b) - zi(a)), 0)
    return Seq(m, lambda i: s.get(S(zi(i) + zi(a))))
def seq_reverse(s):
    if s.items is not None: return seq_items(s.items[::-1])
    return Seq(s.n, lambda i: s.get(S(zi(s.n) - 1 - zi(i))))
def seq_range(a, b, c=1):
    if all(isinstance(concrete(x), int) for x in (a, b, c)):
        return seq_items(list(range(concrete(a), concrete(b), concrete(c))))
    c = concrete(c)
    if c == 1:
        return Seq(zmax(S(zi(b) - zi(a)), 0), lambda i: S(zi(a) + zi(i)))
    if c == -1:
        return Seq(zmax(S(zi(a) - zi(b)), 0), lambda i: S(zi(a) - zi(i)))
    raise Unsupported('range step')
def seq_zip(*ss):
    if all(s.items is not None for s in ss):
        return seq_items([Tup(list(t)) for t in zip(*[s.items for s in ss])])
    n = ss[0].n
    for s in ss[1:]:
        n = n if S(zi(n) == zi(s.n)) is True else zmin(n, s.n)
    return Seq(n, lambda i: Tup([s.get(i) for s in ss]))
def seq_set(s, idx, val):
    idx = concrete(idx)
    if s.items is not None and isinstance(idx, int):
        it = list(s.items); it[idx] = val; return seq_items(it)
    return Seq(s.n, lambda i: merge(S(zi(i) == zi(idx)), val, s.get(i)))

# ------------------------------------------------------------------- values --
class V: pass
class _U(V):
    def __repr__(self): return 'Undef'
Undef = _U()
class LV(V):
    """immutable list value"""
    def __init__(self, seq): self.seq = seq
class Ref(V):
    """mutable list owned by the executing code"""
    def __init__(self, addr): self.addr = addr
class DRef(V):
    """mutable dict in the heap"""
    def __init__(self, addr): self.addr = addr
class Place(V):
    """list stored in a field of an object"""
    def __init__(self, obj, field): self.obj, self.field = obj, field
class Tup(V):
    def __init__(self, items): self.items = list(items)
class TupSeq(V):
    """tuple of symbolic length"""
    def __init__(self, seq): self.seq = seq
class SetV(V):
    """finite set of concrete elements with symbolic membership"""
    def __init__(self, mem): self.mem = dict(mem)
class SetSeq(V):
    """set given by the elements of a sequence (iteration order arbitrary, fixed)"""
    def __init__(self, seq): self.seq = seq
class ObjT(V):
    """instance: z3 term of the class's sort"""
    def __init__(self, cls, term): self.cls, self.term = cls, term
class FnV(V):
    def __init__(self, node, fid, qual, mod, cls=None, selfv=None, defaults=()):
        self.node, self.fid, self.qual, self.mod = node, fid, qual, mod
        self.cls, self.selfv, self.defaults = cls, selfv, defaults
class BI(V):
    def __init__(self, name, selfv=None): self.name, self.selfv = name, selfv
    def __repr__(self): return 'BI(%s)' % self.name
class ClsV(V):
    def __init__(self, name, mod=None, node=None): self.name, self.mod, self.node = name, mod, node
    def __repr__(self): return 'Cls(%s)' % self.name
class ModV(V):
    def __init__(self, name): self.name = name
class Opq(V):
    """opaque value (formatted strings and the like)"""
    def __init__(self, desc='?'): self.desc = desc
class ExcV(V):
    def __init__(self, cls, args=()): self.cls, self.args = cls, args
class Un(V):
    """guarded union"""
    def __init__(self, alts): self.alts = alts
class HavocAny(V):
    def __init__(self, loc): self.loc = loc

def same(a, b):
    if a is b: return True
    if is_z3(a) and is_z3(b): return a.eq(b)
    if is_z3(a) or is_z3(b): return False
    if isinstance(a, V) or isinstance(b, V):
        if type(a) is not type(b): return False
        if isinstance(a, (Ref, DRef)): return a.addr == b.addr
        if isinstance(a, LV): return a.seq is b.seq or (a.seq.reif is not None and b.seq.reif is not None and a.seq.reif.eq(b.seq.reif)) or \
            (a.seq.items is not None and b.seq.items is not None and len(a.seq.items) == len(b.seq.items) and all(same(x, y) for x, y in zip(a.seq.items, b.seq.items)))
        if isinstance(a, Tup): return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, ObjT): return a.cls == b.cls and a.term.eq(b.term)
        if isinstance(a, ClsV): return a.name == b.name and all(same(x, vars(b).get(k)) for k, x in vars(a).items())
        if isinstance(a, ModV): return a.name == b.name
        if isinstance(a, BI): return a.name == b.name and a.selfv is b.selfv
        if isinstance(a, ExcV): return a.cls == b.cls
        if isinstance(a, Place): return a.field == b.field and same(a.obj, b.obj)
        if isinstance(a, SetV): return set(a.mem) == set(b.mem) and all(same(a.mem[k], b.mem[k]) for k in a.mem)
        if isinstance(a, FnV): return a.node is b.node and a.fid == b.fid and (a.selfv is b.selfv or same(a.selfv, b.selfv))
        return False
    return type(a) == type(b) and a == b

LIFT = {}       # class of objects -> number to an object of that class
def merge(c, a, b):
    c = concrete(c)
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if is_num(a) and is_num(b):
        x, y = znum(a), znum(b)
        if x.sort() != y.sort(): x, y = zreal(x), zreal(y)
        return z3.If(c, x, y)
    if is_bool(a) and is_bool(b):
        return S(z3.If(c, zbool(a), zbool(b)))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if isinstance(a, LV) and isinstance(b, LV):
        return LV(seq_merge(c, a.seq, b.seq))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, ObjT) and isinstance(b, ObjT) and a.cls == b.cls:
        return ObjT(a.cls, z3.If(c, a.term, b.term))
    if isinstance(a, ObjT) and a.cls in LIFT and is_num(b): return merge(c, a, LIFT[a.cls](b))
    if isinstance(b, ObjT) and b.cls in LIFT and is_num(a): return merge(c, LIFT[b.cls](a), b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        ks = set(a.mem) | set(b.mem)
        return SetV({k: merge(c, a.mem.get(k, False), b.mem.get(k, False)) for k in ks})
    if isinstance(a, Un) or isinstance(b, Un):
        aa = a.alts if isinstance(a, Un) else [(z3.BoolVal(True), a)]
        bb = b.alts if isinstance(b, Un) else [(z3.BoolVal(True), b)]
        return Un([(z3.And(c, g), v) for g, v in aa] + [(z3.And(z3.Not(c), g), v) for g, v in bb])
    return Un([(c, a), (z3.Not(c), b)])
def seq_merge(c, a, b):
    if a is b: return a
    if a.reif is not None and b.reif is not None and a.reif.sort() == b.reif.sort():
        return seq_term(z3.If(c, a.reif, b.reif))
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        return seq_items([merge(c, x, y) for x, y in zip(a.items, b.items)])
    def get(i):
        i = concrete(i)
        if isinstance(i, int):
            if isinstance(a.n, int) and i >= a.n: return b.get(i)
            if isinstance(b.n, int) and i >= b.n: return a.get(i)
        return merge(c, a.get(i), b.get(i))
    return Seq(z3.If(c, zi(a.n), zi(b.n)), get)

# -------------------------------------------------------------- substitution --
def subst(v, pairs, seqs=None):
    """replace constants in a value; seqs: {id(havoc seq): replacement seq}"""
    if is_z3(v):
        return S(z3.substitute(v, *pairs)) if pairs else v
    if isinstance(v, LV): return LV(subst_seq(v.seq, pairs, seqs))
    if isinstance(v, TupSeq): return TupSeq(subst_seq(v.seq, pairs, seqs))
    if isinstance(v, SetSeq): return SetSeq(subst_seq(v.seq, pairs, seqs))
    if isinstance(v, Tup): return Tup([subst(x, pairs, seqs) for x in v.items])
    if isinstance(v, ObjT):
        return wrap(z3.substitute(v.term, *pairs)) if pairs else v
    if isinstance(v, SetV): return SetV({k: subst(x, pairs, seqs) for k, x in v.mem.items()})
    if isinstance(v, Un): return Un([(z3.substitute(g, *pairs), subst(x, pairs, seqs)) for g, x in v.alts])
    if isinstance(v, Place): return Place(subst(v.obj, pairs, seqs), v.field)
    if isinstance(v, FnV) and v.selfv is not None:
        return FnV(v.node, v.fid, v.qual, v.mod, v.cls, subst(v.selfv, pairs, seqs), v.defaults)
    if isinstance(v, (ExcV, Ref, DRef, HavocAny)): return v
    if isinstance(v, V):
        # a value of the dependency: whatever terms and values it is made of
        ch = {k: subst(x, pairs, seqs) for k, x in vars(v).items() if isinstance(x, V) or is_z3(x)}
        if any(not same(ch[k], vars(v)[k]) for k in ch):
            w = copy.copy(v)
            for k, x in ch.items(): setattr(w, k, x)
            return w
    return v
def subst_seq(s, pairs, seqs=None):
    if seqs and id(s) in seqs: return seqs[id(s)]
    if s.items is not None: return seq_items([subst(x, pairs, seqs) for x in s.items])
    if s.base is not None and seqs:
        b = subst_seq(s.base, pairs, seqs)
        return seq_append(b, [subst(x, pairs, seqs) for x in s.tail])
    if s.reif is not None and s.havoc is None:
        return seq_term(z3.substitute(s.reif, *pairs)) if pairs else s
    n = s.n if isinstance(s.n, int) else z3.substitute(s.n, *pairs)
    def get(i):
        i = concrete(i)
        if isinstance(i, int): return subst(s.get(i), pairs, seqs)
        J = subst_const('J', Int)
        v = subst(subst(s.get(J), pairs, seqs), [(J, i)])
        return v
    return Seq(n, get)

_fc = {}
def free_subst(*exprs):
    """substitutable constants occurring in z3 expressions (stable order)"""
    out = {}
    seen = set()
    st = [e for e in exprs if is_z3(e)]
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(e):
            st.append(e.body()); continue
        if z3.is_app(e):
            if e.num_args() == 0:
                if k in SUBST and SUBST[k].eq(e): out[k] = e
            else: st.extend(e.children())
    return [out[k] for k in sorted(out, key=lambda k: out[k].decl().name())]
def mentions(expr, names):
    """does a declaration with one of these names occur?"""
    if not is_z3(expr) or not names: return False
    seen = set(); st = [expr]
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(e): st.append(e.body()); continue
        if z3.is_app(e):
            if e.decl().name() in names: return True
            st.extend(e.children())
    return False
def val_mentions(v, names, depth=0):
    if depth > 6: return False
    if is_z3(v): return mentions(v, names)
    if isinstance(v, (LV, TupSeq, SetSeq)):
        s = v.seq
        if s.items is not None: return any(val_mentions(x, names, depth + 1) for x in s.items)
        if s.havoc is not None and s.havoc in names: return True
        if s.reif is not None: return mentions(s.reif, names)
        if is_z3(s.n) and mentions(s.n, names): return True
        J = subst_const('J', Int)
        return val_mentions(s.get(J), names, depth + 1)
    if isinstance(v, Tup): return any(val_mentions(x, names, depth + 1) for x in v.items)
    if isinstance(v, ObjT): return mentions(v.term, names)
    if isinstance(v, SetV): return any(val_mentions(x, names, depth + 1) for x in v.mem.values())
    if isinstance(v, Un): return any(mentions(g, names) or val_mentions(x, names, depth + 1) for g, x in v.alts)
    if isinstance(v, Place): return val_mentions(v.obj, names, depth + 1)
    if isinstance(v, HavocAny): return True
    if isinstance(v, (Ref, DRef)): return False
    if isinstance(v, V): return any(val_mentions(x, names, depth + 1) for x in vars(v).values() if isinstance(x, V) or is_z3(x))
    return False
