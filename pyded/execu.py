"""Symbolic executor / verification-condition generator for the Python subset
used by the repository. Functions with a contract are called through it, other
functions of the repository are executed in place; loops are summarised exactly
(accumulations, maps, filters, searches, stores) for any number of iterations."""
import z3
from .sym import *
from fractions import Fraction

class RaiseV:
    def __init__(self, exc): self.exc = exc

class FieldMap:
    def __init__(self, get): self.get = get
class DictC:
    """dict cell: concrete part (list of (key, value), insertion order unknown)
    or symbolic part (has/get over z3 keys)"""
    def __init__(self, conc=None, has=None, get=None, ksort=None):
        self.conc, self.has, self.get, self.ksort = conc, has, get, ksort
        self.havoc = None; self.stores = None; self.origin = None; self.size = None
    @property
    def sym(self): return self.has is not None

class State:
    __slots__ = ('frames', 'heap', 'conds', 'facts', 'frozen', 'now', 'was')
    def __init__(self):
        self.frames, self.heap, self.conds, self.facts, self.frozen = {}, {}, [], [], set()
        self.now = z3.IntVal(0); self.was = self.now
    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.conds, s.facts, s.frozen, s.now = list(self.conds), list(self.facts), set(self.frozen), self.now
        s.was = self.was
        return s

class Obl:
    def __init__(self, name, hyps, goal, fn, line, kind='post', live=()):
        self.live = list(live)      # the loop indexes the obligation may speak about
        self.name, self.hyps, self.goal, self.fn, self.line, self.kind = name, hyps, goal, fn, line, kind

def escaped(obls):
    """the first obligation that mentions an index of a loop it is not in (an error of the verifier), if any"""
    memo = {}
    def names(e):
        if not z3.is_expr(e): return {}
        out = {}; st = [e]; seen = set()
        while st:
            x = st.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k)
            if k in SUBST and SUBST[k].eq(x): out[k] = x
            if z3.is_quantifier(x): st.append(x.body())
            else: st.extend(x.children())
        return out
    for o in obls:
        live = [i.get_id() for i in o.live]
        for f in list(o.hyps) + [o.goal]:
            if not z3.is_expr(f): continue
            k = f.get_id()
            if k not in memo: memo[k] = (f, names(f))
            for i, x in memo[k][1].items():
                if o.kind == 'inv' and x.decl().name().startswith('H'): continue    # the arbitrary value an invariant is shown for
                if i not in live: return o, x, f
    return None

BUILTIN_EXC = {'Exception': None, 'StandardError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
  'KeyError': 'Exception', 'IndexError': 'Exception', 'ZeroDivisionError': 'Exception', 'OSError': 'Exception',
  'IOError': 'Exception', 'AttributeError': 'Exception', 'AssertionError': 'Exception', 'StopIteration': 'Exception',
  'NotImplementedError': 'Exception', 'RuntimeError': 'Exception', 'ArithmeticError': 'Exception', 'LookupError': 'Exception',
  'UnboundLocalError': 'Exception', 'NameError': 'Exception'}

BUILTINS = ('len range xrange zip map filter reduce sum abs min max int str list tuple set sorted reversed enumerate '
  'isinstance all any type float long repr dict bool pow cmp print getattr hasattr iter next id frozenset').split()

UNROLL = 10

class Module:
    def __init__(self, path, tree, ex):
        self.path, self.tree = path, tree
        self.names = {}        # name -> ('fn', node) | ('cls', node) | ('mod', name) | ('expr', node)
        self.assigns = {}
        if tree.get('_') == 'ParseError':
            raise Unsupported('%s does not parse: %s' % (path, tree.get('msg')))
        self._scan(tree['body'])
    def _scan(self, body):
        for n in body:
            k = n['_']
            if k == 'FunctionDef': self.names[n['name']] = ('fn', n)
            elif k == 'ClassDef': self.names[n['name']] = ('cls', n)
            elif k == 'Import':
                for a in n['names']:
                    nm = a['asname'] or a['name'].split('.')[0]
                    self.names[nm] = ('mod', a['name'] if a['asname'] else nm)
            elif k == 'ImportFrom':
                for a in n['names']:
                    self.names[a['asname'] or a['name']] = ('from', (n['module'], a['name']))
            elif k == 'Assign':
                for t in n['targets']:
                    if t['_'] == 'Name':
                        self.names[t['id']] = ('expr', n['value'])
                    elif t['_'] == 'Tuple' and n['value']['_'] in ('Tuple',):
                        for a, b in zip(t['elts'], n['value']['elts']):
                            if a['_'] == 'Name': self.names[a['id']] = ('expr', b)
            elif k in ('If', 'TryExcept'):
                self._scan(n['body'])

class Exec:
    def __init__(self, modules, contracts=None, ext=None, opts=None):
        self.mods = {p: Module(p, t, self) for p, t in modules.items()}
        self.contracts = contracts or {}
        self.ext = ext or {}
        self.obls = []
        self.keepobls = []      # loop invariants
        self.formobls = []; self.noforms = False     # closed forms of loops, to be proved by induction
        self.defs = []          # definitional axioms, always available
        self.sums = {}          # decl name -> (decl, params, hi, I, body)
        self.lastfn = None
        self.idx = []
        self.curfn = None
        self.depth = 0
        self.stack = []
        self.modname2path = {}
        for p in self.mods:
            self.modname2path[p.split('/')[-1].rsplit('.', 1)[0]] = p
        self.dropped = set()
        self.used_ext = set()
        self.used_contracts = set()
        self.inlined = set()
        self.functions = set()
        self.fsolver = None
        self.globals_state = {}   # (mod, name) -> handler for stateful globals
        self.opts = opts or {}
        self.fcache = {}
        self.axioms = []
        self.gvals = {}
        self.unroll_all = False
        self.freshlists = set() # lists of new objects, each from one call

    # ------------------------------------------------------------ utilities --
    def fresh(self, name, sort):
        nm = '%s!%d' % (name, uid())
        if not self.idx: return z3.Const(nm, sort)
        f = z3.Function(nm, *[i.sort() for i in self.idx], sort)
        return f(*self.idx)
    def assume(self, st, f):
        f = zbool(S(f)) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f): return
        st.facts.append((tuple(st.conds), f))
    def oblige(self, st, name, goal, line=None, kind='pre'):
        g = S(goal)
        if g is True: 
            self.obls.append(Obl(name, [], z3.BoolVal(True), self.curfn, line, kind)); return
        self.obls.append(Obl(name, self.hyps(st), zbool(g), self.curfn, line, kind, self.idx))
    def hyps(self, st):
        return list(st.conds) + [f for _, f in st.facts]
    def addcond(self, st, c):
        c = S(c)
        if c is True: return True
        if c is False: return False
        st.conds.append(c)
        return True
    def feasible(self, st):
        s = limited(400)
        for f in st.conds:
            if not has_quant(f): s.add(f)
        for _, f in st.facts:
            if not has_quant(f): s.add(f)
        return s.check() != z3.unsat
    def entails(self, st, extra, goal, ms=1000):
        """quick proof attempt with everything known (used to simplify, never to decide)"""
        s = limited(ms)
        for f in list(st.conds) + [f for _, f in st.facts] + list(extra) + self.defs + list(self.axioms): s.add(f)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat
    def resolve(self, st, t):
        """drop the branches of a conditional that what is known excludes"""
        n = 0
        while z3.is_app_of(t, z3.Z3_OP_ITE) and n < 8:
            n += 1
            c = t.arg(0)
            for g, r in ((c, t.arg(1)), (z3.Not(c), t.arg(2))):
                s = limited(300)
                for f in self.hyps(st):
                    if not has_quant(f): s.add(f)
                s.add(z3.Not(g))
                if s.check() == z3.unsat: t = r; break
            else: break
        return t
    def branch(self, st, c):
        """yield (state, True/False) for feasible sides"""
        c = S(c)
        if isinstance(c, bool):
            yield st, c; return
        a = st.fork(); a.conds.append(c)
        b = st; b2 = st.fork(); b2.conds.append(S2(z3.Not(c)))
        fa, fb = self.feasible(a), self.feasible(b2)
        if fa: yield a, True
        if fb: yield b2, False
    def split(self, st, v):
        if isinstance(v, Un):
            for g, x in v.alts:
                g = S(g)
                if g is False: continue
                s2 = st.fork()
                if g is not True: s2.conds.append(g)
                if self.feasible(s2):
                    for r in self.split(s2, x): yield r
        else:
            yield st, v

    # lists
    def alloc(self, st, seq):
        a = 'l%d' % uid()
        st.heap[a] = seq
        return Ref(a)
    def seq(self, st, v):
        if isinstance(v, LV): return v.seq
        if isinstance(v, Ref): return st.heap[v.addr]
        if isinstance(v, Tup): return seq_items(v.items)
        if isinstance(v, TupSeq): return v.seq
        if isinstance(v, SetSeq): return v.seq
        if getattr(v, 'extcls', None) and ('iterseq:' + v.extcls) in self.ext: return self.ext['iterseq:' + v.extcls](self, st, v)
        if isinstance(v, Place): return self.field(st, v.obj, v.field).seq
        raise Unsupported('not a list: %r' % (v,))
    def islist(self, v): return isinstance(v, (LV, Ref, Place))
    def freeze(self, st, v):
        """value for storage inside another value"""
        if isinstance(v, Ref):
            st.frozen.add(v.addr)
            return LV(st.heap[v.addr])
        if isinstance(v, Place):
            return LV(self.seq(st, v))
        if isinstance(v, Tup): return Tup([self.freeze(st, x) for x in v.items])
        return v
    def setlist(self, st, v, seq):
        if isinstance(v, Ref):
            if v.addr in st.frozen: raise Unsupported('mutation of a list that is also stored elsewhere')
            st.heap[v.addr] = seq
        elif isinstance(v, Place):
            self.setfield(st, v.obj, v.field, LV(seq))
        else:
            raise Unsupported('mutation of a shared list (argument or element)')
    # objects
    def field(self, st, obj, name):
        k = ('F', obj.cls, name)
        if k not in st.heap: return None
        return st.heap[k].get(obj.term)
    def setfield(self, st, obj, name, val):
        k = ('F', obj.cls, name)
        val = self.freeze(st, val)
        old = st.heap.get(k)
        t = obj.term
        def get(x):
            c = S(x == t)
            if c is True: return val
            if old is None: return val if c is not False else Undef
            o = old.get(x)
            if o is Undef: return val
            return merge(c, val, o)
        fm = FieldMap(get); fm.store = (t, val, old)
        st.heap[k] = fm

    # definitions
    def define_seq(self, seq, st=None):
        """z3 term for a sequence value"""
        if seq.reif is not None: return seq.reif
        J = subst_const('J', Int)
        if isinstance(seq.n, int) and seq.n == 0:
            return None
        e = seq.get(J) if seq.items is None else None
        if seq.items is not None:
            vals = [self.term(x) for x in seq.items]
            vals = [zreal(v) if v.sort() == Int else v for v in vals]
            es = vals[0].sort()
            ss = seqsort(es)
            ps = free_subst(*vals)
            f = mkfun('lst', [p.sort() for p in ps], ss.sort)
            t = f(*ps) if ps else f()
            body = [ss.len(t) == len(vals)] + [ss.at(t, z3.IntVal(i)) == v for i, v in enumerate(vals)]
            self.defs.append(forall(ps, z3.And(*body), [t]))
            seq.reif = t
            return t
        e = self.term(e)
        if e.sort() == Int: e = zreal(e)
        ss = seqsort(e.sort())
        ps = [p for p in free_subst(e, zi(seq.n)) if not p.eq(J)]
        f = mkfun('lst', [p.sort() for p in ps], ss.sort)
        t = f(*ps) if ps else f()
        n = zi(seq.n)
        self.defs.append(forall(ps, ss.len(t) == n, [t]))
        self.defs.append(forall(ps + [J], z3.Implies(z3.And(J >= 0, J < n), ss.at(t, J) == e), [ss.at(t, J)]))
        seq.reif = t
        self.filt_def(seq, t, ss)
        return t
    def filt_def(self, q, t, ss):
        """where the elements that a filter keeps are in its result"""
        if q.filt is None: return
        c, I, cnt, e, n = q.filt
        try: e = self.term(e)
        except Unsupported: return
        if e.sort() == Int and ss.esort == Real: e = zreal(e)
        if e.sort() != ss.esort: return
        from .prover import walk
        J = subst_const('J', Int)
        cj, ej = z3.substitute(c, (I, J)), z3.substitute(e, (I, J))
        pats = [x for x in walk([cj, ej]) if z3.is_app(x) and x.num_args() == 2 and x.decl().name().startswith('at_L_') and x.arg(1).eq(J) and not free_in(x.arg(0), J)]
        ps = [p for p in free_subst(cj, ej, t, cnt(J), zi(n)) if not p.eq(J)]
        seen = set()
        for x in pats:
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            self.defs.append(forall(ps + [J], z3.Implies(z3.And(J >= 0, J < zi(n), cj), z3.And(ss.at(t, cnt(J)) == ej, cnt(J) >= 0, cnt(J) < ss.len(t))), [x] + ([t] if any(free_in(t, p) for p in ps) else [])))
    def parts_def(self, q, t, ss):
        """where the elements of the parts are in a concatenation"""
        if not q.parts: return
        off = z3.IntVal(0); J = subst_const('J', Int)
        for p in q.parts:
            if p.reif is not None and p.reif.sort() == ss.sort:
                x = ss.at(p.reif, J)
                ps = [v for v in free_subst(p.reif, t, off) if not v.eq(J)]
                self.defs.append(forall(ps + [J], z3.Implies(z3.And(J >= 0, J < zi(p.n)), ss.at(t, z3.simplify(off + J)) == x), [x] + ([t] if any(free_in(t, v) for v in ps) else [])))
            off = z3.simplify(off + zi(p.n))
    def term(self, v):
        """value -> z3 term"""
        if is_z3(v): return v
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, (int, Fraction)): return znum(v)
        if isinstance(v, LV): 
            t = self.define_seq(v.seq)
            if t is None: return self.nil(PL)
            return t
        if isinstance(v, ObjT): return v.term
        if isinstance(v, TupSeq): return self.define_seq(v.seq)
        raise Unsupported('no term for %r' % (v,))
    def nil(self, ss):
        t = z3.Const('nil_' + ss.sort.name(), ss.sort)
        if not getattr(self, '_nils', None): self._nils = {}
        if ss.sort.name() not in self._nils:
            self._nils[ss.sort.name()] = t
            self.defs.append(ss.len(t) == 0)
        return t
    def listterm(self, st, v, ss):
        """z3 term of list sort ss for a list value"""
        q = self.seq(st, v)
        if q.reif is not None:
            if q.reif.sort() != ss.sort: raise Unsupported('list of unexpected kind')
            return q.reif
        if isinstance(q.n, int) and q.n == 0: return self.nil(ss)
        J = subst_const('J', Int)
        def elem(i):
            e = q.get(i)
            if self.islist(e) or isinstance(e, Tup):
                s2 = seq_of_sort(ss.esort)
                if s2 is None: raise Unsupported('nested list where a flat one is expected')
                return self.listterm(st, e, s2)
            e = self.term(e)
            if ss.esort == Real and e.sort() == Int: e = zreal(e)
            if e.sort() != ss.esort: raise Unsupported('list element of unexpected kind')
            return e
        if q.items is not None:
            vals = [elem(i) for i in range(len(q.items))]
            ps = free_subst(*vals)
            f = mkfun('lst', [p.sort() for p in ps], ss.sort)
            t = f(*ps) if ps else f()
            self.defs.append(forall(ps, z3.And(*([ss.len(t) == len(vals)] + [ss.at(t, z3.IntVal(i)) == v for i, v in enumerate(vals)])), [t]))
            q.reif = t
            return t
        e = elem(J)
        ps = [p for p in free_subst(e, zi(q.n)) if not p.eq(J)]
        f = mkfun('lst', [p.sort() for p in ps], ss.sort)
        t = f(*ps) if ps else f()
        n = zi(q.n)
        self.defs.append(forall(ps, ss.len(t) == n, [t]))
        self.defs.append(forall(ps + [J], z3.Implies(z3.And(J >= 0, J < n), ss.at(t, J) == e), [ss.at(t, J)]))
        q.reif = t
        self.filt_def(q, t, ss)
        self.parts_def(q, t, ss)
        return t
    def mksum(self, body, I, hi):
        """sum over 0 <= I < hi of body"""
        body = znum(body)
        sb = z3.simplify(body)
        if z3.is_int_value(sb) or z3.is_rational_value(sb):
            # constant increments
            if z3.is_int_value(sb): return S(sb * zi(hi))
            return S(sb * zreal(zi(hi)))
        if not free_in(sb, I) and sb.sort() == Int and z3.is_const(sb):
            return S(sb * zi(hi))
        ps = [p for p in free_subst(body) if not p.eq(I)]
        nm = 'SUM!%d' % uid()
        decl = z3.Function(nm, *[p.sort() for p in ps], Int, body.sort())
        H = z3.Const('H!%d' % uid(), Int)
        self.sums[nm] = (decl, ps, I, body)
        return decl(*(ps + [zi(hi)]))

    # -------------------------------------------------------------- frames --
    def newframe(self, st, parent=None, mod=None, fn=None):
        fid = 'f%d' % uid()
        st.frames[fid] = {'__parent__': parent, '__mod__': mod, '__fn__': fn}
        return fid
    def lookup(self, st, fid, name):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if name in fr: return fr[name]
            f = fr['__parent__']
        return self.global_lookup(st, st.frames[fid]['__mod__'], name)
    def global_lookup(self, st, mod, name):
        if mod is not None:
            if (mod, name) in self.globals_state:
                return self.globals_state[(mod, name)](self, st)
            m = self.mods[mod]
            if (mod, name) in self.gvals: return self.gvals[(mod, name)]
            if name in m.names:
                k, n = m.names[name]
                if k == 'fn': return FnV(n, None, '%s:%s' % (mod, name), mod)
                if k == 'cls': return ClsV(name, mod, n)
                if k == 'mod':
                    return ModV(n)
                if k == 'from':
                    return self.modattr(st, ModV(n[0]), n[1])
                if k == 'expr':
                    v = self.global_expr(st, mod, name, n)
                    return self.shared(st, mod, name, v)
        if name in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[name]
        if name in self.opts.get('globals', {}): return self.opts['globals'][name]
        if name in BUILTIN_EXC: return ClsV(name)
        if name in BUILTINS: return BI(name)
        raise Unsupported('unknown name %s' % name)
    def shared(self, st, mod, name, v):
        """a mutable module level value: only as a constant table that nothing in the module changes"""
        if not isinstance(v, (Ref, DRef, SetV)): return v
        if not self.only_read(mod, name): raise Unsupported('module level value %s can change' % name)
        if isinstance(v, Ref): return self.freeze(st, v)
        if isinstance(v, DRef): st.frozen.add(v.addr)
        return v
    def only_read(self, mod, name):
        bad = []
        defs = [0]
        def go(n, ok):
            if isinstance(n, list):
                for x in n: go(x, False)
                return
            if not isinstance(n, dict): return
            k = n.get('_')
            if k == 'Name' and n['id'] == name:
                if (n.get('ctx') or {}).get('_') in ('Store', 'Del'): defs[0] += 1
                elif not ok: bad.append(n)
                return
            if k in ('Global',) and name in n['names']: bad.append(n)
            for f, x in n.items():
                good = (k == 'Subscript' and f == 'value' and (n.get('ctx') or {}).get('_') == 'Load') or (k in ('For', 'comprehension') and f == 'iter')
                if k == 'Compare' and f == 'comparators' and all(o in ('In', 'NotIn') or (isinstance(o, dict) and o.get('_') in ('In', 'NotIn')) for o in n['ops']):
                    for y in x: go(y, True)
                    continue
                if k == 'Call' and f == 'args' and n['func'].get('id') in ('len', 'sorted', 'list', 'zip', 'enumerate', 'sum', 'max', 'min', 'tuple', 'set', 'map', 'filter', 'reduce'):
                    for y in x: go(y, True)
                    continue
                go(x, good)
        go(self.mods[mod].tree, False)
        return not bad and defs[0] == 1
    def preload(self, st):
        """module-level instances of the repository's own classes exist before any call"""
        for p, m in self.mods.items():
            for name, (k, n) in list(m.names.items()):
                if k == 'expr' and n['_'] == 'Call' and n['func']['_'] == 'Name' and m.names.get(n['func']['id'], ('', 0))[0] == 'cls':
                    try: self.gvals[(p, name)] = self.global_expr(st, p, name, n)
                    except Unsupported: pass
    def global_expr(self, st, mod, name, node):
        fid = self.newframe(st, None, mod, None)
        res = list(self.ev(node, st, fid))
        if len(res) != 1 or isinstance(res[0][1], RaiseV): raise Unsupported('module level value %s' % name)
        s2, v = res[0]
        if s2 is not st:
            st.heap.update(s2.heap); st.facts = s2.facts
        return v
    def modattr(self, st, m, attr):
        q = m.name + '.' + attr
        if q in self.ext: return BI('ext:' + q)
        if m.name in self.modname2path:
            return self.global_lookup(st, self.modname2path[m.name], attr)
        if q in self.opts.get('consts', {}): return self.opts['consts'][q]
        return ModV(q)

    # ---------------------------------------------------------- statements --
    def block(self, stmts, st, fid):
        """-> list of (kind, state, value)"""
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c, fid):
                    if o[0] == 'next': nxt.append(o[1])
                    else: outs.append(o)
            cur = nxt
            if not cur: break
            if len(cur) > 400: raise Unsupported('too many paths')
        outs += [('next', c, None) for c in cur]
        return outs
    def stmt(self, s, st, fid):
        m = getattr(self, 's_' + s['_'], None)
        if m is None: raise Unsupported('statement %s (line %s)' % (s['_'], s.get('l')))
        try:
            return m(s, st, fid)
        except Unsupported as e:
            if not getattr(e, 'line', None): e.line = s.get('l')
            raise
    def s_Pass(self, s, st, fid): return [('next', st, None)]
    def s_Global(self, s, st, fid):
        st.frames[fid].setdefault('__globals__', set())
        st.frames[fid]['__globals__'] = st.frames[fid]['__globals__'] | set(s['names'])
        return [('next', st, None)]
    def s_Import(self, s, st, fid):
        for a in s['names']:
            st.frames[fid][a['asname'] or a['name'].split('.')[0]] = ModV(a['name'] if a['asname'] else a['name'].split('.')[0])
        return [('next', st, None)]
    def s_ImportFrom(self, s, st, fid):
        for a in s['names']:
            st.frames[fid][a['asname'] or a['name']] = self.modattr(st, ModV(s['module']), a['name'])
        return [('next', st, None)]
    def s_Print(self, s, st, fid):
        self.dropped.add('print statements')
        return [('next', st, None)]
    def s_Expr(self, s, st, fid):
        if s['value']['_'] == 'Str': return [('next', st, None)]
        if self.is_output_call(s['value']):
            self.dropped.add('sys.stdout writes')
            return [('next', st, None)]
        return [('raise', a, v.exc) if isinstance(v, RaiseV) else ('next', a, None) for a, v in self.ev(s['value'], st, fid)]
    def is_output_call(self, e):
        return e['_'] == 'Call' and e['func']['_'] == 'Attribute' and e['func']['attr'] in ('write', 'flush') and \
            e['func']['value']['_'] == 'Attribute' and e['func']['value']['attr'] in ('stdout', 'stderr')
    def s_Return(self, s, st, fid):
        if s['value'] is None: return [('return', st, None)]
        return [('raise', a, v.exc) if isinstance(v, RaiseV) else ('return', a, v) for a, v in self.ev(s['value'], st, fid)]
    def s_Break(self, s, st, fid): return [('break', st, None)]
    def s_Continue(self, s, st, fid): return [('continue', st, None)]
    def s_FunctionDef(self, s, st, fid):
        mod = st.frames[fid]['__mod__']
        st.frames[fid][s['name']] = self.withdefaults(FnV(s, fid, '%s:<local>.%s' % (mod, s['name']), mod), st, fid)
        return [('next', st, None)]
    def s_Raise(self, s, st, fid):
        if s['type'] is None: return [('raise', st, ExcV('Exception'))]
        e = s['type']
        out = []
        # the arguments of an exception do not matter; only its class does
        if e['_'] == 'Call' and e['func']['_'] in ('Name', 'Attribute'):
            for a, f in self.ev(e['func'], st, fid):
                if isinstance(f, ClsV): out.append(('raise', a, ExcV(f.name)))
                else: raise Unsupported('raise')
            return out
        if e['_'] == 'Str': return [('raise', st, ExcV('TypeError'))]
        for a, v in self.ev(e, st, fid):
            if isinstance(v, RaiseV): out.append(('raise', a, v.exc))
            elif isinstance(v, ClsV): out.append(('raise', a, ExcV(v.name)))
            elif isinstance(v, ExcV): out.append(('raise', a, v))
            elif isinstance(v, str): out.append(('raise', a, ExcV('TypeError')))
            else: raise Unsupported('raise of %r' % (v,))
        return out
    def s_Assert(self, s, st, fid):
        out = []
        for a, v in self.ev(s['test'], st, fid):
            if isinstance(v, RaiseV): out.append(('raise', a, v.exc)); continue
            for b, t in self.branch_val(a, v):
                out.append(('next', b, None) if t else ('raise', b, ExcV('AssertionError')))
        return out
    def s_Assign(self, s, st, fid):
        out = []
        for a, v in self.ev(s['value'], st, fid):
            if isinstance(v, RaiseV): out.append(('raise', a, v.exc)); continue
            sts = [a]
            for t in s['targets']:
                nx = []
                for b in sts:
                    for k, c, x in self.assign(t, v, b, fid):
                        if k == 'next': nx.append(c)
                        else: out.append((k, c, x))
                sts = nx
            out += [('next', b, None) for b in sts]
        return out
    def assign(self, t, v, st, fid):
        k = t['_']
        if k == 'Name':
            g = st.frames[fid].get('__globals__', ())
            if t['id'] in g:
                mod = st.frames[fid]['__mod__']
                key = (mod, t['id'])
                if key in self.opts.get('ignored_globals', ()):
                    return [('next', st, None)]
                raise Unsupported('assignment to global %s' % t['id'])
            st.frames[fid][t['id']] = v
            return [('next', st, None)]
        if k in ('Tuple', 'List'):
            out = []
            for a, x in self.split(st, v):
                if isinstance(x, Tup): items = x.items
                else:
                    q = self.seq(a, x)
                    if not isinstance(q.n, int):
                        # unpacking a list of symbolic length: it must have the right length
                        ok = S(zi(q.n) == len(t['elts']))
                        if ok is not True: raise Unsupported('unpacking a list of unknown length')
                    items = [q.get(i) for i in range(len(t['elts']))]
                if len(items) != len(t['elts']):
                    out.append(('raise', a, ExcV('ValueError'))); continue
                sts = [a]
                for e, y in zip(t['elts'], items):
                    nx = []
                    for b in sts:
                        for kk, c, z in self.assign(e, y, b, fid):
                            (nx.append(c) if kk == 'next' else out.append((kk, c, z)))
                    sts = nx
                out += [('next', b, None) for b in sts]
            return out
        if k == 'Attribute':
            out = []
            for a, o in self.ev(t['value'], st, fid):
                if isinstance(o, RaiseV): out.append(('raise', a, o.exc)); continue
                if isinstance(o, ObjT):
                    self.setfield(a, o, t['attr'], v)
                    out.append(('next', a, None))
                else: raise Unsupported('attribute assignment on %r' % (o,))
            return out
        if k == 'Subscript':
            out = []
            for a, o in self.ev(t['value'], st, fid):
                if isinstance(o, RaiseV): out.append(('raise', a, o.exc)); continue
                if t['slice']['_'] != 'Index': raise Unsupported('slice assignment')
                for b, i in self.ev(t['slice']['value'], a, fid):
                    if isinstance(i, RaiseV): out.append(('raise', b, i.exc)); continue
                    for c, oo in self.split(b, o):
                        out += self.setitem(c, oo, i, v)
            return out
        raise Unsupported('assignment target %s' % k)
    def setitem(self, st, o, i, v):
        if isinstance(o, ObjT):
            h = self.ext.get('setitem:' + o.cls)
            if h: return h(self, st, o, i, v)
        if isinstance(o, DRef):
            self.dict_set(st, o, i, v)
            return [('next', st, None)]
        q = self.seq(st, o)
        out = []
        for b, j in self.index(st, q, i):
            if isinstance(j, RaiseV): out.append(('raise', b, j.exc)); continue
            vv = self.freeze(b, v)
            old = q
            nq = seq_set(old, j, vv)
            # remember additive updates for loop summaries
            if is_num(vv) and nq.items is None:
                base = old.adds[0] if old.adds else (old.stores[0] if old.stores else old)
                if base.havoc is not None:
                    cur = old.get(j)
                    d = S(znum2(vv, cur)[0] - znum2(vv, cur)[1])
                    nm = {base.havoc}
                    if old.stores is None and not val_mentions(d, nm) :
                        nq.adds = (base, (old.adds[1] if old.adds else []) + [(j, d)])
                    elif old.adds is None and not val_mentions(vv, nm):
                        nq.stores = (base, (old.stores[1] if old.stores else []) + [(j, vv)])
            elif nq.items is None:
                base = old.stores[0] if old.stores else old
                if base.havoc is not None and not val_mentions(vv, {base.havoc}):
                    nq.stores = (base, (old.stores[1] if old.stores else []) + [(j, vv)])
            self.setlist(b, o, nq)
            out.append(('next', b, None))
        return out
    def s_AugAssign(self, s, st, fid):
        t = s['target']
        load = dict(t); 
        out = []
        if t['_'] == 'Name':
            for a, cur in self.ev({'_': 'Name', 'id': t['id'], 'l': s.get('l')}, st, fid):
                if isinstance(cur, RaiseV): out.append(('raise', a, cur.exc)); continue
                for b, v in self.ev(s['value'], a, fid):
                    if isinstance(v, RaiseV): out.append(('raise', b, v.exc)); continue
                    out += self.aug(b, fid, t, cur, s['op']['_'], v)
            return out
        if t['_'] == 'Subscript' and t['slice']['_'] == 'Index':
            for a, o in self.ev(t['value'], st, fid):
                if isinstance(o, RaiseV): out.append(('raise', a, o.exc)); continue
                for b, i in self.ev(t['slice']['value'], a, fid):
                    if isinstance(i, RaiseV): out.append(('raise', b, i.exc)); continue
                    for c, cur in self.getitem(b, o, i):
                        if isinstance(cur, RaiseV): out.append(('raise', c, cur.exc)); continue
                        for d, v in self.ev(s['value'], c, fid):
                            if isinstance(v, RaiseV): out.append(('raise', d, v.exc)); continue
                            if self.islist(cur) and s['op']['_'] == 'Add':
                                cs = self.seq(d, cur); vs = self.seq(d, v)
                                out += self.setitem(d, o, i, LV(self.extend_seq(cs, vs)))
                                continue
                            for e, r in self.binop(d, s['op']['_'], cur, v):
                                if isinstance(r, RaiseV): out.append(('raise', e, r.exc)); continue
                                out += self.setitem(e, o, i, r)
            return out
        if t['_'] == 'Attribute':
            for a, o in self.ev(t['value'], st, fid):
                if isinstance(o, RaiseV): out.append(('raise', a, o.exc)); continue
                for b, cur in self.getattr(a, o, t['attr']):
                    for c, v in self.ev(s['value'], b, fid):
                        if isinstance(v, RaiseV): out.append(('raise', c, v.exc)); continue
                        if isinstance(cur, Place):
                            self.setlist(c, cur, self.extend_seq(self.seq(c, cur), self.seq(c, v)))
                            out.append(('next', c, None)); continue
                        for d, r in self.binop(c, s['op']['_'], cur, v):
                            if isinstance(r, RaiseV): out.append(('raise', d, r.exc)); continue
                            self.setfield(d, o, t['attr'], r)
                            out.append(('next', d, None))
            return out
        raise Unsupported('augmented assignment')
    def extend_seq(self, a, b):
        if b.items is not None: return seq_append(a, b.items)
        return seq_concat(a, b)
    def aug(self, st, fid, t, cur, op, v):
        if isinstance(cur, Ref) and op == 'Add':
            q = self.extend_seq(st.heap[cur.addr], self.seq(st, self.freeze(st, v)))
            self.setlist(st, cur, q)
            return [('next', st, None)]
        if isinstance(cur, (LV, Place)) and op == 'Add':
            if isinstance(cur, Place):
                self.setlist(st, cur, self.extend_seq(self.seq(st, cur), self.seq(st, self.freeze(st, v))))
                return [('next', st, None)]
            raise Unsupported('in-place extension of a shared list')
        out = []
        for a, r in self.binop(st, op, cur, v):
            if isinstance(r, RaiseV): out.append(('raise', a, r.exc)); continue
            out += self.assign(t, r, a, fid)
        return out
    def branch_val(self, st, v):
        for a, x in self.split(st, v):
            c = self.truth(a, x)
            for b, t in self.branch(a, c): yield b, t
    def truth(self, st, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, str): return v != ''
        if is_z3(v):
            if v.sort() == Bool: return v
            if v.sort() in (Int, Real): return S(v != 0)
            h = self.ext.get('truth:' + v.sort().name())
            if h: return h(self, st, v)
            raise Unsupported('truth of a %s' % v.sort())
        if self.islist(v) or isinstance(v, (Tup, TupSeq, SetSeq)):
            n = self.seq(st, v).n
            return n != 0 if isinstance(n, int) else S(n != 0)
        if isinstance(v, DRef):
            d = st.heap[v.addr]
            if d.conc is not None: return len(d.conc) > 0
        if isinstance(v, ObjT) and 'truth:' + v.cls in self.ext: return self.ext['truth:' + v.cls](self, st, v)
        if isinstance(v, (FnV, ClsV, ModV)): return True
        raise Unsupported('truth of %r' % (v,))
    def s_If(self, s, st, fid):
        out = []
        for a, v in self.ev(s['test'], st, fid):
            if isinstance(v, RaiseV): out.append(('raise', a, v.exc)); continue
            for b, t in self.branch_val(a, v):
                out += self.block(s['body'] if t else (s['orelse'] or []), b, fid)
        return out
    def s_TryExcept(self, s, st, fid):
        out = []
        for k, a, v in self.block(s['body'], st, fid):
            if k != 'raise':
                if k == 'next' and s.get('orelse'):
                    out += self.block(s['orelse'], a, fid)
                else: out.append((k, a, v))
                continue
            handled = False
            for h in s['handlers']:
                if h['type'] is None: match = True
                else:
                    match = False
                    tys = h['type']['elts'] if h['type']['_'] == 'Tuple' else [h['type']]
                    for ty in tys:
                        for _, c in self.ev(ty, a, fid):
                            if isinstance(c, ClsV) and self.subclass(v.cls, c.name): match = True
                if match:
                    if h['name'] is not None and h['name']['_'] == 'Name':
                        a.frames[fid][h['name']['id']] = v
                    out += self.block(h['body'], a, fid)
                    handled = True
                    break
            if not handled: out.append((k, a, v))
        return out
    def subclass(self, c, d):
        seen = 0
        while c is not None and seen < 10:
            if c == d: return True
            if c in BUILTIN_EXC: c = BUILTIN_EXC[c]; continue
            p = None
            for m in self.mods.values():
                if c in m.names and m.names[c][0] == 'cls':
                    bs = m.names[c][1]['bases']
                    if bs and bs[0]['_'] == 'Name': p = bs[0]['id']
            c = p; seen += 1
        return False
    def s_With(self, s, st, fid):
        out = []
        items = s.get('items') or [{'context_expr': s['context_expr'], 'optional_vars': s['optional_vars']}]
        assert len(items) == 1
        it = items[0]
        for a, v in self.ev(it['context_expr'], st, fid):
            if isinstance(v, RaiseV): out.append(('raise', a, v.exc)); continue
            if it['optional_vars'] is not None:
                for k, b, x in self.assign(it['optional_vars'], v, a, fid):
                    out += self.block(s['body'], b, fid) if k == 'next' else [(k, b, x)]
            else: out += self.block(s['body'], a, fid)
        return out
    def s_For(self, s, st, fid):
        out = []
        for a, v in self.ev(s['iter'], st, fid):
            if isinstance(v, RaiseV): out.append(('raise', a, v.exc)); continue
            for b, w in self.split(a, v):
                for c, q in self.iterseqs(b, w):
                    def step(s1, e):
                        res = []
                        for k, s2, x in self.assign(s['target'], e, s1, fid):
                            if k == 'next': res += self.block(s['body'], s2, fid)
                            else: res.append((k, s2, x))
                        return res
                    for k, d, x in self.run_loop(c, q, step):
                        if k == 'done':
                            if s.get('orelse'): out += self.block(s['orelse'], d, fid)
                            else: out.append(('next', d, None))
                        elif k == 'broke': out.append(('next', d, None))
                        else: out.append((k, d, x))
        return out
    def s_While(self, s, st, fid):
        def step(s1, e):
            res = []
            for a, v in self.ev(s['test'], s1, fid):
                if isinstance(v, RaiseV): res.append(('raise', a, v.exc)); continue
                for b, t in self.branch_val(a, v):
                    if t: res += self.block(s['body'], b, fid)
                    else: res.append(('exhausted', b, None))
            return res
        out = []
        for k, d, x in self.run_loop(st, Seq(z3.Int('INF!never'), lambda i: i), step, infinite=True):
            if k == 'exhausted':
                if s.get('orelse'): out += self.block(s['orelse'], d, fid)
                else: out.append(('next', d, None))
            elif k == 'broke': out.append(('next', d, None))
            else: out.append((k, d, x))
        return out
    def iterseqs(self, st, v):
        """iteration order of an iterable: (state, Seq) alternatives"""
        if isinstance(v, DRef):
            d = st.heap[v.addr]
            if d.conc is not None:
                # the order of a dict is not specified: every order is considered when small
                keys = [k for k, _ in d.conc]
                import itertools
                if len(keys) <= 1 or not self.opts.get('dict_orders', True):
                    yield st, seq_items(keys); return
                perms = list(itertools.permutations(keys)) if len(keys) <= 4 else \
                    [tuple(keys), tuple(reversed(keys))]      # any two keys come in both orders
                if len(keys) > 4: self.dropped.add('iteration over a dict display with more than four keys: two opposite orders only')
                o = self.fresh('order', Int)
                for j, p in enumerate(perms):
                    s2 = st.fork()
                    s2.conds.append(o == j if j < len(perms) - 1 else z3.Or(o < 0, o >= len(perms) - 1))
                    yield s2, seq_items(list(p))
                return
            if d.sym and d.keys is not None:
                yield st, d.keys; return
            raise Unsupported('iteration over a symbolic dict')
        if isinstance(v, SetV):
            if all(isinstance(x, bool) for x in v.mem.values()):
                yield st, seq_items([k for k, x in v.mem.items() if x]); return
            raise Unsupported('iteration over a symbolic set')
        if getattr(v, 'extcls', None) and ('iterseq:' + v.extcls) in self.ext:
            yield st, self.ext['iterseq:' + v.extcls](self, st, v); return
        if isinstance(v, ObjT) and ('iter:' + v.cls) in self.ext:
            for r in self.ext['iter:' + v.cls](self, st, v): yield r
            return
        yield st, self.seq(st, v)

    # --------------------------------------------------------------- loops --
    def locs(self, st):
        for fid, fr in st.frames.items():
            for n, v in fr.items():
                if not n.startswith('__'): yield ('v', fid, n), v
        for a, c in st.heap.items(): yield ('h', a), c
        yield ('now',), st.now
    def getloc(self, st, loc):
        if loc[0] == 'v': return st.frames[loc[1]].get(loc[2], Undef)
        if loc[0] == 'h': return st.heap.get(loc[1], Undef)
        return st.now
    def setloc(self, st, loc, v):
        if loc[0] == 'v':
            if v is Undef: st.frames[loc[1]].pop(loc[2], None)
            else: st.frames[loc[1]][loc[2]] = v
        elif loc[0] == 'h':
            if v is Undef: st.heap.pop(loc[1], None)
            else: st.heap[loc[1]] = v
        else: st.now = v
    def locsame(self, a, b):
        if isinstance(a, Seq) or isinstance(b, Seq):
            return a is b
        return same(a, b)

    def run_loop(self, st, q, step, infinite=False):
        n = q.n
        if q.parts and not infinite:
            # a loop over a + b is a loop over a followed by a loop over b
            cur = [st]; out = []
            for p in q.parts:
                nx = []
                for c in cur:
                    for k, d, x in self.run_loop(c, p, step):
                        (nx.append(d) if k == 'done' else out.append((k, d, x)))
                cur = nx
            return out + [('done', c, None) for c in cur]
        if isinstance(n, int) and (n <= UNROLL or self.unroll_all) and not infinite:
            cur = [st]; out = []
            for j in range(n):
                nx = []
                for c in cur:
                    for k, d, x in step(c, q.get(j)):
                        if k in ('next', 'continue'): nx.append(d)
                        elif k == 'break': out.append(('broke', d, None))
                        else: out.append((k, d, x))
                cur = nx
            return out + [('done', c, None) for c in cur]
        return self.summarise(st, q, step, infinite)

    def summarise(self, st, q, step, infinite):
        from . import loops
        return loops.summarise(self, st, q, step, infinite)

    # --------------------------------------------------------- expressions --
    def ev(self, e, st, fid):
        m = getattr(self, 'e_' + e['_'], None)
        if m is None: raise Unsupported('expression %s (line %s)' % (e['_'], e.get('l')))
        return m(e, st, fid)
    def evs(self, es, st, fid):
        if not es:
            yield st, []; return
        for a, v in self.ev(es[0], st, fid):
            if isinstance(v, RaiseV): yield a, v; continue
            for b, vs in self.evs(es[1:], a, fid):
                if isinstance(vs, RaiseV): yield b, vs
                else: yield b, [v] + vs
    def e_Num(self, e, st, fid):
        n = e['n']
        if isinstance(n, dict):
            yield st, Fraction(n['v']) if n['_'] == 'float' else Opq('complex'); return
        yield st, n
    def e_Str(self, e, st, fid): yield st, e['s']
    def e_Repr(self, e, st, fid): yield st, Opq('repr')
    def e_Name(self, e, st, fid):
        v = self.lookup(st, fid, e['id'])
        if v is Undef: raise Unsupported('variable %s may be undefined' % e['id'])
        if isinstance(v, HavocAny): raise HavocRead(v.loc)
        yield st, v
    def e_Tuple(self, e, st, fid):
        for a, vs in self.evs(e['elts'], st, fid):
            if isinstance(vs, RaiseV): yield a, vs
            else: yield a, Tup([self.keep(a, v) for v in vs])
    def keep(self, st, v): return v
    def e_List(self, e, st, fid):
        for a, vs in self.evs(e['elts'], st, fid):
            if isinstance(vs, RaiseV): yield a, vs
            else: yield a, self.alloc(a, seq_items([self.freeze(a, v) for v in vs]))
    def e_Set(self, e, st, fid):
        for a, vs in self.evs(e['elts'], st, fid):
            if isinstance(vs, RaiseV): yield a, vs
            else:
                vs = [concrete(v) if is_z3(v) else v for v in vs]
                if not all(isinstance(v, (int, str)) or (isinstance(v, Tup)) for v in vs): raise Unsupported('set display')
                yield a, SetV({(v if not isinstance(v, Tup) else tuple(v.items)): True for v in vs})
    def e_Dict(self, e, st, fid):
        for a, ks in self.evs(e['keys'], st, fid):
            if isinstance(ks, RaiseV): yield a, ks; continue
            for b, vs in self.evs(e['values'], a, fid):
                if isinstance(vs, RaiseV): yield b, vs; continue
                ad = 'd%d' % uid()
                b.heap[ad] = DictC(conc=[])
                r = DRef(ad)
                for k, v in zip(ks, vs): self.dict_set(b, r, k, v)
                yield b, r
    def e_Lambda(self, e, st, fid):
        yield st, self.withdefaults(FnV(e, fid, '<lambda>', st.frames[fid]['__mod__']), st, fid)
    def withdefaults(self, f, st, fid):
        """defaults are evaluated where the function is defined"""
        f.dvals = None
        ds = f.node['args'].get('defaults') or []
        if ds:
            f.dvals = []
            for d in ds:
                r = list(self.ev(d, st, fid))
                if len(r) != 1 or r[0][0] is not st or isinstance(r[0][1], RaiseV): raise Unsupported('default value')
                v = r[0][1]
                if isinstance(v, (Ref, DRef)): st.frozen.add(v.addr)
                f.dvals.append(v)
        return f
    def e_IfExp(self, e, st, fid):
        for a, c in self.ev(e['test'], st, fid):
            if isinstance(c, RaiseV): yield a, c; continue
            for b, t in self.branch_val(a, c):
                for r in self.ev(e['body'] if t else e['orelse'], b, fid): yield r
    def e_BoolOp(self, e, st, fid):
        isand = e['op']['_'] == 'And'
        def go(s, vals):
            for a, v in self.ev(vals[0], s, fid):
                if isinstance(v, RaiseV) or len(vals) == 1: yield a, v; continue
                for b, t in self.branch_val(a, v):
                    if t == isand:
                        for r in go(b, vals[1:]): yield r
                    else: yield b, (v if not is_bool(v) else t)
        res = list(go(st.fork(), e['values']))
        # merge back when every operand was a plain condition without effects
        if len(res) > 1 and all(is_bool(v) for _, v in res) and all(a.heap == st.heap and a.now is st.now and
                all(a.frames.get(f) == st.frames[f] for f in st.frames) for a, v in res):
            try:
                m = None
                for a, v in reversed(res):
                    g = z3.And(*a.conds[len(st.conds):]) if len(a.conds) > len(st.conds) else z3.BoolVal(True)
                    m = zbool(v) if m is None else z3.If(g, zbool(v), m)
                out = st
                for a, _ in res:
                    for f in a.facts:
                        if not any(f is h for h in out.facts):
                            out.facts.append((f[0], S2(z3.Implies(z3.And(*a.conds[len(st.conds):]), f[1])) if len(a.conds) > len(st.conds) else f[1]))
                yield out, S(m); return
            except z3.Z3Exception:
                pass
        for r in res: yield r
    def e_UnaryOp(self, e, st, fid):
        op = e['op']['_']
        for a, v in self.ev(e['operand'], st, fid):
            if isinstance(v, RaiseV): yield a, v; continue
            for b, x in self.split(a, v):
                if op == 'Not':
                    c = self.truth(b, x)
                    yield b, (not c) if isinstance(c, bool) else S(z3.Not(c))
                elif op == 'USub':
                    if isinstance(x, (int, Fraction)): yield b, -x
                    elif is_num(x): yield b, S(-x)
                    else:
                        for r in self.extop(b, 'neg', [x]): yield r
                elif op == 'UAdd': yield b, x
                else: raise Unsupported('unary ' + op)
    def e_BinOp(self, e, st, fid):
        for a, l in self.ev(e['left'], st, fid):
            if isinstance(l, RaiseV): yield a, l; continue
            for b, r in self.ev(e['right'], a, fid):
                if isinstance(r, RaiseV): yield b, r; continue
                for c in self.binop(b, e['op']['_'], l, r): yield c
    def extop(self, st, op, vals):
        key = op + ':' + ','.join(self.kind(v) for v in vals)
        for k in (key, op + ':*'):
            h = self.ext.get(k)
            if h is not None:
                r = h(self, st, *vals)
                if r is not NotImplemented:
                    self.used_ext.add(k)
                    if isinstance(r, list):
                        for x in r: yield x
                    else: yield st, r
                    return
        raise Unsupported('operator %s' % key)
    def kind(self, v):
        if is_z3(v): return v.sort().name()
        if isinstance(v, ObjT): return v.cls
        if isinstance(v, bool): return 'Bool'
        if isinstance(v, (int, Fraction)): return 'Int'
        if isinstance(v, str): return 'str'
        return type(v).__name__
    def binop(self, st, op, l, r):
        for a, x in self.split(st, l):
            for b, y in self.split(a, r):
                for res in self.binop1(b, op, x, y): yield res
    def binop1(self, st, op, x, y):
        if isinstance(x, bool): x = int(x)
        if isinstance(y, bool): y = int(y)
        if op == 'Mod' and (isinstance(x, str) or isinstance(x, Opq)):
            if isinstance(x, str) and (isinstance(y, (int, str))):
                try:
                    yield st, x % y; return
                except Exception: pass
            if isinstance(x, str) and isinstance(y, Tup) and all(type(i) in (int, str) for i in y.items):
                try:
                    yield st, x % tuple(y.items); return
                except Exception: pass
            yield st, Opq('formatted'); return
        if isinstance(x, Opq) or isinstance(y, Opq):
            yield st, Opq('opaque'); return
        if isinstance(x, str) and isinstance(y, str) and op == 'Add':
            yield st, x + y; return
        if isinstance(x, Tup) and isinstance(y, Tup) and op == 'Add':
            yield st, Tup(x.items + y.items); return
        if (self.islist(x)) and op == 'Add' and self.islist(y):
            qa, qb = self.seq(st, self.freeze(st, x)), self.seq(st, self.freeze(st, y))
            q = seq_concat(qa, qb)
            if q is not qa and q is not qb and q.items is None and qa.havoc is None and qb.havoc is None:
                q.parts = (qa.parts or [qa]) + (qb.parts or [qb])
            yield st, self.alloc(st, q); return
        if op == 'Mult' and (self.islist(x) or self.islist(y)):
            if not self.islist(x): x, y = y, x
            q = self.seq(st, self.freeze(st, x))
            if isinstance(y, int) and q.items is not None:
                yield st, self.alloc(st, seq_items(q.items * y)); return
            if isinstance(q.n, int) and q.n == 1 and is_num(y):
                yield st, self.alloc(st, Seq(zmax(y, 0), lambda i: q.get(0))); return
            if isinstance(q.n, int) and q.n == 0:
                yield st, self.alloc(st, seq_items([])); return
            raise Unsupported('list repetition')
        if op in ('BitAnd', 'BitOr', 'Sub') and isinstance(x, SetV) and isinstance(y, SetV):
            ks = list(x.mem) + [k for k in y.mem if k not in x.mem]
            cb = {'BitAnd': z3.And, 'BitOr': z3.Or, 'Sub': lambda a, b: z3.And(a, z3.Not(b))}[op]
            m = {k: S(cb(zbool(x.mem.get(k, False)), zbool(y.mem.get(k, False)))) for k in ks}
            yield st, SetV({k: v for k, v in m.items() if v is not False}); return
        if op in ('BitAnd', 'BitOr') and is_bool(x) and is_bool(y):
            pass
        if is_num(x) and is_num(y):
            for r in self.arith(st, op, x, y): yield r
            return
        if is_bool(x) and is_bool(y) and op in ('BitAnd', 'BitOr'):
            yield st, S(z3.And(zbool(x), zbool(y)) if op == 'BitAnd' else z3.Or(zbool(x), zbool(y))); return
        for r in self.extop(st, op, [x, y]): yield r
    def arith(self, st, op, x, y):
        cx, cy = isinstance(x, int), isinstance(y, int)
        if op in ('Add', 'Sub', 'Mult'):
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
                yield st, {'Add': x + y, 'Sub': x - y, 'Mult': x * y}[op]; return
            a, b = znum2(x, y)
            yield st, S({'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b}[op]()); return
        if op in ('Div', 'FloorDiv'):
            if cx and cy:
                if y == 0: yield st, RaiseV(ExcV('ZeroDivisionError'))
                else: yield st, x // y
                return
            a, b = znum(x), znum(y)
            if z3.is_app(a) and z3.is_app(b) and a.sort() == Int and a.decl().name().startswith('pow') and a.decl().eq(b.decl()) and a.num_args() == 1:
                i, j = a.arg(0), b.arg(0)
                if self.entails(st, [], z3.And(j >= 0, j <= i)):
                    self.assume(st, a.decl()(i - j) >= 1)
                    yield st, a.decl()(z3.simplify(i - j)); return
            for s2, z in self.branch(st, b == 0):
                if z: yield s2, RaiseV(ExcV('ZeroDivisionError'))
                else:
                    if a.sort() == Int and b.sort() == Int:
                        # Python floors; SMT-LIB div agrees for a positive divisor
                        if z3.is_app(a) and z3.is_app(b) and a.decl().name().startswith('pow') and a.decl().eq(b.decl()) and a.num_args() == 1:
                            # quotient of powers of the same base
                            i, j = a.arg(0), b.arg(0)
                            self.assume(s2, z3.Implies(z3.And(j >= 0, j <= i), a / b == a.decl()(i - j)))
                        for s3, pos in self.branch(s2, b > 0):
                            yield s3, S(a / b) if pos else S((-a) / (-b))
                    else:
                        # coefficients may be Python integers, for which / floors
                        f = z3.Function('pydiv', Real, Real, Real)
                        yield s2, f(zreal(a), zreal(b))
            return
        if op == 'Mod':
            if cx and cy:
                if y == 0: yield st, RaiseV(ExcV('ZeroDivisionError'))
                else: yield st, x % y
                return
            a, b = znum(x), znum(y)
            if cy and y > 0 and a.sort() == Int:
                yield st, S(a % b); return
            raise Unsupported('modulo')
        if op == 'Pow':
            if isinstance(x, (int, Fraction)) and cy and (y >= 0):
                yield st, x ** y; return
            for r in self.power(st, x, y): yield r
            return
        if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift') and cx and cy:
            yield st, {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'LShift': x << y, 'RShift': x >> y}[op]; return
        raise Unsupported('arithmetic ' + op)
    def power(self, st, x, y):
        y = concrete(y)
        if isinstance(y, int):
            if 0 <= y <= 6:
                r = 1
                for _ in range(y): r = S(znum2(r, x)[0] * znum2(r, x)[1])
                yield st, r; return
        if x == -1 and isinstance(x, int):
            # (-1)**k depends on parity only (k >= 0)
            self.oblige(st, 'exponent of -1 is not negative', zi(y) >= 0)
            yield st, S(z3.If(zi(y) % 2 == 0, z3.IntVal(1), z3.IntVal(-1))); return
        if isinstance(x, int) and x >= 2:
            f = powfn(x)
            self.need_pow(x)
            self.oblige(st, 'exponent is not negative', zi(y) >= 0)
            self.assume(st, f(zi(y)) >= 1)
            yield st, f(zi(y)); return
        for r in self.extop(st, 'Pow', [x, y]): yield r
    def need_pow(self, x):
        if getattr(self, '_pows', None) is None: self._pows = set()
        if x in self._pows: return
        self._pows.add(x)
        f = powfn(x); k = z3.Int('k!pow')
        self.defs.append(f(z3.IntVal(0)) == 1)
        self.defs.append(z3.ForAll([k], z3.Implies(k >= 0, z3.And(f(k) >= 1, f(k + 1) == x * f(k))), patterns=[f(k)]))
        self.defs.append(z3.ForAll([k], z3.Implies(k >= 1, z3.And(f(k) == x * f(k - 1), f(k - 1) >= 1)), patterns=[f(k)]))
    def e_Compare(self, e, st, fid):
        for a, vs in self.evs([e['left']] + e['comparators'], st, fid):
            if isinstance(vs, RaiseV): yield a, vs; continue
            if len(e['ops']) == 1:
                for r in self.compare(a, e['ops'][0]['_'], vs[0], vs[1]): yield r
            else:
                res = [(a, True)]
                for o, x, y in zip(e['ops'], vs, vs[1:]):
                    nx = []
                    for s, acc in res:
                        if isinstance(acc, RaiseV): nx.append((s, acc)); continue
                        for b, c in self.compare(s, o['_'], x, y):
                            nx.append((b, c if isinstance(c, RaiseV) else S(z3.And(zbool(acc), zbool(c)))))
                    res = nx
                for r in res: yield r
    def compare(self, st, op, l, r):
        for a, x in self.split(st, l):
            for b, y in self.split(a, r):
                for z in self.compare1(b, op, x, y): yield z
    def compare1(self, st, op, x, y):
        if op in ('NotEq', 'IsNot', 'NotIn'):
            for a, v in self.compare1(st, {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op], x, y):
                if isinstance(v, RaiseV): yield a, v
                else: yield a, (not v) if isinstance(v, bool) else S(z3.Not(v))
            return
        if op == 'In':
            for r in self.contains(st, y, x): yield r
            return
        if op == 'Is':
            if x is None or y is None:
                yield st, (x is None and y is None); return
            if isinstance(x, bool) and isinstance(y, bool):
                yield st, x == y; return
            if isinstance(x, ClsV) and isinstance(y, ClsV):
                yield st, x.name == y.name; return
            if isinstance(x, ObjT) and isinstance(y, ObjT):
                yield st, S(x.term == y.term); return
            if is_bool(x) and is_bool(y):
                yield st, S(zbool(x) == zbool(y)); return
            if 'Is:' + self.kind(x) + ',' + self.kind(y) in self.ext:
                for r in self.extop(st, 'Is', [x, y]): yield r
                return
            raise Unsupported('identity test')
        if op == 'Eq':
            for r in self.equals(st, x, y): yield r
            return
        if (is_num(x) or is_bool(x)) and (is_num(y) or is_bool(y)):
            if isinstance(x, (int, Fraction, bool)) and isinstance(y, (int, Fraction, bool)):
                yield st, {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]; return
            a, b = znum2(x, y)
            yield st, S({'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]); return
        for r in self.extop(st, op, [x, y]): yield r
    def equals(self, st, x, y):
        if x is None or y is None:
            if x is None and y is None: yield st, True; return
            o = y if x is None else x
            if isinstance(o, HavocAny): raise HavocRead(o.loc)
            yield st, False; return
        if isinstance(x, Opq) or isinstance(y, Opq): raise Unsupported('comparison of an opaque value')
        if isinstance(x, str) or isinstance(y, str):
            if isinstance(x, str) and isinstance(y, str): yield st, x == y; return
            if is_z3(x) or is_z3(y) or isinstance(x, ObjT) or isinstance(y, ObjT) or getattr(x, 'extcls', None) == 'Txt' or getattr(y, 'extcls', None) == 'Txt':
                for r in self.extop(st, 'Eq', [x, y]): yield r
                return
            yield st, False; return
        if (is_num(x) or is_bool(x)) and (is_num(y) or is_bool(y)):
            if not is_z3(x) and not is_z3(y): yield st, x == y; return
            if is_z3(x) and is_z3(y) and x.sort() == Bool and y.sort() == Bool:
                yield st, S(x == y); return
            if is_bool(x) and is_bool(y): yield st, S(zbool(x) == zbool(y)); return
            if is_bool(x): x = z3.If(zbool(x), z3.IntVal(1), z3.IntVal(0))
            if is_bool(y): y = z3.If(zbool(y), z3.IntVal(1), z3.IntVal(0))
            a, b = znum2(x, y)
            yield st, S(a == b); return
        if (self.islist(x) and self.islist(y)):
            yield st, self.list_eq(st, x, y); return
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.items) != len(y.items): yield st, False; return
            acc = [(st, True)]
            for p, q in zip(x.items, y.items):
                nx = []
                for s, c in acc:
                    for t, d in self.equals(s, p, q):
                        nx.append((t, S(z3.And(zbool(c), zbool(d)))))
                acc = nx
            for r in acc: yield r
            return
        if isinstance(x, ClsV) and isinstance(y, ClsV): yield st, x.name == y.name; return
        if isinstance(x, FnV) and isinstance(y, FnV): yield st, same(x, y); return
        if is_z3(x) and is_z3(y) and x.sort() == y.sort() and x.sort().name() in self.opts.get('value_sorts', ()):
            yield st, S(x == y); return
        if isinstance(x, ObjT) and isinstance(y, ObjT) and x.cls == y.cls and ('Eq:%s,%s' % (x.cls, y.cls)) not in self.ext:
            yield st, S(x.term == y.term); return
        if isinstance(x, SetV) and isinstance(y, SetV):
            ks = set(x.mem) | set(y.mem)
            yield st, S(z3.And(*[zbool(x.mem.get(k, False)) == zbool(y.mem.get(k, False)) for k in ks])); return
        if self.islist(x) != self.islist(y) and (is_num(x) or is_num(y)):
            yield st, False; return
        for r in self.extop(st, 'Eq', [x, y]): yield r
    def list_eq(self, st, x, y):
        a, b = self.seq(st, x), self.seq(st, y)
        if a is b: return True
        for p, q in ((a, b), (b, a)):
            if isinstance(p.n, int) and p.n == 0:
                return q.n == 0 if isinstance(q.n, int) else S(q.n == 0)
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items): return False
            acc = []
            for p, q in zip(a.items, b.items):
                r = list(self.equals(st, p, q))
                if len(r) != 1: raise Unsupported('list comparison')
                acc.append(zbool(r[0][1]))
            return S(z3.And(*acc))
        ta = self.term(LV(a)); tb = self.term(LV(b))
        if ta.sort() != tb.sort(): raise Unsupported('comparison of lists of different kinds')
        self.ext_pair(ta, tb)
        return S(ta == tb)
    def ext_pair(self, ta, tb):
        """extensionality for a pair of list terms (definitional: introduces a witness)"""
        ss = seq_of_sort(ta.sort())
        ps = free_subst(ta, tb)
        w = mkfun('diff', [p.sort() for p in ps], Int)
        k = w(*ps) if ps else w()
        inner = z3.And(k >= 0, k < ss.len(ta), ss.at(ta, k) != ss.at(tb, k))
        f = z3.Or(ta == tb, ss.len(ta) != ss.len(tb), inner)
        self.defs.append(forall(ps, f, None))
    def contains(self, st, cont, x):
        if isinstance(cont, DRef):
            yield st, self.dict_has(st, cont, x); return
        if isinstance(cont, SetV):
            if not is_z3(x):
                k = tuple(x.items) if isinstance(x, Tup) else x
                yield st, cont.mem.get(k, False); return
            yield st, S(z3.Or(*[z3.And(znum2(x, k)[0] == znum2(x, k)[1], zbool(m)) for k, m in cont.mem.items() if is_num(k)] or [z3.BoolVal(False)])); return
        if isinstance(cont, str):
            if isinstance(x, str): yield st, x in cont; return
            raise Unsupported('substring test')
        if isinstance(cont, ObjT) or is_z3(cont):
            for r in self.extop(st, 'In', [x, cont]): yield r
            return
        q = self.seq(st, cont)
        if q.items is not None:
            acc = False
            s = st
            for it in q.items:
                r = list(self.equals(s, x, it))
                if len(r) != 1: raise Unsupported('membership test')
                s, c = r[0]
                acc = S(z3.Or(zbool(acc), zbool(c)))
                if acc is True: break
            yield s, acc; return
        # exists index
        tx = self.term(self.freeze(st, x) if not is_num(x) else x)
        ss_t = self.define_seq(q)
        ss = seq_of_sort(ss_t.sort())
        if tx.sort() == Int and ss.esort == Real: tx = zreal(tx)
        if tx.sort() != ss.esort: raise Unsupported('membership test of another kind')
        mem = z3.Function('mem_' + ss.sort.name(), ss.sort, ss.esort, Bool)
        self.need_mem(ss, mem)
        yield st, mem(ss_t, tx)
    def need_mem(self, ss, mem):
        if getattr(self, '_mems', None) is None: self._mems = set()
        if ss.sort.name() in self._mems: return
        self._mems.add(ss.sort.name())
        l = z3.Const('l!mem', ss.sort); x = z3.Const('x!mem', ss.esort); i = z3.Int('i!mem')
        wit = z3.Function('memidx_' + ss.sort.name(), ss.sort, ss.esort, Int)
        self.defs.append(z3.ForAll([l, x], z3.Implies(mem(l, x), z3.And(wit(l, x) >= 0, wit(l, x) < ss.len(l), ss.at(l, wit(l, x)) == x,
                  )), patterns=[mem(l, x)]))
        # wit is the first index
        self.defs.append(z3.ForAll([l, i], z3.Implies(z3.And(i >= 0, i < ss.len(l)), z3.And(mem(l, ss.at(l, i)), wit(l, ss.at(l, i)) <= i)), patterns=[ss.at(l, i)]))

    def e_Attribute(self, e, st, fid):
        for a, o in self.ev(e['value'], st, fid):
            if isinstance(o, RaiseV): yield a, o; continue
            for b, x in self.split(a, o):
                for r in self.getattr(b, x, e['attr']): yield r
    def getattr(self, st, o, attr):
        if isinstance(o, ModV):
            yield st, self.modattr(st, o, attr); return
        if isinstance(o, ExcV) and 'excattr:' + attr in self.ext:
            yield st, self.ext['excattr:' + attr](self, st, o); return
        if getattr(o, 'extcls', None) and 'meth:%s.%s' % (o.extcls, attr) in self.ext:
            yield st, BI('meth:%s.%s' % (o.extcls, attr), o); return
        if isinstance(o, ObjT):
            v = self.field(st, o, attr)
            if v is not None:
                if v is Undef: raise Unsupported('attribute %s may be unset' % attr)
                if isinstance(v, LV): yield st, Place(o, attr)
                else: yield st, v
                return
            h = self.ext.get('attr:%s.%s' % (o.cls, attr))
            if h is not None:
                self.used_ext.add('attr:%s.%s' % (o.cls, attr))
                r = h(self, st, o)
                if isinstance(r, list):
                    for x in r: yield x
                else: yield st, r
                return
            m = self.method(o.cls, attr)
            if m is not None:
                mod, node, cname = m
                yield st, FnV(node, None, '%s:%s.%s' % (mod, cname, attr), mod, cls=cname, selfv=o); return
            if ('meth:%s.%s' % (o.cls, attr)) in self.ext:
                yield st, BI('meth:%s.%s' % (o.cls, attr), o); return
            raise Unsupported('attribute %s of %s' % (attr, o.cls))
        if isinstance(o, FnV) and attr in ('__name__', 'func_name') and o.qual and '<' not in o.qual:
            yield st, o.qual.split(':')[-1].split('.')[-1]; return
        if isinstance(o, ClsV):
            m = self.method(o.name, attr)
            if m is not None:
                mod, node, cname = m
                yield st, FnV(node, None, '%s:%s.%s' % (mod, cname, attr), mod, cls=cname); return
            if attr == '__name__': yield st, o.name; return
            if ('cattr:%s.%s' % (o.name, attr)) in self.ext:
                yield st, self.ext['cattr:%s.%s' % (o.name, attr)](self, st); return
            v = self.class_attr(st, o, attr)
            if v is not None: yield st, v[0]; return
        if is_z3(o):
            k = o.sort().name()
            h = self.ext.get('attr:%s.%s' % (k, attr))
            if h is not None:
                self.used_ext.add('attr:%s.%s' % (k, attr))
                r = h(self, st, o)
                if isinstance(r, list):
                    for x in r: yield x
                else: yield st, r
                return
            if ('meth:%s.%s' % (k, attr)) in self.ext:
                yield st, BI('meth:%s.%s' % (k, attr), o); return
        yield st, BI('.' + attr, o)
    def class_attr(self, st, c, attr):
        if c.node is None: return None
        for n in c.node['body']:
            if n['_'] == 'Assign' and n['targets'][0]['_'] == 'Name' and n['targets'][0]['id'] == attr:
                fid = self.newframe(st, None, c.mod, None)
                r = list(self.ev(n['value'], st, fid))
                if isinstance(r[0][1], (Ref, DRef, SetV, RaiseV)): raise Unsupported('class attribute %s is mutable' % attr)
                return [r[0][1]]
        return None
    def method(self, cls, name):
        seen = 0
        while cls is not None and seen < 6:
            nxt = None
            for p, m in self.mods.items():
                if cls in m.names and m.names[cls][0] == 'cls':
                    node = m.names[cls][1]
                    for b in node['body']:
                        if b['_'] == 'FunctionDef' and b['name'] == name: return p, b, cls
                    bs = node['bases']
                    nxt = bs[0]['id'] if bs and bs[0]['_'] == 'Name' else None
            cls = nxt; seen += 1
        return None
    def index(self, st, q, i):
        """yield (state, index term or RaiseV) for subscript i"""
        if isinstance(i, bool): i = int(i)
        i = concrete(i)
        if not is_num(i) or (is_z3(i) and i.sort() != Int): raise Unsupported('list index')
        n = q.n
        if isinstance(i, int) and isinstance(n, int):
            if -n <= i < n: yield st, i if i >= 0 else i + n
            else: yield st, RaiseV(ExcV('IndexError'))
            return
        if isinstance(i, int):
            c = zi(n) >= (i + 1) if i >= 0 else zi(n) >= -i
            for s, t in self.branch(st, c):
                if t: yield s, i if i >= 0 else S(zi(n) + i)
                else: yield s, RaiseV(ExcV('IndexError'))
            return
        for s, neg in self.branch(st, i < 0):
            j = S(i + zi(n)) if neg else i
            c = z3.And(zi(j) >= 0, zi(j) < zi(n))
            for s2, t in self.branch(s, c):
                if t: yield s2, j
                else: yield s2, RaiseV(ExcV('IndexError'))
    def getitem(self, st, o, i):
        for a, x in self.split(st, o):
            if isinstance(x, DRef):
                for r in self.dict_get(a, x, i): yield r
                continue
            if isinstance(x, (ObjT,)) or (is_z3(x)) or getattr(x, 'extcls', None) == 'Txt':
                for r in self.extop(a, 'getitem', [x, i]): yield r
                continue
            if isinstance(x, str):
                if isinstance(i, int): yield a, x[i]; continue
                raise Unsupported('string index')
            q = self.seq(a, x)
            for b, i2 in self.split(a, i):
                for c, j in self.index(b, q, i2):
                    if isinstance(j, RaiseV): yield c, j
                    else: yield c, q.get(j)
    def e_Subscript(self, e, st, fid):
        for a, o in self.ev(e['value'], st, fid):
            if isinstance(o, RaiseV): yield a, o; continue
            sl = e['slice']
            if sl['_'] == 'Index':
                for b, i in self.ev(sl['value'], a, fid):
                    if isinstance(i, RaiseV): yield b, i; continue
                    for r in self.getitem(b, o, i): yield r
            elif sl['_'] == 'Slice':
                def part(s, x):
                    if x is None or (x['_'] == 'Name' and x['id'] == 'None'): return [(s, None)]
                    return self.ev(x, s, fid)
                for b, lo in part(a, sl['lower']):
                    if isinstance(lo, RaiseV): yield b, lo; continue
                    for c, hi in part(b, sl['upper']):
                        if isinstance(hi, RaiseV): yield c, hi; continue
                        for d, sp in part(c, sl['step']):
                            for f, x in self.split(d, o):
                                if isinstance(x, str):
                                    yield f, x[lo:hi:sp]; continue
                                if isinstance(x, Opq): yield f, x; continue
                                if isinstance(x, ObjT) or is_z3(x):
                                    for r in self.extop(f, 'slice', [x, lo, hi, sp]): yield r
                                    continue
                                q = self.seq(f, self.freeze(f, x) if not isinstance(x, (Tup,)) else x)
                                if sp is not None and sp != 1:
                                    if sp == -1 and lo is None and hi is None: r = seq_reverse(q)
                                    else: raise Unsupported('slice step')
                                else: r = seq_slice(q, lo, hi)
                                if isinstance(x, Tup): yield f, Tup(r.items)
                                elif isinstance(x, TupSeq): yield f, TupSeq(r)
                                else: yield f, self.alloc(f, r)
            else: raise Unsupported('subscript')
    # dicts
    def key(self, st, k):
        if isinstance(k, (int, str, bool)) or k is None or isinstance(k, (ClsV, FnV)): return k
        if is_z3(k):
            c = concrete(k)
            return c
        if isinstance(k, TupSeq): return self.term(k)
        if isinstance(k, Tup): return tuple(self.key(st, x) for x in k.items)
        if isinstance(k, ObjT): return k.term
        h = self.ext.get('key:' + self.kind(k))
        if h: return h(self, st, k)
        raise Unsupported('dict key %r' % (k,))
    def ckey(self, k):
        if isinstance(k, tuple): return all(self.ckey(x) for x in k)
        return not is_z3(k)
    def keyeq(self, a, b):
        if isinstance(a, ClsV) or isinstance(b, ClsV):
            return isinstance(a, ClsV) and isinstance(b, ClsV) and a.name == b.name
        if isinstance(a, FnV) or isinstance(b, FnV):
            return isinstance(a, FnV) and isinstance(b, FnV) and same(a, b)
        return a == b
    def dict_has(self, st, d, k):
        c = st.heap[d.addr]
        if hasattr(c, 'dhas'): return c.dhas(self, st, k)
        k = self.key(st, k)
        if c.conc is not None:
            if self.ckey(k): return any(self.keyeq(x, k) for x, _ in c.conc)
            return S(z3.Or(*[self.zkeyeq(k, x) for x, _ in c.conc] or [z3.BoolVal(False)]))
        return S(c.has(self.zkey(c, k)))
    def zkey(self, c, k):
        if is_z3(k): return k
        if isinstance(k, int): return z3.IntVal(k)
        raise Unsupported('key kind')
    def zkeyeq(self, k, x):
        if isinstance(x, int) and is_z3(k) and k.sort() in (Int, Real): return k == x
        if is_z3(x) and is_z3(k) and x.sort() == k.sort(): return k == x
        h = self.ext.get('keyeq:' + (k.sort().name() if is_z3(k) else 'tuple'))
        if h:
            r = h(self, k, x)
            if r is not None: return r
        return z3.BoolVal(False)
    def dict_get(self, st, d, k):
        c = st.heap[d.addr]
        if hasattr(c, 'dget'):
            for r in c.dget(self, st, k): yield r
            return
        kk = self.key(st, k)
        if c.conc is not None:
            if self.ckey(kk):
                for x, v in c.conc:
                    if self.keyeq(x, kk):
                        yield st, v; return
                yield st, RaiseV(ExcV('KeyError')); return
            s = st
            rest = []
            for x, v in c.conc:
                g = S(self.zkeyeq(kk, x))
                if g is False: continue
                s2 = s.fork(); s2.conds += [z3.Not(r) for r in rest]
                if g is not True: s2.conds.append(g)
                if self.feasible(s2): yield s2, v
                if g is True: return
                rest.append(g)
            s2 = s.fork(); s2.conds += [z3.Not(r) for r in rest]
            if self.feasible(s2): yield s2, RaiseV(ExcV('KeyError'))
            return
        z = self.zkey(c, kk)
        for s, t in self.branch(st, c.has(z)):
            if t: yield s, c.get(z)
            else: yield s, RaiseV(ExcV('KeyError'))
    def dict_set(self, st, d, k, v):
        c = st.heap[d.addr]
        if c.conc == [] and 'cellify' in self.opts and self.opts['cellify'][0] == (self.curfn or '').split(':')[0]:
            c = st.heap[d.addr] = self.opts['cellify'][1](c.conc)
        if hasattr(c, 'dset'):
            if d.addr in st.frozen: raise Unsupported('mutation of a shared dict')
            c.dset(self, st, d.addr, k, v); return
        kk = self.key(st, k)
        if not (isinstance(v, Ref) and c.conc is not None and self.ckey(kk)): v = self.freeze(st, v)
        if d.addr in st.frozen: raise Unsupported('mutation of a shared dict')
        if c.conc is not None and self.ckey(kk):
            conc = [(x, y) for x, y in c.conc]
            for j, (x, y) in enumerate(conc):
                if self.keyeq(x, kk): conc[j] = (x, v); break
            else: conc.append((kk, v))
            st.heap[d.addr] = DictC(conc=conc); return
        if c.conc is not None:
            if c.conc and not all(isinstance(x, int) or is_z3(x) for x, _ in c.conc): raise Unsupported('mixed dict')
            base0 = DictC(conc=[(x, self.freeze(st, y)) for x, y in c.conc])
            if not is_z3(kk): raise Unsupported('dict key')
            ks = kk.sort()
            def has0(z): return z3.Or(*[z == x for x, _ in base0.conc] or [z3.BoolVal(False)])
            def get0(z):
                r = Undef
                for x, y in base0.conc: r = y if r is Undef else merge(z == x, y, r)
                return r
            c = DictC(has=has0, get=get0, ksort=ks)
        old = c; z = self.zkey(c, kk)
        def has(x): return S2(z3.Or(x == z, old.has(x)))
        def get(x):
            e = S(x == z)
            if e is True: return v
            o = old.get(x)
            if o is Undef: return v
            return merge(e, v, o)
        n = DictC(has=has, get=get, ksort=old.ksort)
        base = old.stores[0] if old.stores else old
        if base.havoc is not None:
            n.stores = (base, (old.stores[1] if old.stores else []) + [(z, v)])
        st.heap[d.addr] = n

    # comprehensions
    def e_ListComp(self, e, st, fid):
        for r in self.comp(e, st, fid, 'list'): yield r
    def e_GeneratorExp(self, e, st, fid):
        for r in self.comp(e, st, fid, 'list'): yield r
    def e_SetComp(self, e, st, fid): raise Unsupported('set comprehension')
    def e_DictComp(self, e, st, fid):
        for r in self.comp(e, st, fid, 'dict'): yield r
    def comp(self, e, st, fid, kind):
        nf = self.newframe(st, fid, st.frames[fid]['__mod__'], st.frames[fid].get('__fn__'))
        if kind == 'list': acc = self.alloc(st, seq_items([]))
        else:
            ad = 'd%d' % uid(); st.heap[ad] = DictC(conc=[]); acc = DRef(ad)
        def gen(gs, s):
            """-> outcomes"""
            if not gs:
                out = []
                if kind == 'list':
                    for a, v in self.ev(e['elt'], s, nf):
                        if isinstance(v, RaiseV): out.append(('raise', a, v.exc)); continue
                        self.setlist(a, acc, seq_append(a.heap[acc.addr], [self.freeze(a, v)]))
                        out.append(('next', a, None))
                else:
                    for a, kv in self.evs([e['key'], e['value']], s, nf):
                        if isinstance(kv, RaiseV): out.append(('raise', a, kv.exc)); continue
                        self.dict_set(a, acc, kv[0], kv[1])
                        out.append(('next', a, None))
                return out
            g = gs[0]; out = []
            for a, it in self.ev(g['iter'], s, nf):
                if isinstance(it, RaiseV): out.append(('raise', a, it.exc)); continue
                for b, w in self.split(a, it):
                    for c, q in self.iterseqs(b, w):
                        def step(s1, x):
                            res = []
                            for k, s2, y in self.assign(g['target'], x, s1, nf):
                                if k != 'next': res.append((k, s2, y)); continue
                                cur = [s2]
                                for cond in g['ifs']:
                                    nx = []
                                    for s3 in cur:
                                        for s4, v in self.ev(cond, s3, nf):
                                            if isinstance(v, RaiseV): res.append(('raise', s4, v.exc)); continue
                                            for s5, t in self.branch_val(s4, v):
                                                if t: nx.append(s5)
                                                else: res.append(('next', s5, None))
                                    cur = nx
                                for s6 in cur: res += gen(gs[1:], s6)
                            return res
                        for k, d, x in self.run_loop(c, q, step):
                            out.append(('next', d, None) if k == 'done' else (k, d, x))
            return out
        for k, a, x in gen(e['generators'], st):
            if k == 'next': yield a, acc
            else: yield a, RaiseV(x)

    # ---------------------------------------------------------------- calls --
    def e_Call(self, e, st, fid):
        for a, f in self.ev(e['func'], st, fid):
            if isinstance(f, RaiseV): yield a, f; continue
            for b, args in self.evs(e['args'] or [], a, fid):
                if isinstance(args, RaiseV): yield b, args; continue
                extra = [(b, [])]
                if e.get('starargs'):
                    extra = []
                    for c, sv in self.ev(e['starargs'], b, fid):
                        if isinstance(sv, RaiseV): yield c, sv; continue
                        q = self.seq(c, sv)
                        if q.items is None: raise Unsupported('star argument of unknown length')
                        extra.append((c, q.items))
                if e.get('kwargs'): raise Unsupported('** argument')
                for c, more in extra:
                    kws = [k['arg'] for k in (e['keywords'] or [])]
                    for d, kv in self.evs([k['value'] for k in (e['keywords'] or [])], c, fid):
                        if isinstance(kv, RaiseV): yield d, kv; continue
                        for g, ff in self.split(d, f):
                            for r in self.call(g, ff, args + list(more), dict(zip(kws, kv)), e.get('l')): yield r
    def call(self, st, f, args, kw=None, line=None):
        kw = kw or {}
        if isinstance(f, FnV): 
            for r in self.callfn(st, f, args, kw, line): yield r
            return
        if isinstance(f, BI):
            if kw and not f.name.startswith(('ext:', 'meth:')):
                if f.name in ('sorted',) : raise Unsupported('keyword argument')
                raise Unsupported('keyword argument of builtin')
            n = f.name
            if n.startswith('ext:') or n.startswith('meth:'):
                key = n[4:] if n.startswith('ext:') else n
                h = self.ext[key]
                self.used_ext.add(key)
                a = ([f.selfv] if n.startswith('meth:') else []) + args
                r = h(self, st, *a, **kw)
                if isinstance(r, list):
                    for x in r: yield x
                else: yield st, r
                return
            if n.startswith('.'):
                for r in self.callmeth(st, f.selfv, n[1:], args, line): yield r
                return
            m = getattr(self, 'b_' + n, None)
            if m is None: raise Unsupported('builtin %s' % n)
            for r in m(st, args): yield r
            return
        if isinstance(f, ClsV):
            for r in self.construct(st, f, args, kw, line): yield r
            return
        if getattr(f, 'extcls', None) and 'call:' + f.extcls in self.ext:
            self.used_ext.add('call:' + f.extcls)
            yield st, self.ext['call:' + f.extcls](self, st, f, *args, **kw); return
        if is_z3(f) and ('call:' + f.sort().name()) in self.ext:
            r = self.ext['call:' + f.sort().name()](self, st, f, *args)
            self.used_ext.add('call:' + f.sort().name())
            if isinstance(r, list):
                for x in r: yield x
            else: yield st, r
            return
        if isinstance(f, ModV):
            raise Unsupported('call of %s, for which there is no contract' % f.name)
        raise Unsupported('call of %r' % (f,))
    def construct(self, st, c, args, kw, line):
        if self.subclass(c.name, 'Exception') and (c.name in BUILTIN_EXC or c.mod):
            yield st, ExcV(c.name); return
        h = self.ext.get('new:' + c.name)
        if h is not None:
            self.used_ext.add('new:' + c.name)
            r = h(self, st, *args)
            if isinstance(r, list):
                for x in r: yield x
            else: yield st, r
            return
        if c.mod is None: raise Unsupported('construction of ' + c.name)
        o = ObjT(c.name, self.fresh('new_' + c.name, obj_sort(c.name)))
        birth = z3.Function('birth_' + c.name, obj_sort(c.name), Int)
        self.assume(st, birth(o.term) == st.now)
        st.now = S2(st.now + 1)
        m = self.method(c.name, '__init__')
        if m is None:
            yield st, o; return
        mod, node, cname = m
        for a, v in self.callfn(st, FnV(node, None, '%s:%s.__init__' % (mod, cname), mod, cls=cname, selfv=o), args, kw, line):
            yield a, (v if isinstance(v, RaiseV) else o)
    def params(self, node):
        a = node['args']
        return a['args'], a['defaults'] or [], a['vararg'], a['kwarg']
    def bind(self, st, f, args, kw, fid):
        ps, dfl, va, kwa = self.params(f.node)
        if kwa: raise Unsupported('** parameter')
        args = list(args)
        if f.selfv is not None: args = [f.selfv] + args
        if len(args) > len(ps) and not va: return [('raise', st, ExcV('TypeError'))]
        bound = list(zip(ps, args[:len(ps)]))
        for i in range(len(args), len(ps)):
            p = ps[i]
            nm = p['id'] if p['_'] == 'Name' else None
            if nm in kw: bound.append((p, kw[nm])); continue
            j = i - (len(ps) - len(dfl))
            if j < 0: return [('raise', st, ExcV('TypeError'))]
            if getattr(f, 'dvals', None) is not None: bound.append((p, f.dvals[j])); continue
            gf = self.newframe(st, None, f.mod, None)
            r = list(self.ev(dfl[j], st, gf))
            v = r[0][1]
            if isinstance(v, Ref): v = self.freeze(st, v)      # default objects are shared
            if isinstance(v, DRef): st.frozen.add(v.addr)
            bound.append((p, v))
        sts = [st]; out = []
        if va:
            st.frames[fid][va] = Tup(args[len(ps):])
        for p, v in bound:
            nx = []
            for s in sts:
                for k, s2, x in self.assign(dict(p, _=p['_']), v, s, fid):
                    (nx.append(s2) if k == 'next' else out.append((k, s2, x)))
            sts = nx
        return out + [('next', s, None) for s in sts]
    def callfn(self, st, f, args, kw, line):
        if f.node['_'] == 'Lambda':
            fid = self.newframe(st, f.fid, f.mod, None)
            for k, a, x in self.bind(st, f, args, kw, fid):
                if k == 'raise': yield a, RaiseV(x); continue
                for r in self.ev(f.node['body'], a, fid): yield r
            return
        c = self.contracts.get(f.qual)
        if c is not None and not self.opts.get('inline_all'):
            a2 = ([f.selfv] if f.selfv is not None else []) + list(args)
            ps, dfl, va, kwa = self.params(f.node)
            names = [p.get('id') for p in ps]
            for i in range(len(a2), len(ps)):
                if names[i] in kw: a2.append(kw[names[i]])
            if len(a2) == c.arity:
                self.used_contracts.add(f.qual)
                for r in c.call(self, st, a2, line): yield r
                return
        if f.node.get('decorator_list'):
            ds = [d.get('id') for d in f.node['decorator_list'] if d['_'] == 'Name']
            if not all(d in ('staticmethod', 'classmethod', 'property') for d in ds): raise Unsupported('decorated function')
        if self.stack.count(f.qual) >= 1 and f.fid is None:
            if self.stack.count(f.qual) > 2: raise Unsupported('recursive function %s has no contract' % f.qual)
        if len(self.stack) > 14: raise Unsupported('call depth')
        self.inlined.add(f.qual)
        self.stack.append(f.qual)
        try:
            fid = self.newframe(st, f.fid, f.mod, f.qual)
            for k, a, x in self.bind(st, f, args, kw, fid):
                if k == 'raise': yield a, RaiseV(x); continue
                for kk, b, y in self.block(f.node['body'], a, fid):
                    if kk == 'next': yield b, None
                    elif kk == 'return': yield b, y
                    elif kk == 'raise': yield b, RaiseV(y)
                    else: raise Unsupported(kk)
        finally:
            self.stack.pop()
    # --- methods of built-in values
    def callmeth(self, st, o, name, args, line):
        if isinstance(o, Un):
            for a, x in self.split(st, o):
                for r in self.callmeth(a, x, name, args, line): yield r
            return
        if self.islist(o):
            if name == 'append':
                self.setlist(st, o, seq_append(self.seq(st, o), [self.freeze(st, args[0])])); yield st, None; return
            if name == 'extend':
                self.setlist(st, o, self.extend_seq(self.seq(st, o), self.seq(st, self.freeze(st, args[0])))); yield st, None; return
            if name == 'insert':
                i = concrete(args[0])
                q = self.seq(st, o)
                if i == 0: n = seq_concat(seq_items([self.freeze(st, args[1])]), q)
                elif isinstance(i, int) and q.items is not None:
                    it = list(q.items); it.insert(i, self.freeze(st, args[1])); n = seq_items(it)
                elif is_z3(i) and is_z3(q.n) and i.eq(q.n): n = seq_append(q, [self.freeze(st, args[1])])
                else: raise Unsupported('insert')
                self.setlist(st, o, n); yield st, None; return
            if name == 'pop':
                q = self.seq(st, o)
                i = concrete(args[0]) if args else -1
                for b, j in self.index(st, q, i):
                    if isinstance(j, RaiseV): yield b, j; continue
                    v = q.get(j)
                    if i == -1: self.setlist(b, o, seq_slice(q, None, -1))
                    elif i == 0: self.setlist(b, o, seq_slice(q, 1, None))
                    else: raise Unsupported('pop')
                    yield b, v
                return
            if name == 'reverse':
                self.setlist(st, o, seq_reverse(self.seq(st, o))); yield st, None; return
            if name == 'index':
                for r in self.list_index(st, o, args[0]): yield r
                return
            if name == 'count' :
                raise Unsupported('list.count')
            if name == 'copy': yield st, self.alloc(st, self.seq(st, o)); return
        if isinstance(o, Tup) and name == 'index':
            for r in self.list_index(st, o, args[0]): yield r
            return
        if isinstance(o, DRef):
            c = st.heap[o.addr]
            if name == 'has_key': yield st, self.dict_has(st, o, args[0]); return
            if name == 'get':
                has = self.dict_has(st, o, args[0])
                for a, t in self.branch(st, has):
                    if t:
                        for r in self.dict_get(a, o, args[0]): yield r
                    else: yield a, (args[1] if len(args) > 1 else None)
                return
            if name == 'setdefault':
                has = self.dict_has(st, o, args[0])
                for a, t in self.branch(st, has):
                    if t:
                        for r in self.dict_get(a, o, args[0]): yield r
                    else:
                        self.dict_set(a, o, args[0], args[1]); yield a, args[1]
                return
            if c.conc is not None and name in ('keys', 'values', 'items', 'iteritems', 'iterkeys', 'itervalues'):
                for a, q in self.iterseqs(st, o):
                    ks = q.items
                    def val(k):
                        for x, v in c.conc:
                            if self.keyeq(x, k): return v
                    if 'key' in name: it = ks
                    elif 'value' in name: it = [val(k) for k in ks]
                    else: it = [Tup([k, val(k)]) for k in ks]
                    yield a, self.alloc(a, seq_items(it))
                return
            if name == 'copy':
                ad = 'd%d' % uid(); st.heap[ad] = c; yield st, DRef(ad); return
        if isinstance(o, SetV):
            if name in ('intersection', 'union', 'difference', 'add'):
                if name == 'add': raise Unsupported('set.add')
                b = args[0]
                if not isinstance(b, SetV):
                    q = self.seq(st, b)
                    if q.items is None or not all(isinstance(x, (int, str)) for x in q.items): raise Unsupported('set operation')
                    b = SetV({x: True for x in q.items})
                ks = set(o.mem) | set(b.mem)
                f = {'intersection': lambda x, y: z3.And(x, y), 'union': lambda x, y: z3.Or(x, y),
                     'difference': lambda x, y: z3.And(x, z3.Not(y))}[name]
                m = {k: S(f(zbool(o.mem.get(k, False)), zbool(b.mem.get(k, False)))) for k in ks}
                yield st, SetV({k: v for k, v in m.items() if v is not False}); return
        if isinstance(o, (str, Opq)):
            yield st, Opq('string'); return
        k = self.kind(o)
        h = self.ext.get('meth:%s.%s' % (k, name))
        if h is not None:
            self.used_ext.add('meth:%s.%s' % (k, name))
            r = h(self, st, o, *args)
            if isinstance(r, list):
                for x in r: yield x
            else: yield st, r
            return
        raise Unsupported('method %s of %s' % (name, k))
    def list_index(self, st, o, x):
        q = self.seq(st, o)
        if q.items is not None:
            cur = [st]
            for j, it in enumerate(q.items):
                nx = []
                for s in cur:
                    for a, c in self.equals(s, it, x):
                        for b, t in self.branch(a, c):
                            if t: yield b, j
                            else: nx.append(b)
                cur = nx
            for s in cur: yield s, RaiseV(ExcV('ValueError'))
            return
        for s, mem in self.contains(st, o, x):
            for a, t in self.branch(s, mem):
                if not t: yield a, RaiseV(ExcV('ValueError')); continue
                lt = self.define_seq(q); ss = seq_of_sort(lt.sort())
                wit = z3.Function('memidx_' + ss.sort.name(), ss.sort, ss.esort, Int)
                tx = self.term(self.freeze(a, x) if not is_num(x) else x)
                if tx.sort() == Int and ss.esort == Real: tx = zreal(tx)
                yield a, wit(lt, tx)
    # --- builtins
    def b_len(self, st, args):
        for a, v in self.split(st, args[0]):
            if isinstance(v, str): yield a, len(v); continue
            if isinstance(v, SetV):
                yield a, S(z3.Sum(*[z3.If(zbool(m), 1, 0) for m in v.mem.values()]) if v.mem else z3.IntVal(0)); continue
            if isinstance(v, DRef) and a.heap[v.addr].conc is not None: yield a, len(a.heap[v.addr].conc); continue
            if isinstance(v, DRef) and a.heap[v.addr].size is not None: yield a, a.heap[v.addr].size; continue
            if isinstance(v, ObjT) or is_z3(v):
                for r in self.extop(a, 'len', [v]): yield r
                continue
            if isinstance(v, SetSeq) or getattr(v, 'extcls', None):
                for r in self.extop(a, 'len', [v]): yield r
                continue
            q = self.seq(a, v)
            if is_z3(q.n) and not nonneg(q.n): self.assume(a, q.n >= 0)
            yield a, q.n
    def b_range(self, st, args):
        a = [concrete(int(x) if isinstance(x, bool) else x) for x in args]
        for x in a:
            if not is_num(x) or (is_z3(x) and x.sort() != Int): raise Unsupported('range argument')
        if len(a) == 1: q = seq_range(0, a[0])
        elif len(a) == 2: q = seq_range(a[0], a[1])
        else: q = seq_range(*a)
        yield st, self.alloc(st, q)
    b_xrange = b_range
    def b_zip(self, st, args):
        yield st, self.alloc(st, seq_zip(*[self.seq(st, self.freeze(st, a)) for a in args]))
    def b_enumerate(self, st, args):
        q = self.seq(st, self.freeze(st, args[0]))
        s0 = args[1] if len(args) > 1 else 0
        if q.items is not None and isinstance(s0, int):
            yield st, LV(seq_items([Tup([i + s0, x]) for i, x in enumerate(q.items)])); return
        yield st, LV(Seq(q.n, lambda i: Tup([S(zi(i) + zi(s0)), q.get(i)])))
    def b_reversed(self, st, args):
        yield st, LV(seq_reverse(self.seq(st, self.freeze(st, args[0]))))
    def loopcall(self, st, q, f):
        """run f(state, element) -> outcomes over a sequence"""
        return self.run_loop(st, q, f)
    def b_map(self, st, args):
        if len(args) > 2:
            fn = args[0]
            z = list(self.b_zip(st, args[1:]))[0][1]
            q = self.seq(st, z)
            def callit(s, e): return self.call(s, fn, e.items)
        else:
            fn, it = args
            q = None
        for a, w in (self.split(st, args[1]) if q is None else [(st, None)]):
            for b, qq in (self.iterseqs(a, self.freeze(a, w)) if q is None else [(a, q)]):
                acc = self.alloc(b, seq_items([]))
                def step(s, e):
                    out = []
                    for c, v in (self.call(s, fn, [e]) if q is None else callit(s, e)):
                        if isinstance(v, RaiseV): out.append(('raise', c, v.exc)); continue
                        c.heap[acc.addr] = seq_append(c.heap[acc.addr], [self.freeze(c, v)])
                        out.append(('next', c, None))
                    return out
                for k, c, x in self.run_loop(b, qq, step):
                    if k == 'done': yield c, acc
                    else: yield c, RaiseV(x)
    def b_filter(self, st, args):
        fn, it = args
        for a, w in self.split(st, it):
            for b, q in self.iterseqs(a, self.freeze(a, w)):
                acc = self.alloc(b, seq_items([]))
                def step(s, e):
                    out = []
                    for c, v in (self.call(s, fn, [e]) if fn is not None else [(s, e)]):
                        if isinstance(v, RaiseV): out.append(('raise', c, v.exc)); continue
                        for d, t in self.branch_val(c, v):
                            if t: d.heap[acc.addr] = seq_append(d.heap[acc.addr], [self.freeze(d, e)])
                            out.append(('next', d, None))
                    return out
                for k, c, x in self.run_loop(b, q, step):
                    if k == 'done': yield c, (acc if not isinstance(w, Tup) else acc)
                    else: yield c, RaiseV(x)
    def fold(self, st, fn, it, init):
        """fn(state, acc, elem) -> (state, value)*"""
        for a, w in self.split(st, it):
            for b, q in self.iterseqs(a, self.freeze(a, w)):
                fid = self.newframe(b, None, None, None)
                b.frames[fid]['acc'] = init
                def step(s, e):
                    out = []
                    cur = s.frames[fid]['acc']
                    if isinstance(cur, HavocAny): raise HavocRead(cur.loc)
                    for c, v in fn(s, cur, e):
                        if isinstance(v, RaiseV): out.append(('raise', c, v.exc)); continue
                        c.frames[fid]['acc'] = v
                        out.append(('next', c, None))
                    return out
                for k, c, x in self.run_loop(b, q, step):
                    if k == 'done': yield c, c.frames[fid]['acc']
                    else: yield c, RaiseV(x)
    def b_reduce(self, st, args):
        if len(args) < 3:
            # first element as the start
            q = self.seq(st, args[1])
            for b, t in self.branch(st, zi(q.n) >= 1 if is_z3(q.n) else q.n >= 1):
                if not t: yield b, RaiseV(ExcV('TypeError')); continue
                for r in self.fold(b, lambda s, acc, e: self.call(s, args[0], [acc, e]), LV(seq_slice(q, 1, None)), q.get(0)): yield r
            return
        for r in self.fold(st, lambda s, acc, e: self.call(s, args[0], [acc, e]), args[1], args[2]): yield r
    def b_sum(self, st, args):
        init = args[1] if len(args) > 1 else 0
        for r in self.fold(st, lambda s, acc, e: self.binop(s, 'Add', acc, e), args[0], init): yield r
    def quant(self, st, it, want):
        for a, w in self.split(st, it):
            for b, q in self.iterseqs(a, self.freeze(a, w)):
                def step(s, e):
                    out = []
                    for c, t in self.branch_val(s, e):
                        out.append(('return', c, t) if t == want else ('next', c, None))
                    return out
                for k, c, x in self.run_loop(b, q, step):
                    yield c, (not want if k == 'done' else want)
    def b_any(self, st, args): return self.quant(st, args[0], True)
    def b_all(self, st, args): return self.quant(st, args[0], False)
    def b_abs(self, st, args):
        x = args[0]
        if isinstance(x, (int, Fraction)): yield st, abs(x); return
        if not is_num(x):
            for r in self.extop(st, 'abs', [x]): yield r
            return
        yield st, S(z3.If(x >= 0, x, -x))
    def minmax(self, st, args, mx):
        if len(args) == 1:
            q = self.seq(st, args[0])
            if q.items is None:
                for r in self.minmaxseq(st, q, mx): yield r
                return
            args = q.items
        r = args[0]
        for y in args[1:]:
            if isinstance(r, (int, Fraction)) and isinstance(y, (int, Fraction)):
                r = max(r, y) if mx else min(r, y); continue
            a, b = znum2(r, y)
            r = S(z3.If((a >= b) if mx else (a <= b), a, b))
        yield st, r
    def minmaxseq(self, st, q, mx):
        """the largest (smallest) of a list of numbers of any length: the entry at some index, no other is larger"""
        for a, t in self.branch(st, zi(q.n) >= 1):
            if not t: yield a, RaiseV(ExcV('ValueError')); continue
            J = subst_const('J', Int)
            e = q.get(J)
            if not is_num(e): raise Unsupported('min/max of a list of unknown length')
            e = znum(e)
            ix = self.fresh('MX', Int)
            m = z3.substitute(e, (J, ix))
            self.assume(a, z3.And(ix >= 0, ix < zi(q.n)))
            self.assume(a, z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < zi(q.n)), e <= m if mx else e >= m)))
            yield a, S(m)
    def b_min(self, st, args): return self.minmax(st, args, False)
    def b_max(self, st, args): return self.minmax(st, args, True)
    def b_list(self, st, args):
        if not args: yield st, self.alloc(st, seq_items([])); return
        for a, w in self.split(st, args[0]):
            for b, q in self.iterseqs(a, self.freeze(a, w)):
                yield b, self.alloc(b, q)
    def b_tuple(self, st, args):
        if not args: yield st, Tup([]); return
        q = self.seq(st, self.freeze(st, args[0]))
        yield st, (Tup(q.items) if q.items is not None else TupSeq(q))
    def b_set(self, st, args):
        if not args: yield st, SetV({}); return
        q = self.seq(st, self.freeze(st, args[0]))
        if q.items is not None and all(isinstance(x, (int, str)) for x in q.items):
            yield st, SetV({x: True for x in q.items}); return
        h = self.ext.get('builtin:set')
        if h:
            yield st, h(self, st, q); return
        raise Unsupported('set()')
    def b_str(self, st, args):
        h = self.ext.get('builtin:str')
        if h:
            r = h(self, st, args[0])
            if r is not None: yield st, r; return
        if isinstance(args[0], (int, str)): yield st, str(args[0]); return
        yield st, Opq('str')
    b_repr = b_str
    def b_int(self, st, args):
        x = args[0]
        if isinstance(x, (bool, int)): yield st, int(x); return
        if is_z3(x) and x.sort() == Int: yield st, x; return
        for r in self.extop(st, 'int', [x]): yield r
    b_long = b_int
    def b_float(self, st, args):
        raise Unsupported('float()')
    def b_bool(self, st, args):
        for a, x in self.split(st, args[0]):
            c = self.truth(a, x)
            yield a, c
    def b_dict(self, st, args):
        if args: raise Unsupported('dict()')
        ad = 'd%d' % uid(); st.heap[ad] = DictC(conc=[]); yield st, DRef(ad)
    def b_type(self, st, args):
        x = args[0]
        if isinstance(x, ObjT) and 'type:' + x.cls not in self.ext: yield st, ClsV(x.cls); return
        for r in self.extop(st, 'type', [x]): yield r
    def b_isinstance(self, st, args):
        x, c = args
        cs = c.items if isinstance(c, Tup) else [c]
        s = st
        acc = False
        for cc in cs:
            r = self.isinst(s, x, cc)
            acc = S(z3.Or(zbool(acc), zbool(r)))
            if acc is True: break
        yield s, acc
    def isinst(self, st, x, c):
        nm = c.name if isinstance(c, (ClsV, BI, ModV)) else None
        if nm and nm.startswith('ext:'): nm = nm[4:]
        for key, h in self.ext.items():
            if key.split(':')[0] != 'isinstance': continue
            r = h(self, st, x, nm)
            if r is not None: return r
        if nm in ('int', 'long'):
            if isinstance(x, bool): return True
            if isinstance(x, int) or (is_z3(x) and x.sort() == Int): return True
            if isinstance(x, (str, V)) or x is None: return False
        if nm in ('list',): return self.islist(x)
        if nm in ('tuple',): return isinstance(x, (Tup, TupSeq))
        if nm in ('str', 'basestring'): return isinstance(x, (str, Opq))
        if isinstance(x, ObjT): return x.cls == nm
        raise Unsupported('isinstance %s' % nm)

class HavocRead(Exception):
    def __init__(self, loc): self.loc = loc

def has_quant(f):
    seen = set(); st = [f]
    while st:
        e = st.pop()
        if z3.is_quantifier(e): return True
        k = e.get_id()
        if k in seen: continue
        seen.add(k)
        st.extend(e.children())
    return False
def free_in(e, c):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.eq(c): return True
        k = x.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False
def S2(e):
    r = S(e)
    return r if is_z3(r) else (z3.BoolVal(r) if isinstance(r, bool) else znum(r))
def znum2(x, y):
    a, b = znum(x), znum(y)
    if a.sort() != b.sort(): a, b = zreal(a), zreal(b)
    return a, b
def mkfun(prefix, sorts, rng):
    nm = '%s!%d' % (prefix, uid())
    if sorts: return z3.Function(nm, *sorts, rng)
    c = z3.Const(nm, rng)
    return lambda: c
def powfn(x): return z3.Function('pow%d' % x, Int, Int)
def forall(ps, body, pats):
    if not ps: return body
    # fresh bound constants
    bs = [z3.Const('b!%d' % uid(), p.sort()) for p in ps]
    sub = list(zip(ps, bs))
    body = z3.substitute(body, *sub)
    if pats:
        pp = [z3.substitute(p, *sub) for p in pats]
        # every bound variable has to occur in the pattern
        if all(any(free_in(p, b) for p in pp) for b in bs) and all(z3.is_app(p) and p.num_args() > 0 for p in pp):
            return z3.ForAll(bs, body, patterns=[z3.MultiPattern(*pp)] if len(pp) > 1 else pp)
    return z3.ForAll(bs, body)
