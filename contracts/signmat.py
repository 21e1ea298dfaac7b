"""The sign matrices: tables in memory and files on disk hold, under each name, one fixed matrix; the functions
return the n-fold Kronecker power of the base matrix, or its inverse, from any such state and keep it."""
import z3
from pyded.sym import *
from pyded.contract import Contract
from pyded.execu import DictC, State, RaiseV
from .dds import SIM, SINV
M = 'vts/matrix_of_signs.py'
CLS = 'SignInverse'
KP = z3.Function('KP', Int, SIM)            # n-fold Kronecker power of the base matrix
TENSOR = z3.Function('TENSOR', SIM, SIM, SIM)
INVM = z3.Function('INVM', SIM, SIM)
BASE3 = [[1, 1, 1], [0, 1, -1], [0, 1, 1]]
EEXIST = 17
def mat(t): return ObjT(CLS, t)
def power(t):
    """(KP or SINV, n) if t is one of these at a literal n"""
    if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ('KP', 'SINV') and z3.is_int_value(t.arg(0)): return t.decl(), t.arg(0).as_long()
class FileV(V):
    extcls = 'File'
    def __init__(self, path, mode): self.path, self.mode = path, mode
class NonInt(V): pass
class FS:
    """files: what was written since entry, over what was there on entry"""
    def __init__(self, inv, written=None, d=None): self.inv, self.written, self.dir = inv, dict(written or {}), d
class Inv:
    """what the files and tables hold; found by running the code once for each n, then checked to be kept"""
    def __init__(self): self.files, self.tables, self.init = {}, {}, {}; self.discover = True
def fs(st):
    if 'FS' not in st.heap: raise Unsupported('file access')
    return st.heap['FS']
def path_of(p):
    if not isinstance(p, str): raise Unsupported('file name')
    return p
def exists(ex, st, p):
    f = fs(st); p = path_of(p)
    if p in f.written: return True
    if f.inv.discover: return False
    return z3.Const('there!%s!%s' % (p, f.tag), Bool)
def snapshot(ex, st, v):
    if isinstance(v, DRef):
        c = st.heap[v.addr]
        if c.conc is None: raise Unsupported('pickle of a table')
        return ('dict', [(k, snapshot(ex, st, x)) for k, x in c.conc])
    if isinstance(v, ObjT) and v.cls == CLS: return ('mat', v.term)
    if v is None or isinstance(v, (int, str)): return ('val', v)
    raise Unsupported('pickle of %r' % (v,))
def restore(ex, st, c):
    if c[0] == 'mat': return mat(c[1])
    if c[0] == 'val': return c[1]
    a = 'd%d' % uid(); st.heap[a] = DictC(conc=[(k, restore(ex, st, x)) for k, x in c[1]])
    return DRef(a)
def same_content(a, b):
    """formula: equal contents"""
    if a is None or b is None or a[0] != b[0]: return z3.BoolVal(False)
    if a[0] == 'mat': return a[1] == b[1]
    if a[0] == 'val': return z3.BoolVal(a[1] == b[1])
    if [k for k, _ in a[1]] != [k for k, _ in b[1]]: return z3.BoolVal(False)
    return z3.And(*[same_content(x, y) for (_, x), (_, y) in zip(a[1], b[1])] or [z3.BoolVal(True)])
def x_open(ex, st, p, mode='r'):
    p = path_of(p)
    if 'w' in mode:
        f = fs(st); n = FS(f.inv, f.written, f.dir); n.tag = f.tag; n.written[p] = None; st.heap['FS'] = n
        return FileV(p, mode)
    out = []
    for s, t in ex.branch(st, exists(ex, st, p)):
        out.append((s, FileV(p, mode) if t else RaiseV(ExcV('IOError'))))
    return out
def x_dump(ex, st, obj, f, *a):
    if not isinstance(f, FileV) or 'w' not in f.mode: raise Unsupported('pickle.dump')
    c = snapshot(ex, st, obj); o = fs(st)
    n = FS(o.inv, o.written, o.dir); n.tag = o.tag; n.written[f.path] = c; st.heap['FS'] = n
    return None
def x_load(ex, st, f):
    if not isinstance(f, FileV) or 'r' not in f.mode: raise Unsupported('pickle.load')
    o = fs(st)
    if f.path in o.written:
        c = o.written[f.path]
        if c is None: return [(st, RaiseV(ExcV('Exception')))]
        return restore(ex, st, c)
    c = o.inv.files.get(f.path)
    return restore(ex, st, c) if c is not None else mat(z3.Const('content!' + f.path, SIM))
def x_makedirs(ex, st, p, *a):
    if fs(st).inv.discover: return None
    return [(s, RaiseV(ExcV('OSError')) if t else None) for s, t in ex.branch(st, exists(ex, st, 'dir:' + path_of(p)))]
def x_isdir(ex, st, p):
    if fs(st).inv.discover: return False
    return exists(ex, st, 'dir:' + path_of(p))
def x_join(ex, st, *ps):
    import posixpath
    return posixpath.join(*[path_of(p) for p in ps])
def x_tensor(ex, st, *ms):
    t = None
    for m in ms:
        if not isinstance(m, ObjT) or m.cls != CLS: raise Unsupported('TensorProduct')
        if t is None: t = m.term; continue
        a, b = power(t), power(m.term)
        t = a[0](a[1] + b[1]) if a and b and a[0].eq(b[0]) else TENSOR(t, m.term)
    return mat(t)
def x_inv(ex, st, m, *a, **kw):
    p = power(m.term)
    if p is None: return mat(INVM(m.term))
    return mat((SINV if p[0].eq(KP) else KP)(p[1]))
def size(ex, st, m):
    p = power(m.term)
    if p is None: raise Unsupported('size of an unknown matrix')
    return 3 ** p[1]
def literal(ex, st, rows):
    """a matrix given by its entries"""
    if isinstance(rows, ObjT) and rows.cls == CLS: return rows
    if not ex.islist(rows): return None
    q = ex.seq(st, rows)
    if not isinstance(q.n, int): return None
    out = []
    for i in range(q.n):
        r = q.get(i)
        if not ex.islist(r): return None
        rq = ex.seq(st, r)
        if not isinstance(rq.n, int) or rq.n < 2: return None
        vs = [concrete(rq.get(j)) for j in range(rq.n)]
        if not all(isinstance(x, int) for x in vs): return None
        out.append(vs)
    if out == BASE3: return mat(KP(1))
    return mat(z3.Const('matrix!' + repr(out), SIM))
def ext4(base):
    old = base['sympy.Matrix']
    def matrix(ex, st, rows):
        m = literal(ex, st, rows)
        return m if m is not None else old(ex, st, rows)
    def isinst(ex, st, x, nm):
        if isinstance(x, NonInt): return False
        return None
    return {'sympy.Matrix': matrix, 'sympy.physics.quantum.TensorProduct': x_tensor, 'meth:%s.inv' % CLS: x_inv, 'isinstance': isinst,
            'os.makedirs': x_makedirs, 'os.mkdir': x_makedirs, 'os.path.join': x_join, 'os.path.isfile': exists, 'os.path.exists': exists, 'os.path.isdir': x_isdir,
            'pickle.dump': x_dump, 'pickle.load': x_load, 'open': x_open, 'meth:File.close': lambda ex, st, f: None,
            'attr:%s.rows' % CLS: size, 'attr:%s.cols' % CLS: size, 'attr:%s.shape' % CLS: lambda ex, st, m: Tup([size(ex, st, m)] * 2),
            'excattr:errno': lambda ex, st, e: EEXIST}
def opts4(): return {'consts': {'errno.EEXIST': EEXIST, 'os.sep': '/'}, 'globals': {'open': BI('ext:open')}}

class SMat(Contract):
    def __init__(self, name, spec, public):
        Contract.__init__(self, M + ':' + name, ['int'], None, public=public, axioms=lambda: [])
        self.name, self.spec = name, spec
    # ---- calls: the tables and files are as the invariant says afterwards
    def call(self, ex, st, args, line):
        n = args[0]
        if isinstance(n, NonInt): yield st, RaiseV(ExcV('Exception')); return
        n = concrete(n)
        if not is_num(n) or not (isinstance(n, int) or znum(n).sort() == Int): raise Unsupported('argument of %s' % self.name)
        z = z3.IntVal(n) if isinstance(n, int) else n
        if ex.curfn and ex.curfn.startswith(M + ':') and isinstance(n, int) and n in range(1, 6):
            if getattr(ex, 'smrun', None) is not None and ex.curfn == self.qual and not ex.smrun[1].discover and isinstance(ex.smrun[0], int):
                ex.oblige(st, 'recursive call of %s: its argument decreases' % self.name, z3.BoolVal(n < ex.smrun[0]), line, 'term')
            if 'FS' in st.heap and not fs(st).inv.discover: self.arbitrary(ex, st, fs(st).inv)
            yield st, mat(self.spec(n)); return
        if ex.curfn == self.qual: raise Unsupported('recursive call of %s with a computed argument' % self.name)
        if 'FS' in st.heap and not fs(st).inv.discover: self.arbitrary(ex, st, fs(st).inv)
        for s, t in ex.branch(st, z3.Or(z < 1, z > 5)):
            yield s, (RaiseV(ExcV('Exception')) if t else mat(self.spec(z)))
    # ---- the module's state
    def tables(self, ex, st):
        """values of the module level names, from the module's own text"""
        m = ex.mods[M]
        for name, (k, n) in list(m.names.items()):
            if k != 'expr': continue
            ex.globals_state.pop((M, name), None); ex.gvals.pop((M, name), None)
        vals = {}
        sts = [(st, {})]
        for name, (k, n) in list(m.names.items()):
            if k != 'expr': continue
            nx = []
            for s, vs in sts:
                for nm, v in vs.items(): ex.globals_state[(M, nm)] = (lambda e, z, v=v: v)
                fid = ex.newframe(s, None, M, None)
                for s2, v in ex.ev(n, s, fid):
                    if isinstance(v, RaiseV): raise Unsupported('the module level value %s raises %s' % (name, v.exc.cls))
                    nx.append((s2, dict(vs, **{name: v})))
            sts = nx
            for nm in vals: pass
        return sts
    def arbitrary(self, ex, st, inv, tag=None):
        """any state of tables and files that the invariant allows"""
        f = FS(inv); f.tag = tag or str(uid()); st.heap['FS'] = f
        for name, addr in inv.addr.items():
            keys, init = inv.tables[name], inv.init[name]
            flags = {k: z3.BoolVal(True) if k in init else z3.Const('in!%s!%s!%s' % (name, k, f.tag), Bool) for k in keys}
            def has(z, flags=flags): return S2or([z3.And(z == k, b) for k, b in flags.items()])
            def get(z, keys=keys):
                if z3.is_int_value(z) and z.as_long() in keys: return mat(keys[z.as_long()])
                ks = sorted(keys); t = keys[ks[-1]]
                for k in ks[:-1]: t = z3.If(z == k, keys[k], t)
                return mat(t)
            st.heap[addr] = DictC(has=has, get=get, ksort=Int)
    def start(self, ex, inv):
        """bind the module's tables"""
        inv.addr = {}
        for (mod, name) in [k for k in ex.globals_state if k[0] == M]: del ex.globals_state[(mod, name)]
        for name, v in inv.values.items():
            if name in inv.tables:
                a = 'tab!' + name; inv.addr[name] = a
                ex.globals_state[(M, name)] = lambda e, s, a=a: DRef(a)
            elif isinstance(v, (DRef, Ref)): ex.globals_state[(M, name)] = lambda e, s, name=name: (_ for _ in ()).throw(Unsupported('module level value %s' % name))
            else: ex.globals_state[(M, name)] = lambda e, s, v=v: v
    def run(self, ex, st, qual, node, arg):
        ex.curfn = qual
        fid = ex.newframe(st, None, M, qual)
        f = FnV(node, None, qual, M)
        outs = []
        ex.stack.append(qual)
        try:
            for k, a, x in ex.bind(st, f, [arg], {}, fid):
                if k == 'raise': outs.append((k, a, x)); continue
                outs += ex.block(node['body'], a, fid)
        finally: ex.stack.pop()
        return outs
    def discover(self, ex):
        inv = Inv(); st = State(); f = FS(inv); f.tag = '0'; st.heap['FS'] = f
        sts = self.tables(ex, st)
        if len(sts) != 1: raise Unsupported('module level values')
        st, vals = sts[0]
        inv.values = vals
        for p, c in fs(st).written.items(): inv.files.setdefault(p, c)
        for name, v in vals.items():
            if not isinstance(v, DRef): continue
            c = st.heap[v.addr]
            if c.conc is None or not all(isinstance(k, int) and isinstance(x, ObjT) and x.cls == CLS for k, x in c.conc): continue
            inv.tables[name] = {k: x.term for k, x in c.conc}; inv.init[name] = set(k for k, x in c.conc)
        addr = {name: v.addr for name, v in vals.items() if name in inv.tables}
        for name in inv.tables: ex.globals_state[(M, name)] = lambda e, s, a=addr[name]: DRef(a)
        C = ex.contracts
        for q, c in sorted(C.items()):
            if not isinstance(c, SMat): continue
            k = ex.mods[M].names.get(c.name)
            if k is None or k[0] != 'fn': continue
            for n in range(1, 6):
                s = st.fork()
                n0 = len(ex.obls)
                outs = self.run(ex, s, q, k[1], n)
                del ex.obls[n0:]
                for kk, s2, x in outs:
                    if kk == 'raise': continue
                    for p, cc in fs(s2).written.items(): inv.files.setdefault(p, cc)
                    for name in inv.tables:
                        cell = s2.heap[addr[name]]
                        if cell.conc is None: raise Unsupported('table %s' % name)
                        for kx, v in cell.conc:
                            if not isinstance(kx, int) or not isinstance(v, ObjT): raise Unsupported('table %s' % name)
                            inv.tables[name].setdefault(kx, v.term)
        inv.discover = False
        return inv
    def check_state(self, ex, s, inv, nm):
        f = fs(s)
        for p, c in sorted(f.written.items()):
            if p in inv.files: ex.oblige(s, '%s: the cache file %s holds what it always holds' % (nm, p), same_content(c, inv.files[p]), None, 'inv')
        for name, a in sorted(inv.addr.items()):
            d = ex.globals_state[(M, name)](ex, s)
            c = s.heap[d.addr]
            keys = inv.tables[name]
            if c.conc is not None:
                c0 = c
                c = DictC(has=lambda z: S2or([z == k for k, _ in c0.conc]), get=lambda z: dict(c0.conc)[z.as_long()], ksort=Int)
            z = z3.Const('key!', Int)
            ex.oblige(s, '%s: the table %s has no other entries' % (nm, name), z3.Implies(c.has(z), S2or([z == k for k in keys])), None, 'inv')
            for k in sorted(keys):
                kz = z3.IntVal(k); h = z3.simplify(zbool(c.has(kz)))
                if k in inv.init[name]: ex.oblige(s, '%s: the table %s keeps its entry %d' % (nm, name, k), h, None, 'inv')
                if z3.is_false(h): continue
                g = c.get(kz)
                if not isinstance(g, ObjT) or g.cls != CLS: raise Unsupported('table %s' % name)
                ex.oblige(s, '%s: the table %s holds under %d what it always holds' % (nm, name, k), z3.Implies(h, g.term == keys[k]), None, 'inv')
    def verify(self, ex, node, mod):
        nm = self.name
        ex.smrun = None
        inv = self.discover(ex)
        self.start(ex, inv)
        good = []
        # importing the module in any state of the files
        if self.name == 'get_matrix':
            st = State(); f = FS(inv); f.tag = 'import'; st.heap['FS'] = f; ex.curfn = self.qual
            for s, vals in self.tables(ex, st):
                for p, c in sorted(fs(s).written.items()):
                    if p in inv.files: ex.oblige(s, 'import: the cache file %s holds what it always holds' % p, same_content(c, inv.files[p]), None, 'inv')
                for name in inv.tables:
                    v = vals[name]; c = s.heap[v.addr] if isinstance(v, DRef) else None
                    ok = c is not None and c.conc is not None and all(k in inv.tables[name] for k, _ in c.conc) and inv.init[name] <= set(k for k, _ in c.conc)
                    ex.oblige(s, 'import: the table %s starts as it should' % name, z3.And(*[x.term == inv.tables[name][k] for k, x in c.conc] + [z3.BoolVal(True)]) if ok else z3.BoolVal(False), None, 'inv')
            self.start(ex, inv)
        cases = [(str(n), n, None) for n in range(1, 6)]
        lo, hi = z3.Const('n!low', Int), z3.Const('n!high', Int)
        cases += [('below 1', lo, lo < 1), ('above 5', hi, hi > 5), ('not an integer', NonInt(), None)]
        for tag, n, cond in cases:
            st = State()
            if cond is not None: ex.assume(st, cond)
            self.arbitrary(ex, st, inv, 'entry')
            ex.smrun = (n, inv); ex.entry = (st.fork(), [n])
            for k, s, x in self.run(ex, st, self.qual, node, n):
                who = '%s(%s)' % (nm, tag)
                self.check_state(ex, s, inv, who)
                if k == 'raise':
                    ex.oblige(s, '%s raises %s only when it may' % (who, x.cls), z3.BoolVal(not isinstance(n, int)), None, 'raise'); continue
                if not isinstance(n, int):
                    ex.oblige(s, '%s is rejected' % who, z3.BoolVal(False), None, 'raise'); continue
                good.append((k, s, x))
                v = x if k == 'return' else None
                for s2, v2 in ex.split(s, v):
                    if not isinstance(v2, ObjT) or v2.cls != CLS: ex.oblige(s2, '%s returns a matrix' % who, z3.BoolVal(False), None, 'post')
                    else: ex.oblige(s2, '%s returns exactly the specified matrix' % who, v2.term == self.spec(n), None, 'post')
        return st, [], good
def S2or(xs): return z3.Or(*xs) if xs else z3.BoolVal(False)
def contracts():
    C = {}
    for name, spec, pub in (('get_matrix', KP, True), ('get_matrix_inverse', SINV, True), ('new_get_matrix', KP, False), ('new_get_matrix_inverse', SINV, False)):
        c = SMat(name, spec, pub); C[c.qual] = c
    return C
