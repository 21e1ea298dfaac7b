"""The sequent parser: every production of the input language is read as what it denotes. The grammar is the object
that the module builds; pyparsing's combinators are assumed to match as their documentation says (class Peg). Nested
terms and relations are used through the induction hypothesis that the grammar's own entry points read them rightly."""
import z3, string
from pyded.sym import *
from pyded.contract import Contract
from pyded.execu import State, RaiseV, FnV
from .conv import SY, PYI, NMUL, sym, fn
from . import sequent as sq
from .sequent import RL, RK, K, KIND, LHS, RHS, HOLDS, MEV, ENV, NEG, SSUB, SADD, rel, rl, tosym, fe
G = 'vts/grf_parser.py'
SMULS = fn('SMULS', SY, SY, SY); SDIV = fn('SDIV', SY, SY, SY)
NAT = fn('SNAT', Int, SY); FLT = fn('SFLT', Int, SY); RATI = fn('SRATD', Int, SY); VARI = fn('SVARI', Int, SY)
NV = fn('NATVAL', Int, Real); DV = fn('DECVAL', Int, Real); RND = fn('RNDVAL', Int, Real); LOOK = fn('LOOK', ENV, Int, Real)
def ax_gram():
    a = z3.Const('a!', SY); b = z3.Const('b!', SY); e = z3.Const('e!', ENV); n = z3.Int('n!'); A = z3.ForAll
    return [A([a, b, e], MEV(SMULS(a, b), e) == MEV(a, e) * MEV(b, e), patterns=[MEV(SMULS(a, b), e)]),
            A([a, b, e], z3.Implies(MEV(b, e) != 0, MEV(SDIV(a, b), e) == MEV(a, e) / MEV(b, e)), patterns=[MEV(SDIV(a, b), e)]),
            A([n, e], MEV(NAT(n), e) == NV(n), patterns=[MEV(NAT(n), e)]), A([n, e], MEV(FLT(n), e) == RND(n), patterns=[MEV(FLT(n), e)]),
            A([n, e], MEV(RATI(n), e) == DV(n), patterns=[MEV(RATI(n), e)]), A([n, e], MEV(VARI(n), e) == LOOK(e, n), patterns=[MEV(VARI(n), e)])] + sq.ax_rel()
# ------------------------------------------------------------------ text --
WS = ' \n\t\r'
LET = set(string.ascii_letters + '_'); DIG = set(string.digits); KWCH = LET | DIG | set('$')
ids = {}
def idof(x): return ids.setdefault(x, len(ids) + 1)
class Txt(V):
    """a piece of the input whose characters are not all known"""
    extcls = 'Txt'
    def __init__(self, units): self.units = tuple(units)
    def __eq__(self, o): return isinstance(o, Txt) and o.units == self.units
    def __hash__(self): return hash(self.units)
def mktxt(units):
    if all(u[0] == 'c' for u in units): return ''.join(u[1] for u in units)
    return Txt(units)
def chars(s): return [('c', c) for c in s]
class Cannot(Exception): pass
class Fail(Exception): pass
class Bad(Exception): pass
class Spread:
    def __init__(self, i): self.i = i
    def __repr__(self): return 'R%s...' % self.i
# ----------------------------------------------------------- pyparsing --
class PG(V):
    extcls = 'PG'
    def __init__(self, cls, **kw):
        self.cls = cls; self.acts = []; self.name = None; self.modal = True; self.skip = True; self.pre = True; self.aslist = False; self.exprs = []; self.origin = None; self.match = None
        self.__dict__.update(kw)
    def clone(self):
        g = PG(self.cls); g.__dict__.update(self.__dict__); g.acts = list(self.acts); g.origin = self
        return g
    def copy(self):
        if self.cls == 'Forward' and not self.exprs: return enh('Forward', self)
        g = self.clone()
        if self.cls in ('And', 'Or', 'MatchFirst'): g.exprs = [e.copy() for e in self.exprs]
        return g
    def root(self):
        r = self
        while r.origin is not None: r = r.origin
        return r
    def leave(self):
        self.skip = False
        if self.cls == 'Forward': return self
        if self.exprs:
            self.exprs = [e.copy() for e in self.exprs]
            for e in self.exprs: e.leave()
        return self
def lit(s):
    if isinstance(s, PG): return s
    if not isinstance(s, str): raise Unsupported('not an expression of the grammar: %r' % (s,))
    if s == '': raise Unsupported('empty literal')
    return PG('Literal', match=s)
def seqof(cls, es, aslist=False):
    es = [lit(e) for e in es]
    if not es: raise Unsupported('empty ' + cls)
    g = PG(cls, exprs=es, aslist=aslist, pre=False)
    if cls == 'And': g.skip = es[0].skip; g.pre = True
    return g
def enh(cls, e=None, **kw):
    g = PG(cls, **kw)
    if e is not None:
        e = lit(e); g.exprs = [e]; g.skip, g.aslist, g.pre = e.skip, e.aslist, e.pre
    if cls in ('Combine', 'Suppress', 'Group'): g.aslist = cls == 'Group'
    return g
def forward_set(f, e):
    if f.cls != 'Forward': raise Unsupported('<< on %s' % f.cls)
    e = lit(e); f.exprs = [e]; f.skip, f.aslist = e.skip, e.aslist
    return f
class PR:
    """results of a match: tokens in order, and those with names"""
    def __init__(self, toks, names=None): self.toks = list(toks); self.names = dict(names or {})
    def key(self): return ('PR', tuple(key(t) for t in self.toks), tuple(sorted(self.names)))
def key(t):
    if isinstance(t, PR): return t.key()
    if isinstance(t, ObjT): return ('obj', t.cls, t.term.get_id())
    if isinstance(t, Tup): return ('tup',) + tuple(key(x) for x in t.items)
    if isinstance(t, (str, Txt, int)): return t
    return ('id', id(t))
class PRV(Tup):
    extcls = 'PR'
    def __init__(self, pr): Tup.__init__(self, [tok(t) for t in pr.toks]); self.pr = pr
def tok(t):
    if isinstance(t, Spread): raise Unsupported('parse action on a list of unknown length')
    return PRV(t) if isinstance(t, PR) else t
def arity(f):
    a = f.node['args']; n = len(a['args']); d = len(a.get('defaults') or [])
    if f.selfv is not None: n -= 1
    for k in (3, 2, 1, 0):
        if n - d <= k <= n or (a.get('vararg') and k >= n - d): return k
    raise Bad('parse action with %d arguments' % n)
class Peg:
    def __init__(self, ex, st, ih): self.ex, self.st, self.ih, self.acache = ex, st, ih, {}
    def start(self, g, units):
        self.units = list(units); self.depth = 0; self.memo = {}
        return self.parse(g, 0, True, True)
    def skipws(self, g, p):
        if not g.skip: return p
        while p < len(self.units) and self.units[p][0] == 'w': p += 1
        return p
    def parse(self, g, p, act, callpre):
        self.depth += 1
        if self.depth > 120: raise Bad('unbounded recursion')
        try:
            k = (id(g), p, act, callpre)
            if k not in self.memo:
                try: self.memo[k] = self.parse1(g, p, act, callpre)
                except Fail as e: self.memo[k] = e
            r = self.memo[k]
            if isinstance(r, Fail): raise r
            return r[0], PR(r[1].toks, r[1].names)
        finally: self.depth -= 1
    def parse1(self, g, p, act, callpre):
        if callpre and g.pre: p = self.skipws(g, p)
        r = g.root(); u = self.units[p] if p < len(self.units) else None
        if u and u[0] in 'PR' and self.ih.get(u[0]) is r and g.acts == r.acts and g.exprs == r.exprs:
            q, toks = p + 1, [sym(z3.Const('T%s' % u[1], SY)) if u[0] == 'P' else rl(z3.Const('R%s' % u[1], RL))]
            return q, self.named(g, PR(toks), False)
        q, toks = self.impl(g, p, act)
        res = self.named(g, toks if isinstance(toks, PR) else PR(toks), g.aslist)
        if act:
            for a in g.acts:
                v = self.action(a, res)
                if v is None: continue
                if isinstance(v, PRV): r2 = PR(v.pr.toks, v.pr.names); al = g.aslist
                elif isinstance(v, (Ref, LV)):
                    q2 = self.ex.seq(self.st, v)
                    if q2.items is None: raise Unsupported('parse action returning a list of unknown length')
                    r2 = PR(q2.items); al = g.aslist
                else: r2 = PR([v]); al = False
                res = self.named(g, r2, al)
        return q, res
    def named(self, g, r, aslist):
        if not g.name: return r
        r = PR(r.toks, r.names)
        if r.toks == [] and not g.aslist and not r.names and g.cls not in ('Group',): 
            raise Unsupported('a named result that may be empty')
        if not g.modal: raise Unsupported('list of all matches')
        if aslist:
            r.names[g.name] = (PR(r.toks, r.names) if g.cls != 'Group' else r.toks[0])
        else:
            if len(r.toks) < 1 or isinstance(r.toks[0], Spread): raise Unsupported('name of an empty or unbounded result')
            r.names[g.name] = r.toks[0]
        return r
    def action(self, f, res):
        k = (id(f), res.key())
        if k in self.acache:
            if isinstance(self.acache[k], Bad): raise self.acache[k]
            return self.acache[k]
        if not isinstance(f, FnV): raise Unsupported('parse action %r' % (f,))
        args = [Opq('the text'), z3.Int('loc!'), PRV(res)]
        n = arity(f)
        out = list(self.ex.call(self.st.fork(), f, args[3 - n:]))
        if len(out) != 1: raise Unsupported('parse action with several outcomes')
        v = out[0][1]
        if isinstance(v, RaiseV): self.acache[k] = Bad('the parse action in line %s raises %s' % (f.node.get('l'), v.exc.cls)); raise self.acache[k]
        if isinstance(v, Un): raise Unsupported('parse action with several outcomes')
        self.keep = getattr(self, 'keep', []); self.keep.append((f, res, v))
        self.acache[k] = v
        return v
    # ------------------------------------------------------------ leaves --
    def unit(self, p):
        if p >= len(self.units): raise Fail()
        return self.units[p]
    def first(self, u):
        """set of characters that may come first, or None"""
        return {'dig': DIG, 'id': LET, 'w': set(WS), 'P': {'('}, 'R': {'('}}.get(u[0])
    def lit(self, s, p):
        for i, c in enumerate(s):
            u = self.unit(p + i)
            if u[0] == 'c':
                if u[1] != c: raise Fail()
                continue
            f = self.first(u)
            if f is not None and c not in f: raise Fail()
            raise Cannot('%r in the middle of %s' % (s, u[0]))
        return p + len(s)
    def notin(self, p, cs):
        """the character at p is not one of cs"""
        if p >= len(self.units): return True
        u = self.units[p]
        if u[0] == 'c': return u[1] not in cs
        f = self.first(u)
        if f is None:
            if u[0] == 'RS': return '(' not in cs and self.notin(p + 1, cs)
            raise Cannot('look at %s' % u[0])
        if not (f & set(cs)): return True
        if f <= set(cs): return False
        raise Cannot('some of %s' % u[0])
    def before(self, p, cs):
        """the character before p is not one of cs"""
        if p == 0: raise Cannot('what comes before')
        u = self.units[p - 1]
        if u[0] == 'c': return u[1] not in cs
        if u[0] in ('P', 'R'): return ')' not in cs
        if u[0] == 'w': return not (set(WS) & set(cs))
        if u[0] == 'RS': return ')' not in cs and self.before(p - 1, cs)
        raise Cannot('what comes before')
    def impl(self, g, p, act):
        c = g.cls
        if c == 'Literal':
            q = self.lit(g.match, p); return q, [g.match]
        if c == 'Keyword':
            q = self.lit(g.match, p)
            if not self.notin(q, g.ident) or not self.before(p, g.ident): raise Fail()
            return q, [g.match]
        if c == 'Word': return self.word(g, p)
        if c == 'Quoted':
            u = self.unit(p)
            if u[0] != 'c':
                f = self.first(u)
                if f is not None and g.match not in f: raise Fail()
                raise Cannot('quote in %s' % u[0])
            if u[1] != g.match: raise Fail()
            if self.unit(p + 1)[0] != 'q' or self.unit(p + 2) != ('c', '"') or g.match != '"' or not g.multi or g.esc: raise Cannot('quoted text')
            return p + 3, [mktxt(self.units[p + 1:p + 2] if g.unquote else self.units[p:p + 3])]
        if c == 'Empty': return p, []
        if c == 'And':
            q, res = self.parse(g.exprs[0], p, act, False)
            res = PR(res.toks, res.names)
            for e in g.exprs[1:]:
                q, r = self.parse(e, q, act, True)
                res.toks += r.toks; res.names.update(r.names)
            return q, res
        if c == 'MatchFirst':
            for e in g.exprs:
                try: return self.parse(e, p, act, True)
                except Fail: pass
            raise Fail()
        if c == 'Or':
            best = None
            for e in g.exprs:
                try: q = self.parse(e, p, False, True)[0]
                except Fail: continue
                if best is None or q > best[0]: best = (q, e)
            if best is None: raise Fail()
            return self.parse(best[1], p, act, True)
        if not g.exprs: raise Bad('%s is never defined' % c)
        e = g.exprs[0]
        if c in ('ZeroOrMore', 'OneOrMore'): return self.rep(g, e, p, act)
        if c == 'Optional':
            try: return self.parse(e, p, act, False)
            except Fail: return p, []
        if c == 'NotAny':
            try: self.parse(e, p, False, True)
            except Fail: return p, []
            raise Fail()
        if c == 'FollowedBy':
            self.parse(e, p, False, True); return p, []
        q, r = self.parse(e, p, act, False)
        if c == 'Group': return q, PR([r])
        if c == 'Suppress': return q, []
        if c == 'Combine':
            us = []
            for t in r.toks:
                if isinstance(t, str): us += chars(t)
                elif isinstance(t, Txt): us += list(t.units)
                else: raise Unsupported('Combine of something that is not text')
            return q, PR([mktxt(us)], r.names)
        if c == 'Forward': return q, r
        raise Unsupported('grammar element ' + c)
    def word(self, g, p):
        q = p
        while True:
            cs = g.init if q == p else g.body
            if q >= len(self.units):
                if q == p: raise Fail()
                break
            if self.units[q][0] in ('dig', 'id'):
                if q > p and self.units[q][0] == 'id' and self.units[q - 1][0] == 'dig': raise Cannot('number and name run together')
                f, rest = (DIG, DIG) if self.units[q][0] == 'dig' else (LET, LET | DIG)
                if not (f & cs):
                    if q == p: raise Fail()
                    break
                if f <= cs and rest <= g.body: q += 1; continue
                raise Cannot('only part of %s is matched' % ('a number' if f is DIG else 'a name'))
            if self.notin(q, cs):
                if q == p: raise Fail()
                break
            q += 1
        return q, [mktxt(self.units[p:q])]
    def rep(self, g, e, p, act):
        if g.name is not None: raise Unsupported('named repetition')
        toks = PR([]); first = True; n = 0
        while True:
            k = self.skipws(e, p) if (e.pre and not first) else p
            if k < len(self.units) and self.units[k][0] == 'RS':
                if g.cls == 'OneOrMore' and n == 0: raise Cannot('an empty list')
                i = self.units[k][1]
                R = ('R', '%s.k' % i); save = (self.units, self.memo)
                pre, post = self.units[:k], self.units[k + 1:]
                try:
                    for mid in ([R], [R, ('RS', i)], [R, ('w',), ('RS', i)]):
                        for cp in (True, False):
                            self.units = pre + mid + post; self.memo = {}
                            q, r = self.parse(e, k, act, cp)
                            if q != k + 1: raise Cannot('a repeated element is not read exactly')
                            if act and not (len(r.toks) == 1 and isinstance(r.toks[0], ObjT) and r.toks[0].cls == 'Rel' and r.toks[0].term.eq(z3.Const('R%s.k' % i, RL))): raise Bad('a repeated element is read as something else')
                            if r.names: raise Unsupported('names in a repetition')
                finally: self.units, self.memo = save
                toks.toks.append(Spread(i)); p = k + 1; n += 1; first = False
                continue
            try: q, r = self.parse(e, p, act, not first)
            except Fail:
                if g.cls == 'OneOrMore' and n == 0: raise
                break
            if q == p: raise Bad('endless repetition')
            toks.toks += r.toks; toks.names.update(r.names); p = q; first = False; n += 1
        return p, toks
# ------------------------------------------ executing the module itself --
def gext():
    def ctor(cls, **kw): return lambda ex, st, *a, **k: mk(cls, a, k, kw)
    def mk(cls, a, k, kw):
        if k: raise Unsupported('option of %s' % cls)
        if len(a) > 1: raise Unsupported('options of %s' % cls)
        return enh(cls, a[0] if a else None)
    def keyword(ex, st, s, ident=None):
        if not isinstance(s, str) or not s: raise Unsupported('keyword')
        if ident is not None and not isinstance(ident, str): raise Unsupported('keyword characters')
        return PG('Keyword', match=s, ident=set(ident) if ident is not None else KWCH)
    def word(ex, st, init, body=None, **k):
        if k or not isinstance(init, str) or not (body is None or isinstance(body, str)): raise Unsupported('options of Word')
        return PG('Word', init=set(init), body=set(body) if body else set(init))
    def quoted(ex, st, q=None, escChar=None, escQuote=None, multiline=False, unquoteResults=True, endQuoteChar=None, quoteChar=None):
        q = quoteChar if q is None else q
        if not isinstance(q, str) or len(q) != 1 or (endQuoteChar is not None and endQuoteChar != q): raise Unsupported('quotes')
        if escChar is not None or escQuote is not None: raise Unsupported('escapes in quoted text')
        return PG('Quoted', match=q, multi=multiline is True, unquote=unquoteResults is True, esc=False)
    def lst(ex, st, v):
        q = ex.seq(st, v)
        if q.items is None: raise Unsupported('grammar of unknown size')
        return q.items
    def add(ex, st, a, b):
        return seqof('And', [a, b], True)
    def nomore(acts): 
        for a in acts:
            if not isinstance(a, FnV): raise Unsupported('parse action %r' % (a,))
        return list(acts)
    def setact(ex, st, g, *fs, **k):
        if k: raise Unsupported('option of setParseAction')
        g.acts = nomore(fs); return g
    def addact(ex, st, g, *fs, **k):
        if k: raise Unsupported('option of addParseAction')
        g.acts = g.acts + nomore(fs); return g
    def setname(ex, st, g, name, *a):
        if a or not isinstance(name, str) or name.endswith('*') or not name: raise Unsupported('result name')
        h = g.copy(); h.name = name; return h
    def call(ex, st, g, name=None): return g.copy() if name is None else setname(ex, st, g, name)
    def suppress(ex, st, g): return g if g.cls == 'Suppress' else enh('Suppress', g)
    def combine(ex, st, e, join='', adjacent=True):
        if join != '' or adjacent is not True: raise Unsupported('options of Combine')
        g = enh('Combine', e); g.leave(); g.skip = True; g.pre = True; return g
    def seqc(cls): return lambda ex, st, v, *a: seqof(cls, lst(ex, st, v), cls == 'And')
    def optional(ex, st, e, *a):
        if a: raise Unsupported('default of Optional')
        return enh('Optional', e)
    def notany(ex, st, e):
        g = enh('NotAny', e); g.skip = False; return g
    d = {'pyparsing.Literal': lambda ex, st, s: lit(s), 'pyparsing.Keyword': keyword, 'pyparsing.Word': word, 'pyparsing.QuotedString': quoted,
         'pyparsing.Optional': optional, 'pyparsing.Combine': combine, 'pyparsing.Group': ctor('Group'), 'pyparsing.Suppress': ctor('Suppress'), 'pyparsing.Forward': ctor('Forward'),
         'pyparsing.ZeroOrMore': ctor('ZeroOrMore'), 'pyparsing.OneOrMore': ctor('OneOrMore'), 'pyparsing.FollowedBy': ctor('FollowedBy'), 'pyparsing.NotAny': notany, 'pyparsing.And': seqc('And'), 'pyparsing.Or': seqc('Or'), 'pyparsing.MatchFirst': seqc('MatchFirst'), 'pyparsing.Empty': lambda ex, st: PG('Empty'),
         'meth:PG.setParseAction': setact, 'meth:PG.addParseAction': addact, 'meth:PG.setResultsName': setname, 'meth:PG.suppress': suppress, 'meth:PG.copy': lambda ex, st, g: g.copy(),
         'meth:PG.leaveWhitespace': lambda ex, st, g: g.leave(), 'meth:PG.setName': lambda ex, st, g, n: g, 'call:PG': call,
         'meth:PR.asList': lambda ex, st, t: ex.alloc(st, seq_items(t.items)),
         'LShift:PG,PG': lambda ex, st, a, b: forward_set(a, b), 'LShift:PG,str': lambda ex, st, a, b: forward_set(a, b)}
    for op, f in (('Add', add), ('BitOr', lambda ex, st, a, b: seqof('MatchFirst', [a, b])), ('BitXor', lambda ex, st, a, b: seqof('Or', [a, b]))):
        for k in ('PG,PG', 'PG,str', 'str,PG'): d[op + ':' + k] = f
    # text and numbers
    def parts(t):
        us = list(t.units) if isinstance(t, Txt) else chars(t); neg = False
        if us and us[0] == ('c', '-'): neg = True; us = us[1:]
        return neg, us
    def signed(neg, v): return sym(NEG(v.term)) if neg else v
    def integer(ex, st, t):
        if isinstance(t, int): return sym(PYI(z3.IntVal(t)))
        if not isinstance(t, (Txt, str)): raise Unsupported('sympy.Integer of %r' % (t,))
        neg, us = parts(t)
        if len(us) != 1 or us[0][0] != 'dig': return RaiseV(ExcV('ValueError'))
        return signed(neg, sym(NAT(z3.IntVal(idof(us[0])))))
    def dec(us): return (len(us) == 1 and us[0][0] == 'dig') or (len(us) == 3 and us[0][0] == 'dig' and us[1] == ('c', '.') and us[2][0] == 'dig') or (len(us) == 2 and us[0][0] == 'dig' and us[1] == ('c', '.'))
    def num(f, nat):
        def h(ex, st, t):
            if not isinstance(t, Txt): raise Unsupported('a number from %r' % (t,))
            neg, us = parts(t)
            if not dec(us): return RaiseV(ExcV('ValueError'))
            if nat and len(us) == 1: return signed(neg, sym(NAT(z3.IntVal(idof(us[0])))))
            return signed(neg, sym(f(z3.IntVal(idof(tuple(us))))))
        return h
    def symbol(ex, st, t):
        if isinstance(t, str): return sym(VARI(z3.IntVal(idof(t))))
        if isinstance(t, Txt) and len(t.units) == 1 and t.units[0][0] == 'id': return sym(VARI(z3.IntVal(idof(t.units[0]))))
        raise Unsupported('the name of a variable is changed')
    def txteq(ex, st, a, b):
        if isinstance(a, str): a, b = b, a
        if isinstance(b, Txt):
            if a == b: return True
            raise Unsupported('comparison of texts')
        for i, u in enumerate(a.units):
            if i >= len(b): return False
            f = {u[1]} if u[0] == 'c' else {'dig': DIG, 'id': LET}.get(u[0])
            if f is None: raise Unsupported('comparison of texts')
            if b[i] not in f: return False
            if u[0] != 'c': raise Unsupported('comparison of texts')
        return len(b) == len(a.units)
    def txtitem(ex, st, t, i):
        if i == 0 and t.units[0][0] == 'c': return t.units[0][1]
        if i == 0: return Txt((('1st',) + t.units[0],)) if False else NotImplemented
        raise Unsupported('character of a text')
    def sop(f): return lambda ex, st, a, b: sym(f(tosym(a).term, tosym(b).term))
    for op, f in (('Add', SADD), ('Sub', SSUB), ('Mult', SMULS), ('Div', SDIV), ('TrueDiv', SDIV)):
        for k in ('Sym,Sym', 'Sym,Int', 'Int,Sym'): d[op + ':' + k] = sop(f)
    for nm, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('div', 'Div'), ('truediv', 'Div')):
        d['operator.' + nm] = d[op + ':Sym,Sym']
    d['operator.neg'] = lambda ex, st, a: sym(NEG(a.term)); d['neg:Sym'] = d['operator.neg']
    for nm, f in (('Add', SADD), ('Mul', SMULS)):
        d['sympy.' + nm] = (lambda f: lambda ex, st, a, b: sym(f(tosym(a).term, tosym(b).term)))(f)
    def power(ex, st, a, n):
        if n == -1: return sym(SDIV(PYI(z3.IntVal(1)), a.term))
        if n == 1: return a
        raise Unsupported('power')
    d.update({'Pow:Sym,Int': power, 'sympy.Integer': integer, 'sympy.Float': num(FLT, False), 'sympy.Rational': num(RATI, True), 'sympy.Symbol': symbol,
              'Eq:Txt,str': txteq, 'Eq:str,Txt': txteq, 'Eq:Txt,Txt': txteq, 'getitem:Txt,Int': txtitem})
    for k in sq.SIX:
        d['new:sympy.' + sq.ALIAS[k]] = (lambda k: lambda ex, st, a, b=0: rl(sq.MK(K[k], tosym(a).term, tosym(b).term)))(k)
    def noname(ex, st, *a): raise Unsupported('sympy.var binds a name in the module')
    d['sympy.var'] = d['sympy.symbols'] = noname
    return d
CH = {'pyparsing.nums': string.digits, 'pyparsing.alphas': string.ascii_letters, 'pyparsing.alphanums': string.ascii_letters + string.digits, 'string.digits': string.digits, 'string.ascii_letters': string.ascii_letters, 'string.letters': string.ascii_letters}
# --------------------------------------------------- the input language --
def atoms(i):
    """(kind, units, value(e) possible values)"""
    d = ('dig', 'n%d' % i); f = ('dig', 'f%d' % i); v = ('id', 'v%d' % i)
    D = z3.IntVal(idof((d, ('c', '.'), f))); n = NV(z3.IntVal(idof(d)))
    out = [('name', [v], lambda e: [LOOK(e, z3.IntVal(idof(v)))])]
    for neg in (False, True):
        m = chars('-') if neg else []; s = (lambda x: -x) if neg else (lambda x: x)
        out += [('negative integer' if neg else 'integer', m + [d], (lambda s: lambda e: [s(n)])(s)),
                ('negative integer with a point' if neg else 'integer with a point', m + [d, ('c', '.')], (lambda s: lambda e: [s(n)])(s)),
                ('negative decimal' if neg else 'decimal', m + [d, ('c', '.'), f], (lambda s: lambda e: [s(RND(D)), s(DV(D))])(s))]
    return out
def operands(i): return atoms(i) + [('term in parentheses', [('P', i)], lambda e: [MEV(z3.Const('T%d' % i, SY), e)])]
def paren(k): return k == 'term in parentheses'
BIN = [('+', lambda a, b: a + b), ('*', lambda a, b: a * b), ('-', lambda a, b: a - b), ('/', lambda a, b: (b != 0, a / b))]
REL = [('<=', 'Le'), ('<', 'Lt'), ('=', 'Eq'), ('!=', 'Ne'), ('>=', 'Ge'), ('>', 'Gt')]
X = ('X',)
def spaced(parts):
    """parts: units lists with, between them, the least white space that separates them (0 or 1)"""
    outs = [[]]
    for p in parts:
        if isinstance(p, int): outs = [o + w for o in outs for w in ([[('w',)]] if p else [[], [('w',)]])]
        else: outs = [o + p for o in outs]
    return outs
def show(us): return ''.join({'c': lambda u: u[1], 'w': lambda u: ' ', 'X': lambda u: '...'}.get(u[0], lambda u: '<%s>' % u[1])(u) for u in us)
def anyof(e, vals, spec):
    return z3.Or(*[v == s for v in [vals] for s in spec])
class GrammarC(Contract):
    module = True
    def __init__(self, name):
        Contract.__init__(self, G + ':' + name, [], 'any', public=True, axioms=lambda: ax_gram())
        self.entry = name
    def verify(self, ex, node, mod):
        st = State(); ex.curfn = self.qual
        ex.ext = dict(ex.ext, **gext()); ex.opts = dict(ex.opts, consts=dict(ex.opts.get('consts', {}), **CH), inline_all=True)
        fid = ex.newframe(st, None, mod, None)
        ex.unroll_all = True
        outs = ex.block(ex.mods[mod].tree['body'], st, fid)
        if len(outs) != 1 or outs[0][0] != 'next': raise Unsupported('the module does not run to its end')
        st = outs[0][1]; fr = st.frames[fid]
        ih = {}
        for n, u in (('term', 'P'), ('rln', 'R')):
            if isinstance(fr.get(n), PG): ih[u] = fr[n].root() if fr[n].origin is None else fr[n]
        g = fr.get(self.entry)
        if not isinstance(g, PG): raise Unsupported('%s is not an expression of the grammar' % self.entry)
        self.peg = Peg(ex, st, ih); self.ex, self.st, self.seen = ex, st, {}
        getattr(self, 'spec_' + self.entry)(g)
        return st, [], []
    def run(self, what, g, units, follow, exact, goal):
        """goal(tokens) -> formula about the single token"""
        nm = '%s: %s' % (self.entry, what)
        e = self.seen.setdefault(nm, dict(n=0, goals={}, bad=None))
        e['n'] += 1
        try:
            q, r = self.peg.start(g, units + follow)
            ends = {len(units)} if exact else {len(units), len(units) + (1 if follow and follow[0][0] == 'w' else 0)}
            if q not in ends: raise Bad('reads %s' % show((units + follow)[:q]))
            f = goal(r)
            e['goals'][f.sexpr()] = f
        except Fail: e['bad'] = e['bad'] or 'does not parse: %s' % show(units + follow)
        except (Bad, Cannot) as x: e['bad'] = e['bad'] or '%s: %s' % (x, show(units + follow))
    def finish(self):
        for nm, e in self.seen.items():
            if e['bad']: self.ex.oblige(self.st, '%s: is read to its end (%s)' % (nm, e['bad']), z3.BoolVal(False), None, 'post'); continue
            self.ex.oblige(self.st, '%s: is read to its end, in each of %d spellings' % (nm, e['n']), z3.BoolVal(True), None, 'post')
            for f in e['goals'].values(): self.ex.oblige(self.st, '%s: denotes the right value' % nm, f, None, 'post')
    def one(self, r, cls):
        if len(r.toks) != 1 or not isinstance(r.toks[0], ObjT) or r.toks[0].cls != cls: raise Bad('read as %r' % (r.toks,))
        return r.toks[0].term
    def value(self, spec):
        def f(r):
            t = self.one(r, 'Sym')
            e = z3.Const('E!', ENV); ss = spec(e)
            alts = [z3.Implies(s[0], MEV(t, e) == s[1]) if isinstance(s, tuple) else MEV(t, e) == s for s in ss]
            return z3.Or(*[z3.ForAll([e], a) for a in alts]) if len(alts) > 1 else z3.ForAll([e], alts[0])
        return f
    def atomfollow(self):
        w = ('w',)
        return [[], chars(')') + [X], chars('(') + [X], [w]] + [[w] + x + [X] for x in (chars(')'), chars('('), chars('-'), [('dig', 'z')], [('id', 'z')])]
    def spec_term(self, g):
        for k, us, val in atoms(0):
            for fo in self.atomfollow(): self.run(k, g, us, fo, False, self.value(val))
        for op, f in BIN:
            for k0, u0, v0 in operands(0):
                for k1, u1, v1 in operands(1):
                    spec = lambda e: [f(a, b) for a in v0(e) for b in v1(e)]
                    for us in spaced([chars('('), 0, chars(op), 0 if paren(k0) else 1, u0, 0 if paren(k0) or paren(k1) else 1, u1, 0, chars(')')]):
                        self.run('(%s a b)' % op, g, us, [X], True, self.value(spec))
        for k0, u0, v0 in operands(0):
            for us in spaced([chars('(') , 0, chars('-'), 0 if paren(k0) else 1, u0, 0, chars(')')]):
                self.run('(- a)', g, us, [X], True, self.value(lambda e: [-a for a in v0(e)]))
        self.finish()
    def spec_rln(self, g):
        for op, k in REL:
            for k0, u0, v0 in operands(0):
                for k1, u1, v1 in operands(1):
                    def goal(r):
                        t = self.one(r, 'Rel'); e = z3.Const('E!', ENV)
                        alts = [z3.ForAll([e], HOLDS(t, e) == rel(k, a, b)) for a in v0(e) for b in v1(e)]
                        kind = z3.Or(KIND(t) == K[k], KIND(t) == K['True'], KIND(t) == K['False'])
                        return z3.And(z3.Or(*alts) if len(alts) > 1 else alts[0], kind)
                    for us in spaced([chars('('), 0, chars(op), 0 if paren(k0) else 1, u0, 0 if paren(k0) or paren(k1) else 1, u1, 0, chars(')')]):
                        self.run('(%s a b)' % op, g, us, [X], True, goal)
        self.finish()
    def spec_cmd(self, g):
        def goal(r):
            def want(x, v):
                if not (isinstance(x, PR) and len(x.toks) == 1 and isinstance(x.toks[0], Spread) and x.toks[0].i == v): raise Bad('%s is read as %r' % (v, x.toks if isinstance(x, PR) else x))
            for side in ('antecedent', 'succedent'):
                s = r.names.get(side)
                if not isinstance(s, PR) or 'fmls' not in s.names: raise Bad('no result %s' % side)
                want(s.names['fmls'], side)
            if r.names.get('str_name') != Txt([('q', 'name')]): raise Bad('the name is read as %r' % (r.names.get('str_name'),))
            return z3.BoolVal(True)
        for us in spaced([chars('('), 0, chars('sequent'), 0, chars('"') + [('q', 'name')] + chars('"'), 0, chars('('), 0, chars('antecedent'), 0, [('RS', 'antecedent')], 0, chars(')'), 0, chars('('), 0, chars('succedent'), 0, [('RS', 'succedent')], 0, chars(')'), 0, chars(')')]):
            self.run('(sequent "name" (antecedent ...) (succedent ...))', g, us, [X], True, goal)
        self.finish()
def contracts():
    return {G + ':' + n: GrammarC(n) for n in ('term', 'rln', 'cmd')}
