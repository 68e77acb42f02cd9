"""Terms of the verifier: canonical polynomials (Laurent in single atoms) with
exact rational coefficients over interned atoms, and formulas over them.

Atom sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B' (boolean variable).
Atom kinds: var, app (uninterpreted function), ite, inv (reciprocal of a polynomial),
sel (element of a symbolic array)."""
from fractions import Fraction

class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'sort', 'base', 'depth')
    def __repr__(s): return show_atom(s)

ATOMS = []
_atab = {}

def reset():
    ATOMS.clear(); _atab.clear(); _ftab.clear(); _init_f()

def _mk(kind, name, args, sort):
    key = (kind, name, args, sort)
    a = _atab.get(key)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.name = name; a.args = args; a.sort = sort; a.base = None; a.depth = 0
        d = 0
        for x in args:
            if isinstance(x, (Poly, F)): d = max(d, x.depth() + 1)
        a.depth = d
        ATOMS.append(a); _atab[key] = a
    return a

def num(x):
    if isinstance(x, Fraction) and x.denominator == 1: return x.numerator
    return x

class Poly:
    __slots__ = ('m', '_h', '_k')
    def __init__(self, m):
        self.m = m; self._h = None; self._k = None
    def key(self):
        if self._k is None: self._k = tuple(sorted(self.m.items()))
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.m == o.m)
    def is_const(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def const(self): return self.m.get((), 0)
    def depth(self):
        d = 0
        for mon in self.m:
            for a, e in mon: d = max(d, ATOMS[a].depth)
        return d
    def __add__(self, o):
        if len(self.m) < len(o.m): self, o = o, self
        r = dict(self.m)
        for k, v in o.m.items():
            c = r.get(k)
            if c is None: r[k] = v
            else:
                c = c + v
                if c == 0: del r[k]
                else: r[k] = num(c)
        return Poly(r)
    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o): return self + (-o)
    def scale(self, c):
        if c == 0: return ZERO
        return Poly({k: num(v * c) for k, v in self.m.items()})
    def __mul__(self, o):
        if o.is_const(): return self.scale(o.const())
        if self.is_const(): return o.scale(self.const())
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = mulmon(k1, k2); c = r.get(k, 0) + v1 * v2
                if c == 0: r.pop(k, None)
                else: r[k] = num(c)
        return Poly(r)
    def atoms(self):
        return {a for mon in self.m for a, e in mon}
    def is_int(self):
        for mon, c in self.m.items():
            if isinstance(c, Fraction): return False
            for a, e in mon:
                if ATOMS[a].sort != 'I' or e < 0: return False
        return True
    def __repr__(self): return show(self)

def mulmon(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0: del d[k]
        else: d[k] = n
    return tuple(sorted(d.items()))

ZERO = Poly({}); ONE = Poly({(): 1})
def C(c):
    c = num(Fraction(c)) if not isinstance(c, int) else c
    return Poly({(): c}) if c != 0 else ZERO
def of_atom(a): return Poly({((a.id, 1),): 1})
_fresh = [0]
def var(name, sort='R'): return of_atom(_mk('var', name, (), sort))
def app(name, args, sort='R'): return of_atom(_mk('app', name, tuple(args), sort))
def sel(arr, idx, sort='R'): return of_atom(_mk('sel', arr, (idx,), sort))
def ite(c, a, b, sort='R'):
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    if a.is_int() and b.is_int(): sort = 'I'
    return of_atom(_mk('ite', '', (c, a, b), sort))
def atom1(p):
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if v == 1 and len(k) == 1 and k[0][1] == 1: return ATOMS[k[0][0]]
    return None

def recip(p):
    """1/p, p assumed nonzero"""
    if len(p.m) == 1:
        (k, v), = p.m.items()
        return Poly({tuple((a, -e) for a, e in k): num(Fraction(1) / v)})
    # normalise leading coefficient; factor out common monomial with negative powers
    k0 = min(p.m); c = p.m[k0]
    q = p.scale(Fraction(1) / c)
    return of_atom(_mk('inv', '', (q,), 'R')).scale(Fraction(1) / c)

def ppow(p, n):
    r = ONE
    for _ in range(n): r = r * p
    return r

def clear_inv(p):
    """multiply away reciprocals (nonzero denominators assumed): returns polynomial q with q==0 <=> p==0"""
    for _ in range(20):
        inv = None
        for mon in p.m:
            for a, e in mon:
                if ATOMS[a].kind == 'inv': inv = a; break
            if inv is not None: break
        if inv is None: return p
        q = ATOMS[inv].args[0]
        d = max((dict(mon).get(inv, 0) for mon in p.m))
        mn = min((dict(mon).get(inv, 0) for mon in p.m))
        r = ZERO
        for mon, c in p.m.items():
            md = dict(mon); e = md.pop(inv, 0)
            r = r + Poly({tuple(sorted(md.items())): c}) * ppow(q, d - e)
        p = r
    return p

def support(x, acc=None):
    """ids of 'var' atoms (and array names) below x"""
    if acc is None: acc = set()
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            for a in y.atoms():
                if a in seen: continue
                seen.add(a); A = ATOMS[a]
                if A.kind == 'var': acc.add(a)
                else:
                    if A.kind == 'sel': acc.add(('arr', A.name))
                    st.extend(A.args)
        elif isinstance(y, F):
            if y.op == 'bvar': acc.add(y.args[0])
            elif y not in seen:
                seen.add(y); st.extend(y.args)
    return acc

def subst(x, sub, arrsub=None, memo=None):
    """sub: {atom id: Poly}; arrsub: {array name: fn(idx Poly)->Poly}"""
    if memo is None: memo = {}
    if isinstance(x, F):
        r = memo.get(x)
        if r is not None: return r
        if x.op in ('le', 'lt', 'eq'): r = mkcmp(x.op, subst(x.args[0], sub, arrsub, memo))
        elif x.op == 'and': r = And(*[subst(a, sub, arrsub, memo) for a in x.args])
        elif x.op == 'or': r = Or(*[subst(a, sub, arrsub, memo) for a in x.args])
        elif x.op == 'not': r = Not(subst(x.args[0], sub, arrsub, memo))
        elif x.op == 'bvar' and x.args[0] in sub: r = sub[x.args[0]]
        else: r = x
        memo[x] = r
        return r
    if not isinstance(x, Poly): return x
    need = False
    rep = {}
    for a in x.atoms():
        r = _subatom(a, sub, arrsub, memo)
        rep[a] = r
        if r is not None: need = True
    if not need: return x
    out = ZERO
    for mon, c in x.m.items():
        t = C(c)
        keep = []
        for a, e in mon:
            r = rep[a]
            if r is None: keep.append((a, e))
            elif e > 0: t = t * ppow(r, e)
            else: t = t * ppow(recip(r), -e)
        out = out + t * Poly({tuple(keep): 1})
    return out

def _subatom(a, sub, arrsub, memo):
    if a in sub: return sub[a]
    if a in memo: return memo[a]
    A = ATOMS[a]; r = None
    if A.kind != 'var':
        na = tuple(subst(z, sub, arrsub, memo) for z in A.args)
        if A.kind == 'sel' and arrsub and A.name in arrsub:
            r = arrsub[A.name](na[0])
        elif na != A.args:
            if A.kind == 'ite': r = ite(na[0], na[1], na[2], A.sort)
            elif A.kind == 'inv': r = recip(na[0])
            else: r = of_atom(_mk(A.kind, A.name, na, A.sort))
    memo[a] = r
    return r

# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ('op', 'args', '_d', 'id')
    def depth(self):
        if self._d is None:
            self._d = max([x.depth() for x in self.args if isinstance(x, (Poly, F))] or [0])
        return self._d
    def __repr__(s): return showf(s)
_ftab = {}
def _mkf(op, *args):
    k = (op, args)
    f = _ftab.get(k)
    if f is None:
        f = F(); f.op = op; f.args = args; f._d = None; f.id = len(_ftab); _ftab[k] = f
    return f
TRUE = F(); TRUE.op = 'true'; TRUE.args = (); TRUE._d = 0; TRUE.id = -1
FALSE = F(); FALSE.op = 'false'; FALSE.args = (); FALSE._d = 0; FALSE.id = -2
def _init_f(): pass

def mkcmp(op, p):
    """p op 0"""
    if p.is_const():
        c = p.const()
        return TRUE if {'le': c <= 0, 'lt': c < 0, 'eq': c == 0}[op] else FALSE
    k0 = min(p.m)
    if k0 == () and len(p.m) > 1: k0 = sorted(p.m)[1]
    c = p.m[k0]
    if op == 'eq':
        if c != 1: p = p.scale(Fraction(1) / c)
    else:
        if abs(c) != 1: p = p.scale(Fraction(1) / abs(c))
        if op == 'lt' and p.is_int(): op = 'le'; p = p + ONE
    return _mkf(op, p)
def Le(a, b): return mkcmp('le', a - b)
def Lt(a, b): return mkcmp('lt', a - b)
def Eq(a, b): return mkcmp('eq', a - b)
def Not(f):
    if f is TRUE: return FALSE
    if f is FALSE: return TRUE
    if f.op == 'not': return f.args[0]
    if f.op == 'le': return mkcmp('lt', -f.args[0])
    if f.op == 'lt': return mkcmp('le', -f.args[0])
    if f.op == 'and': return Or(*[Not(a) for a in f.args])
    if f.op == 'or': return And(*[Not(a) for a in f.args])
    return _mkf('not', f)
def And(*fs):
    l = []
    for f in fs:
        if f is FALSE: return FALSE
        if f is TRUE: continue
        if f.op == 'and': l.extend(f.args)
        else: l.append(f)
    l = list(dict.fromkeys(l))
    for f in l:
        if Not1(f) in l: return FALSE
    if not l: return TRUE
    if len(l) == 1: return l[0]
    return _mkf('and', *l)
def Not1(f):
    if f.op in ('and', 'or'): return None
    return Not(f)
def Or(*fs):
    l = []
    for f in fs:
        if f is TRUE: return TRUE
        if f is FALSE: continue
        if f.op == 'or': l.extend(f.args)
        else: l.append(f)
    l = list(dict.fromkeys(l))
    for f in l:
        if Not1(f) in l: return TRUE
    if not l: return FALSE
    if len(l) == 1: return l[0]
    return _mkf('or', *l)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    if a is b: return TRUE
    return And(Or(Not(a), b), Or(a, Not(b)))
def bvar(name):
    a = _mk('var', name, (), 'B'); return _mkf('bvar', a.id)

def show_atom(a):
    if a.kind == 'var': return a.name
    if a.kind == 'app': return '%s(%s)' % (a.name, ', '.join(map(show, a.args)))
    if a.kind == 'sel': return '%s[%s]' % (a.name, show(a.args[0]))
    if a.kind == 'ite': return 'ite(%s, %s, %s)' % (showf(a.args[0]), show(a.args[1]), show(a.args[2]))
    if a.kind == 'inv': return '1/(%s)' % show(a.args[0])
    return '?'
def show(p):
    if isinstance(p, F): return showf(p)
    if not isinstance(p, Poly): return repr(p)
    if not p.m: return '0'
    out = []
    for mon, c in sorted(p.m.items()):
        s = '*'.join(show_atom(ATOMS[a]) + ('^%d' % e if e != 1 else '') for a, e in mon)
        if not s: out.append(str(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append('-' + s)
        else: out.append('%s*%s' % (c, s))
    r = ' + '.join(out)
    return r if len(r) < 2000 else r[:2000] + '...'
def showf(f):
    if f.op == 'true': return 'true'
    if f.op == 'false': return 'false'
    if f.op in ('le', 'lt', 'eq'): return '%s %s 0' % (show(f.args[0]), {'le': '<=', 'lt': '<', 'eq': '=='}[f.op])
    if f.op == 'not': return '!(%s)' % showf(f.args[0])
    if f.op == 'bvar': return ATOMS[f.args[0]].name
    return '(' + {'and': ' && ', 'or': ' || '}[f.op].join(showf(a) for a in f.args) + ')'

def ratlit(d):
    """rational denoted by a double literal: exact for short dyadics, otherwise the simplest
    rational in the rounding interval (e.g. 0.2 -> 1/5) when it is short, otherwise exact."""
    import math
    if math.isinf(d) or math.isnan(d): return None
    f = Fraction(d)
    if f == 0: return 0
    if f.denominator == 1: return f.numerator
    if f.denominator <= (1 << 12) or (abs(f.numerator) < (1 << 16)): return f
    m, e = math.frexp(abs(d)); ulp = Fraction(2) ** (e - 53)
    lo, hi = abs(f) - ulp / 2, abs(f) + ulp / 2
    def simplest(lo, hi):
        fl = lo.numerator // lo.denominator
        if fl == lo: return Fraction(fl)
        if fl + 1 <= hi: return Fraction(fl + 1)
        r = simplest(1 / (hi - fl), 1 / (lo - fl))
        return fl + 1 / r
    s = simplest(lo, hi)
    if s.denominator < (1 << 26) and abs(s.numerator) < (1 << 40):
        return num(s if d > 0 else -s)
    return f
