"""Symbolic executor / obligation generator over LLVM IR (deductive: all paths, loops cut with
inductive invariants unless their trip count is decided by concrete control data)."""
import ctypes, time, itertools
from fractions import Fraction
from . import terms as T
from .terms import Poly, F, C, ATOMS, Le, Lt, Eq, Not, And, Or, Implies, ite, TRUE, FALSE
from .llvmc import L, Module
from .solver import Solver, STATS

class EngineError(Exception): pass
class Restart(Exception):
    def __init__(s, key): s.key = key

class Undef_:
    def __repr__(s): return 'undef'
Undef = Undef_()

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __eq__(s, x): return isinstance(x, Ptr) and s.o == x.o and s.off == x.off
    def __hash__(s): return hash((s.o, s.off))
    def __repr__(s): return '&%s+%s' % (s.o, T.show(s.off) if isinstance(s.off, Poly) else s.off)
NULL = Ptr(0, 0)
class FnPtr:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __eq__(s, x): return isinstance(x, FnPtr) and s.n == x.n
    def __hash__(s): return hash(s.n)
    def __repr__(s): return '@' + s.n
class Pieces:
    """bytes of a value whose parts were stored separately: [(reloff, size, tk, val)]"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
    def __eq__(s, x): return isinstance(x, Pieces) and s.p == x.p
    def __hash__(s): return hash(tuple(s.p))

# symbolic arrays (immutable chains)
class ABase:
    __slots__ = ('name', 'undef')
    def __init__(s, name, undef=False): s.name = name; s.undef = undef
class AStore:
    __slots__ = ('prev', 'idx', 'val')
    def __init__(s, prev, idx, val): s.prev = prev; s.idx = idx; s.val = val
class ARange:
    __slots__ = ('prev', 'lo', 'hi', 'j', 'body')
    def __init__(s, prev, lo, hi, j, body): s.prev = prev; s.lo = lo; s.hi = hi; s.j = j; s.body = body   # j: atom id
class ACopy:   # elements [lo,hi) are src[idx - lo + slo]
    __slots__ = ('prev', 'lo', 'hi', 'src', 'slo')
    def __init__(s, prev, lo, hi, src, slo): s.prev = prev; s.lo = lo; s.hi = hi; s.src = src; s.slo = slo

class Obj:
    __slots__ = ('id', 'size', 'cells', 'zero', 'data', 'own', 'freed', 'kind', 'name', 'arr', 'es', 'const')
    def __init__(s, id, size, kind, name=''):
        s.id = id; s.size = size; s.cells = {}; s.zero = []; s.data = None; s.own = 0; s.freed = False; s.kind = kind; s.name = name; s.arr = None; s.es = 0; s.const = False
    def clone(s, own):
        o = Obj(s.id, s.size, s.kind, s.name); o.cells = dict(s.cells); o.zero = list(s.zero); o.data = s.data; o.own = own; o.freed = s.freed; o.arr = s.arr; o.es = s.es; o.const = s.const
        return o

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'ip', 'allocas', 'ret', 'key')
    def clone(s):
        f = Frame(); f.fn = s.fn; f.regs = list(s.regs); f.blk = s.blk; f.ip = s.ip; f.allocas = list(s.allocas); f.ret = s.ret; f.key = s.key
        return f

_sid = itertools.count(1)
_fresh = itertools.count(1)    # global: names are never reused, so atom ids are ordered by creation
class State:
    __slots__ = ('id', 'frames', 'mem', 'pc', 'pcset', 'globs', 'inputs', 'symcnt', 'caught', 'exc', 'trace', 'unroll', 'cutctx', 'note', 'stubexc', 'ddepth')
    def clone(s):
        n = State(); n.id = next(_sid); s.id = next(_sid)   # both lose ownership of shared objects
        n.frames = [f.clone() for f in s.frames]; n.mem = dict(s.mem); n.pc = list(s.pc); n.pcset = set(s.pcset); n.globs = dict(s.globs)
        n.inputs = list(s.inputs); n.symcnt = dict(s.symcnt); n.caught = list(s.caught); n.exc = s.exc; n.trace = list(s.trace); n.unroll = s.unroll; n.note = s.note; n.ddepth = s.ddepth
        return n
    def assume(s, f):
        if f is TRUE: return
        if f.op == 'and':
            for g in f.args: s.assume(g)
            return
        if f not in s.pcset: s.pcset.add(f); s.pc.append(f)
    def wobj(s, oid):
        o = s.mem[oid]
        if o.own != s.id:
            o = o.clone(s.id); s.mem[oid] = o
        return o

_cxx = None
def demangle(n):
    global _cxx
    if _cxx is None:
        _cxx = ctypes.CDLL('libstdc++.so.6').__cxa_demangle; _cxx.restype = ctypes.c_void_p; _cxx.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int)]
        libc = ctypes.CDLL('libc.so.6'); demangle.free = libc.free; libc.free.argtypes = [ctypes.c_void_p]
    st = ctypes.c_int()
    p = _cxx(n.encode(), None, None, ctypes.byref(st))
    if not p: return n
    r = ctypes.string_at(p).decode('utf8', 'replace'); demangle.free(p)
    return r

class Obligation:
    def __init__(s, id): s.id = id; s.n = 0; s.ok = 0; s.fail = []; s.backends = {}; s.seen = set()

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod; self.solver = Solver()
        self.obl = {}; self.silent = 0; self.cutset = set(); self.fresh = _fresh; self.oid = itertools.count(1)
        self.covers = {}; self.ninstr = 0; self.fns_run = {}; self.dem = {}
        self.opts = opts or {}; self.max_instr = self.opts.get('max_instr', 30_000_000)
        self.default_unroll = self.opts.get('unroll', 4); self.paths = 0; self.notes = set()
        self.fpuf = False; self.invfns = []; self.infer_log = []; self.slotmemo = {}; self.loops_cut = {}; self.loops_unrolled = set()
        self.t_end = None; self.assumptions = set(); self.byval = {}
        self.fk_ms = self.opts.get('fork_nl_ms', 0)
        self.ob_ms = self.opts.get('ob_ms', 15000)
        self.concrete = None; self.merge = list(self.opts.get('merge', [])); self.nomerge = 0; self.replace = []; self.replaced = set()
        for n, f in mod.fns.items():
            if not f.decl and n.startswith('irv_inv_'): self.invfns.append(n)

    # ------------------------------------------------------------------ obligations
    def oblig(self, st, id, goal, kind='assert'):
        """record & discharge obligation; returns True when proved"""
        if self.silent: return True
        o = self.obl.get(id)
        if o is None: o = self.obl[id] = Obligation(id)
        o.n += 1
        if o.fail and len(o.fail) >= 3: return False
        if goal is Undef:
            o.fail.append(dict(reason='depends on an uninitialised value', where=self.where(st), inputs=list(st.inputs), model=None, pc=[T.show(x) for x in st.pc[-30:]]))
            return False
        r = self.valid(st, goal)
        if r[0] == 'proved':
            o.ok += 1; o.backends[r[1]] = o.backends.get(r[1], 0) + 1
            return True
        # is the path itself feasible?
        fe = self.solver.check(st.pc, nl_ms=4000)
        if fe[0] == 'unsat':
            o.ok += 1; o.backends['infeasible-path'] = o.backends.get('infeasible-path', 0) + 1
            return True
        model = r[1] if r[0] == 'refuted' else None
        if model is None:
            m = self.solver.check(list(st.pc) + [Not(goal)], nl_ms=4000, want_model=True)
            if m[0] == 'sat': model = m[1]
        o.fail.append(dict(reason={'refuted': 'refuted by the solver', 'unknown': 'not discharged (solver gave no answer)'}[r[0]], where=self.where(st), goal=T.show(goal),
                           pc=[T.show(x) for x in st.pc[-30:]], inputs=list(st.inputs), model=model, trace=list(st.trace[-20:])))
        return False

    def valid(self, st, goal, nl=None):
        if goal is TRUE: return ('proved', 'normal-form')
        if goal is FALSE and not st.pc: return ('refuted', {})
        nl = self.ob_ms if nl is None else nl
        # slice the path condition by shared support first
        sl = self.slice(st.pc, goal)
        r = self.solver.valid(sl, goal, nl_ms=nl, want_model=False)
        if r[0] == 'proved': return r
        if len(sl) == len(st.pc):
            return self.solver.valid(st.pc, goal, nl_ms=nl, want_model=True) if r[0] == 'refuted' else r
        return self.solver.valid(st.pc, goal, nl_ms=nl, want_model=True)

    def slice(self, pc, goal):
        sup = T.support(goal)
        fs = [(f, self.fsup(f)) for f in pc]
        inc = [False] * len(fs); ch = True
        while ch:
            ch = False
            for i, (f, s) in enumerate(fs):
                if not inc[i] and (s & sup):
                    inc[i] = True; ch = True; sup = sup | s
        return [f for i, (f, s) in enumerate(fs) if inc[i]]
    _fs = {}
    def fsup(self, f):
        r = self._fs.get(f)
        if r is None: r = self._fs[f] = frozenset(T.support(f))
        return r

    def feasible(self, st, f):
        if f is TRUE: return True
        if f is FALSE: return False
        if f in st.pcset: return True
        if Not(f) in st.pcset: return False
        r = self.solver.check(self.slice(st.pc, f) + [f], lin_ms=1500, nl_ms=self.fk_ms)
        return r[0] != 'unsat'

    def entailed(self, st, f, nl=0):
        if f is TRUE: return True
        if f is FALSE: return False
        if f in st.pcset: return True
        if f.op == 'eq' and not T.clear_inv(f.args[0]).m: return True
        r = self.solver.check(self.slice(st.pc, f) + [Not(f)], lin_ms=1500, nl_ms=nl)
        return r[0] == 'unsat'

    def where(self, st):
        return ' <- '.join('%s:b%d' % (self.dm(f.fn.name)[:160], f.blk) for f in reversed(st.frames[-4:]))
    def dm(self, n):
        r = self.dem.get(n)
        if r is None: r = self.dem[n] = demangle(n)
        return r

    # ------------------------------------------------------------------ memory
    def newobj(self, st, size, kind, name=''):
        i = next(self.oid); o = Obj(i, size, kind, name); o.own = st.id; st.mem[i] = o
        if isinstance(size, Poly):
            o.arr = ABase('a%d' % next(self.fresh), True); o.es = 8
        return i

    def globptr(self, st, name):
        oid = st.globs.get(name)
        if oid is None:
            g = self.mod.gvs[name]
            oid = self.newobj(st, g.ty.size, 'global', name); st.globs[name] = oid
            if g.init is not None: self.initcells(st, st.mem[oid], 0, self.mod.const(g.init), g.ty)
            st.mem[oid].const = g.const
        return Ptr(oid, 0)

    def initcells(self, st, o, off, c, ty):
        k = c[0]
        if k in ('zero',) : o.zero.append((off, off + ty.size)); return
        if k == 'undef': return
        if k == 'bytes':
            if o.data is None: o.data = {}
            for i, b in enumerate(c[1]): o.data[off + i] = b
            return
        if k == 'agg':
            t = c[1]
            for i, e in enumerate(c[2]):
                if t.k == 'struct': self.initcells(st, o, off + t.offs[i], e, t.elems[i])
                else: self.initcells(st, o, off + i * t.el.size, e, t.el)
            return
        o.cells[off] = (ty.store, self.constval(st, c), self.tk(ty))

    @staticmethod
    def tk(ty): return {'int': 'I', 'ptr': 'P'}.get(ty.k, 'R') if ty.k != 'int' else ('I%d' % ty.w)

    def constval(self, st, c):
        k = c[0]
        if k == 'int':
            return bool(c[2]) if c[1] == 1 else c[2]
        if k == 'fp':
            r = T.ratlit(c[2])
            if r is None:
                import math
                if math.isnan(c[2]): return T.var('NaN')
                return T.var('INF') if c[2] > 0 else -T.var('INF')
            return C(r)
        if k == 'null': return NULL
        if k == 'undef': return Undef
        if k == 'fn': return FnPtr(c[1])
        if k == 'gv': return self.globptr(st, c[1])
        if k == 'gep':
            b = self.constval(st, c[1]); return Ptr(b.o, b.off + c[2])
        if k == 'zero': return self.zeroval(c[1])
        if k == 'agg': return tuple(self.constval(st, e) for e in c[2])
        if k == 'cx':
            v = [self.constval(st, x) for x in c[3]]
            if c[1] in ('ptrtoint', 'inttoptr'): return v[0]
            if c[1] == 'sub': return self.isub(st, v[0], v[1], c[2].w)
        if k == 'md': return c
        raise EngineError('unsupported constant %r' % (c,))

    def zeroval(self, ty):
        if ty.k == 'int': return False if ty.w == 1 else 0
        if ty.k == 'ptr': return NULL
        if ty.k == 'struct': return tuple(self.zeroval(t) for t in ty.elems)
        if ty.k in ('array', 'vector'): return tuple(self.zeroval(ty.el) for _ in range(ty.n))
        return T.ZERO

    def chk(self, st, p, size, what):
        """pointer validity obligation; returns Obj or None (path must die)"""
        if p is Undef or not isinstance(p, Ptr):
            self.oblig(st, 'mem:valid-pointer', FALSE if p is not Undef else Undef); return None
        o = st.mem.get(p.o)
        if o is None:
            self.oblig(st, 'mem:null-or-dangling-dereference', FALSE); return None
        if o.freed:
            self.oblig(st, 'mem:use-after-free', FALSE); return None
        if isinstance(p.off, int) and isinstance(o.size, int):
            if p.off < 0 or p.off + size > o.size:
                self.oblig(st, 'mem:in-bounds', FALSE); return None
        else:
            off = p.off if isinstance(p.off, Poly) else C(p.off); sz = o.size if isinstance(o.size, Poly) else C(o.size)
            g = And(Le(T.ZERO, off), Le(off + C(size), sz))
            self.oblig(st, 'mem:in-bounds', g)
            st.assume(g)
        return o

    def load(self, st, p, ty):
        if ty.k == 'struct':
            return tuple(self.load(st, self.padd(p, ty.offs[i]), t) for i, t in enumerate(ty.elems))
        if ty.k in ('array', 'vector'):
            return tuple(self.load(st, self.padd(p, i * ty.el.size), ty.el) for i in range(ty.n))
        o = self.chk(st, p, ty.store, 'load')
        if o is None: return None
        if o.arr is not None:
            return self.aread(st, o.arr, self.aidx(st, o, p.off))
        off = p.off
        if not isinstance(off, int):
            return self.symload(st, o, p, ty)
        return self.loadc(o, off, ty.store, self.tk(ty), ty)

    def loadc(self, o, off, size, tk, ty=None):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if c[2] != tk and v is not Undef: v = self.recast(v, c[2], tk)
            return v
        # larger / smaller pieces
        ps = []; pos = off; end = off + size
        while pos < end:
            c = o.cells.get(pos)
            if c is not None and pos + c[0] <= end:
                ps.append((pos - off, c[0], c[2], c[1])); pos += c[0]; continue
            hit = None
            for a, cc in o.cells.items():
                if a <= pos < a + cc[0]: hit = (a, cc); break
            if hit is not None:
                a, cc = hit
                if isinstance(cc[1], int) and not isinstance(cc[1], bool):
                    v = (cc[1] >> (8 * (pos - a))); n = min(a + cc[0], end) - pos; v &= (1 << (8 * n)) - 1
                    ps.append((pos - off, n, 'I%d' % (8 * n), v)); pos += n; continue
                if isinstance(cc[1], Poly) and cc[1] == T.ZERO:
                    n = min(a + cc[0], end) - pos; ps.append((pos - off, n, 'I%d' % (8 * n), 0)); pos += n; continue
                return Undef
            if o.data is not None and pos in o.data:
                ps.append((pos - off, 1, 'I8', o.data[pos])); pos += 1; continue
            z = [(a, b) for a, b in o.zero if a <= pos < b]
            if z:
                nxt = min([a for a in o.cells if a > pos] + [end, z[-1][1]])
                ps.append((pos - off, nxt - pos, 'Z', 0)); pos = nxt; continue
            ps.append((pos - off, 1, 'U', Undef)); pos += 1
        if all(q[2] == 'U' for q in ps): return Undef
        if all(q[2] == 'Z' for q in ps):
            return T.ZERO if tk == 'R' else (NULL if tk == 'P' else (False if tk == 'I1' else 0))
        if len(ps) == 1 and ps[0][1] == size: return self.recast(ps[0][3], ps[0][2], tk)
        if all(q[2][0] in 'IZ' and isinstance(q[3], int) for q in ps) and tk[0] == 'I':
            v = 0
            for ro, n, t, x in ps: v |= int(x) << (8 * ro)
            return bool(v) if tk == 'I1' else v
        return Pieces([q for q in ps])

    def recast(self, v, a, b):
        if v is Undef or isinstance(v, Pieces): return v
        if b == 'R' and isinstance(v, int): 
            if v == 0: return T.ZERO
            import struct
            if a == 'I64': 
                r = T.ratlit(struct.unpack('<d', struct.pack('<Q', v))[0]); return C(r) if r is not None else Undef
            return Undef
        if b == 'P' and isinstance(v, int): return NULL if v == 0 else Undef
        if b == 'I1' and isinstance(v, int): return bool(v & 1)
        return v

    def symload(self, st, o, p, ty):
        """symbolic offset into an object with concrete cells: read as nested conditional"""
        size = ty.store; tk = self.tk(ty)
        cand = sorted(a for a, c in o.cells.items() if c[0] == size)
        res = None; off = p.off
        cs = [a for a in cand if self.feasible(st, Eq(off, C(a)))]
        if not cs: return Undef
        vals = [(a, o.cells[a][1]) for a in cs]
        if any(v is Undef for a, v in vals):
            return Undef
        if all(isinstance(v, (Poly, int)) for a, v in vals):
            r = self.top(vals[-1][1], ty)
            for a, v in reversed(vals[:-1]): r = ite(Eq(off, C(a)), self.top(v, ty), r, 'R' if tk == 'R' else 'I')
            return r
        if len(vals) == 1: return vals[0][1]
        raise EngineError('symbolic offset load of pointers')

    def top(self, v, ty):
        if isinstance(v, Poly): return v
        if isinstance(v, bool): return C(int(v))
        if isinstance(v, int): return C(sgn(v, ty.w) if ty.k == 'int' else v)
        if isinstance(v, F): return ite(v, T.ONE, T.ZERO, 'I')
        raise EngineError('no polynomial for %r' % (v,))

    def store(self, st, p, v, ty):
        if ty.k == 'struct' and not isinstance(v, Pieces):
            if v is Undef: v = tuple(Undef for _ in ty.elems)
            for i, t in enumerate(ty.elems):
                if not self.store(st, self.padd(p, ty.offs[i]), v[i], t): return False
            return True
        if ty.k in ('array', 'vector') and not isinstance(v, Pieces):
            if v is Undef: v = tuple(Undef for _ in range(ty.n))
            for i in range(ty.n):
                if not self.store(st, self.padd(p, i * ty.el.size), v[i], ty.el): return False
            return True
        o = self.chk(st, p, ty.store, 'store')
        if o is None: return False
        if o.const:
            self.oblig(st, 'mem:write-to-constant', FALSE); return False
        o = st.wobj(p.o)
        if o.arr is not None:
            if v is Undef: v = T.var('undef%d' % next(self.fresh))
            if not isinstance(v, Poly): raise EngineError('non-real stored in symbolic array: %r' % (v,))
            o.arr = AStore(o.arr, self.aidx(st, o, p.off), v)
            return True
        if not isinstance(p.off, int):
            return self.symstore(st, o, p, v, ty)
        self.storec(o, p.off, ty.store, v, self.tk(ty))
        return True

    def symstore(self, st, o, p, v, ty):
        tk = self.tk(ty); size = ty.store
        cand = [a for a, c in o.cells.items() if c[0] == size and self.feasible(st, Eq(p.off, C(a)))]
        if not self.entailed(st, Or(*[Eq(p.off, C(a)) for a in cand])):
            raise EngineError('symbolic offset store outside known cells')
        for a in cand:
            old = o.cells[a][1]
            if old is Undef: old = T.var('undef%d' % next(self.fresh), 'R' if tk == 'R' else 'I')
            if not isinstance(old, (Poly, int)) or not isinstance(v, (Poly, int)): raise EngineError('symbolic offset store of pointers')
            o.cells[a] = (size, ite(Eq(p.off, C(a)), self.top(v, ty), self.top(old, ty), 'R' if tk == 'R' else 'I'), tk)
        return True

    def storec(self, o, off, size, v, tk):
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(o, off, off + size)
        if isinstance(v, Pieces):
            self.clear(o, off, off + size)
            for ro, n, t, x in v.p:
                if t == 'Z': o.zero.append((off + ro, off + ro + n))
                elif t != 'U': o.cells[off + ro] = (n, x, t)
            return
        o.cells[off] = (size, v, tk)

    def clear(self, o, a, b):
        """forget bytes [a,b)"""
        for k in [k for k, c in o.cells.items() if k < b and k + c[0] > a]:
            c = o.cells.pop(k)
            if k < a or k + c[0] > b:      # partial overlap: keep the rest when it is a plain integer
                if isinstance(c[1], int) and not isinstance(c[1], bool):
                    for i in range(c[0]):
                        if not (a <= k + i < b): o.cells[k + i] = (1, (c[1] >> (8 * i)) & 255, 'I8')
                else:
                    for i in range(c[0]):
                        if not (a <= k + i < b): o.cells[k + i] = (1, Undef, 'I8')
        if o.zero:
            nz = []
            for x, y in o.zero:
                if y <= a or x >= b: nz.append((x, y)); continue
                if x < a: nz.append((x, a))
                if y > b: nz.append((b, y))
            o.zero = nz
        if o.data is not None:
            o.data = {k: v for k, v in o.data.items() if not (a <= k < b)}

    def padd(self, p, d):
        if p is Undef: return Undef
        if isinstance(d, Poly) and d.is_const(): d = int(d.const())
        if isinstance(d, int) and d == 0: return p
        if isinstance(p.off, int) and isinstance(d, int): return Ptr(p.o, p.off + d)
        a = p.off if isinstance(p.off, Poly) else C(p.off); b = d if isinstance(d, Poly) else C(d)
        s = a + b
        return Ptr(p.o, int(s.const()) if s.is_const() else s)

    # symbolic arrays
    def aidx(self, st, o, off):
        p = off if isinstance(off, Poly) else C(off)
        q = p.scale(Fraction(1, o.es))
        if not q.is_int(): raise EngineError('misaligned access to symbolic array: %s' % T.show(p))
        return q
    def aread(self, st, arr, idx):
        if isinstance(arr, AStore):
            d = idx - arr.idx
            if not d.m: return arr.val
            if d.is_const(): return self.aread(st, arr.prev, idx)
            e = Eq(idx, arr.idx)
            if self.entailed(st, Not(e)): return self.aread(st, arr.prev, idx)
            if self.entailed(st, e): return arr.val
            return ite(e, arr.val, self.aread(st, arr.prev, idx))
        if isinstance(arr, (ARange, ACopy)):
            inr = And(Le(arr.lo, idx), Lt(idx, arr.hi))
            if inr is FALSE or (inr is not TRUE and self.entailed(st, Not(inr))): return self.aread(st, arr.prev, idx)
            v = T.subst(arr.body, {arr.j: idx}) if isinstance(arr, ARange) else self.aread(st, arr.src, idx - arr.lo + arr.slo)
            if inr is TRUE or self.entailed(st, inr): return v
            return ite(inr, v, self.aread(st, arr.prev, idx))
        return T.sel(arr.name, idx)

    def memcpy(self, st, d, s, n):
        if isinstance(n, Poly):
            if n.is_const(): n = int(n.const())
        if n == 0: return True
        if isinstance(n, int):
            od = self.chk(st, d, n, 'memcpy'); os_ = self.chk(st, s, n, 'memcpy') if od is not None else None
            if od is None or os_ is None: return False
            if od.arr is None and os_.arr is None and isinstance(d.off, int) and isinstance(s.off, int):
                a, b = s.off, s.off + n
                cells = [(k, c) for k, c in os_.cells.items() if k >= a and k + c[0] <= b]
                part = [(k, c) for k, c in os_.cells.items() if k < b and k + c[0] > a and not (k >= a and k + c[0] <= b)]
                zs = [(max(x, a), min(y, b)) for x, y in os_.zero if x < b and y > a]
                data = {k: v for k, v in (os_.data or {}).items() if a <= k < b}
                od = st.wobj(d.o); dl = d.off - a
                self.clear(od, d.off, d.off + n)
                for k, c in cells: od.cells[k + dl] = c
                for k, c in part:
                    lo, hi = max(k, a), min(k + c[0], b)
                    for q in range(lo, hi):
                        od.cells[q + dl] = (1, ((c[1] >> (8 * (q - k))) & 255) if isinstance(c[1], int) and not isinstance(c[1], bool) else Undef, 'I8')
                for x, y in zs: od.zero.append((x + dl, y + dl))
                if data:
                    od.data = dict(od.data or {}); od.data.update({k + dl: v for k, v in data.items()})
                return True
            if n % 8 == 0 and n <= 800:
                class TD: k = 'double'; store = 8; size = 8
                vals = [self.load(st, self.padd(s, i), TD) for i in range(0, n, 8)]
                for i, v in enumerate(vals):
                    if v is None or not self.store(st, self.padd(d, 8 * i), v, TD): return False
                return True
            raise EngineError('memcpy shape')
        g0 = Le(n, T.ZERO)
        if self.entailed(st, g0): return True
        for q in (d, s):
            if not isinstance(q, Ptr) or q.o not in st.mem:
                self.oblig(st, 'mem:null-or-dangling-dereference', g0)
                return None
        od, os_ = st.mem[d.o], st.mem[s.o]
        for q, o in ((d, od), (s, os_)):
            if o.freed: self.oblig(st, 'mem:use-after-free', FALSE); return False
            off = q.off if isinstance(q.off, Poly) else C(q.off); sz = o.size if isinstance(o.size, Poly) else C(o.size)
            self.oblig(st, 'mem:in-bounds', And(Le(T.ZERO, off), Le(off + n, sz)))
        if od.arr is None or os_.arr is None: raise EngineError('symbolic-length memcpy on concrete object')
        od = st.wobj(d.o)
        lo = self.aidx(st, od, d.off); cnt = n.scale(Fraction(1, od.es))
        if not cnt.is_int(): raise EngineError('memcpy length not a multiple of the element size')
        od.arr = ACopy(od.arr, lo, lo + cnt, os_.arr, self.aidx(st, os_, s.off))
        return True

    # ------------------------------------------------------------------ integer helpers
    def ip(self, v, w):
        """integer value -> Poly (signed reading of concrete)"""
        if isinstance(v, Poly): return v
        if isinstance(v, bool): return C(int(v))
        if isinstance(v, int): return C(sgn(v, w) if w > 1 else v)
        if isinstance(v, F): return ite(v, T.ONE, T.ZERO, 'I')
        raise EngineError('integer expected, got %r' % (v,))
    def ni(self, p, w):
        if p.is_const():
            c = p.const()
            if isinstance(c, Fraction): raise EngineError('non-integral integer')
            return c % (1 << w)
        return p
    def isub(self, st, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                x = a.off if isinstance(a.off, Poly) else C(a.off); y = b.off if isinstance(b.off, Poly) else C(b.off)
                return self.ni(x - y, w)
            if a.o == 0 and b.o == 0: return 0
            raise EngineError('difference of pointers to different objects')
        if isinstance(a, Ptr): return self.padd(a, self.ip(b, w).scale(-1))
        return self.ni(self.ip(a, w) - self.ip(b, w), w)

    def unsigned(self, st, v, w):
        """Poly for the unsigned reading; None signals that the sign is undecided"""
        if isinstance(v, Poly):
            if self.entailed(st, Le(T.ZERO, v), nl=300): return v
            if self.entailed(st, Lt(v, T.ZERO), nl=300): return v + C(1 << w)
            return None
        return C(int(v)) if not isinstance(v, F) else ite(v, T.ONE, T.ZERO, 'I')

    def tobool(self, v):
        if isinstance(v, (bool, F)): return v
        if isinstance(v, int): return bool(v & 1)
        if isinstance(v, Poly):
            a = T.atom1(v)
            if a is not None and a.kind == 'ite' and a.args[1] == T.ONE and a.args[2] == T.ZERO: return a.args[0]
            return Not(Eq(v, T.ZERO))
        return v
    @staticmethod
    def fb(v): return TRUE if v is True else (FALSE if v is False else v)
    @staticmethod
    def bf(f): return True if f is TRUE else (False if f is FALSE else f)
