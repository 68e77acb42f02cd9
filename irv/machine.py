from .execu import *
from .execu import _sid

class Ctx:
    __slots__ = ('depth', 'header', 'body')
    def __init__(s, d, h, b): s.depth = d; s.header = h; s.body = b

class Machine(Exec):
    # ------------------------------------------------------------------ running
    def start(self, fname, unroll=None):
        st = State(); st.id = next(_sid); st.frames = []; st.mem = {}; st.pc = []; st.pcset = set(); st.globs = {}; st.inputs = []; st.symcnt = {}
        st.caught = []; st.exc = None; st.trace = []; st.unroll = self.default_unroll if unroll is None else unroll; st.note = None; st.ddepth = 0
        self.keyids = getattr(self, 'keyids', {})
        for n, g in self.mod.gvs.items():      # every mutable global exists from the start
            if not g.const and g.init is not None and not n.startswith('llvm.'): self.globptr(st, n)
        # dynamic initialisers
        g = self.mod.gvs.get('llvm.global_ctors')
        ctors = []
        if g is not None and g.init is not None:
            c = self.mod.const(g.init)
            if c[0] == 'agg': ctors = [e[2][1][1] for e in c[2]]
        for cn in ctors:
            res = self.callall(st, cn, [])
            if len(res) != 1: raise EngineError('initialiser forks')
            st = res[0]
        return st

    def callall(self, st, name, args):
        """run function to completion on (a list of paths)"""
        self.push(st, self.mod.fns[name], args, None)
        done = []
        self.explore([(st, None)], Ctx(len(st.frames), None, None), [], done)
        return [s for s, _ in done]

    def run_harness(self, name):
        while True:
            self.obl = {}; self.covers = {}; self.paths = 0; self.ninstr = 0
            try:
                st = self.start(name)
                f = self.mod.fns[name]
                self.push(st, f, [], None)
                self.explore([(st, None)], None, [], [])
                return
            except Restart as r:
                self.cutset.add(r.key)
                if len(self.cutset) > 60: raise EngineError('too many loops to cut')

    def push(self, st, f, args, ins):
        if f.blocks is None: self.mod.body(f)
        fr = Frame(); fr.fn = f; fr.regs = [None] * f.ninst; fr.blk = 0; fr.ip = 0; fr.allocas = []; fr.ret = None
        if st.frames:
            c = st.frames[-1]; k = (c.key, c.fn.name, c.blk, c.ip)
        else: k = (0, f.name, 0, 0)
        i = self.keyids.get(k)
        if i is None: i = self.keyids[k] = len(self.keyids) + 1
        fr.key = i
        bv = self.byvals(f)
        for j, a in enumerate(args[:f.nargs]):
            if j in bv:
                sz = bv[j]; o = self.newobj(st, sz, 'stack'); fr.allocas.append(o)
                self.memcpy(st, Ptr(o, 0), a, sz); a = Ptr(o, 0)
            fr.regs[j] = a
        if len(st.frames) > 400: raise EngineError('call depth')
        st.frames.append(fr)
        self.fns_run[f.name] = self.fns_run.get(f.name, 0) + 1

    def byvals(self, f):
        r = self.byval.get(f.name)
        if r is None:
            r = {}
            lb = L
            if not hasattr(self, '_bvk'):
                from .llvmc import fn, P
                import ctypes as C_
                self._getkind = fn('LLVMGetEnumAttributeKindForName', C_.c_uint, C_.c_char_p, C_.c_size_t)
                self._getat = fn('LLVMGetEnumAttributeAtIndex', P, P, C_.c_uint, C_.c_uint)
                self._attrty = fn('LLVMGetTypeAttributeValue', P, P)
                self._bvk = self._getkind(b'byval', 5)
            for j in range(f.nargs):
                a = self._getat(f.h, j + 1, self._bvk)
                if a: r[j] = self.mod.ty(self._attrty(a)).size
            self.byval[f.name] = r
        return r

    def explore(self, work, ctx, backs, exits):
        while work:
            if self.t_end and time.time() > self.t_end: raise EngineError('time budget exhausted')
            st, pend = work.pop()
            if ctx is not None and len(st.frames) < ctx.depth:
                exits.append((st, pend)); continue
            if pend is not None:
                if not self.jump(st, pend[1], work, ctx, backs, exits): continue
            self.runpath(st, work, ctx, backs, exits)

    def enter(self, st, target):
        fr = st.frames[-1]; B = fr.fn.blocks[target]; src = fr.blk
        if B.nphi:
            vals = self.phivals(st, B, src)
            for i in range(B.nphi): fr.regs[B.ins[i].id] = vals[i]
        fr.blk = target; fr.ip = B.nphi
    def phivals(self, st, B, src):
        vals = []
        for i in range(B.nphi):
            for b, o in B.ins[i].x:
                if b == src: vals.append(self.ev(st, o)); break
            else: raise EngineError('phi without incoming edge')
        return vals

    def jump(self, st, target, work, ctx, backs, exits):
        fr = st.frames[-1]; src = fr.blk
        if ctx is not None:
            d = len(st.frames)
            if d < ctx.depth:
                exits.append((st, ('jump', target))); return False
            if d == ctx.depth and ctx.body is not None:
                if target == ctx.header and src in ctx.body:
                    backs.append((st, self.phivals(st, fr.fn.blocks[target], src))); return False
                if target not in ctx.body:
                    exits.append((st, ('jump', target))); return False
        loops = fr.fn.loops
        if target in loops and src not in loops[target]:
            key = (fr.key, target)
            st.symcnt.pop((len(st.frames), key), None)
            st.symcnt[('b', len(st.frames), key)] = (st.symcnt.get('nf', 0), 0)
            if key in self.cutset:
                work.extend(self.cut(st, target)); return False
        elif target in loops:
            # iterations of a loop that is not cut whose body forked
            key = (fr.key, target)
            if key not in self.cutset:
                k = ('b', len(st.frames), key); nf = st.symcnt.get('nf', 0); last, cnt = st.symcnt.get(k, (nf, 0))
                if nf != last: cnt += 1
                st.symcnt[k] = (nf, cnt)
                if cnt > max(8, st.unroll): raise Restart(key)
        self.enter(st, target)
        return True

    def ev(self, st, o):
        if isinstance(o, int):
            return st.frames[-1].regs[o]
        return self.constval(st, o)

    def runpath(self, st, work, ctx, backs, exits):
        while True:
            if ctx is not None and len(st.frames) < ctx.depth and (st.frames or ctx.header is None):
                exits.append((st, None)); return
            if not st.frames:
                if not self.silent: self.paths += 1
                return
            fr = st.frames[-1]; ins = fr.fn.blocks[fr.blk].ins[fr.ip]
            self.ninstr += 1
            if self.ninstr > self.max_instr: raise EngineError('instruction budget exhausted')
            if not (self.ninstr & 4095) and self.t_end and time.time() > self.t_end: raise EngineError('time budget exhausted')
            op = ins.op
            m = _disp.get(op)
            if m is None: raise EngineError('unsupported instruction %s in %s' % (op, self.dm(fr.fn.name)))
            r = m(self, st, fr, ins)
            if r is None:
                fr.ip += 1
                continue
            k = r[0]
            if k == 'v':
                fr.regs[ins.id] = r[1]; fr.ip += 1
            elif k == 'jump':
                if not self.jump(st, r[1], work, ctx, backs, exits): return
            elif k == 'go': continue
            elif k == 'dead':
                if not self.silent: self.paths += 1
                return
            elif k == 'fork':       # list of (state, pending) ; first popped last
                for q, _ in r[1]: q.symcnt['nf'] = q.symcnt.get('nf', 0) + 1
                work.extend(r[1]); return
            elif k == 'merged':
                work.append(r[1]); return
            elif k == 'unwind':
                if not self.unwind(st): 
                    if not self.silent: self.paths += 1
                    return
                p = st.note; st.note = None
                if ctx is not None and len(st.frames) < ctx.depth: exits.append((st, ('jump', p))); return
                if not self.jump(st, p, work, ctx, backs, exits): return
            else: raise EngineError('bad signal')

    # ------------------------------------------------------------------ control
    def i_br(self, st, fr, ins):
        if not ins.ops: return ('jump', ins.x[0])
        c = self.ev(st, ins.ops[0])
        if isinstance(c, int) and not isinstance(c, bool): c = bool(c)
        if isinstance(c, bool): return ('jump', ins.x[0] if c else ins.x[1])
        if c is Undef or not isinstance(c, F):
            self.oblig(st, 'mem:branch-on-uninitialised-value', Undef); return ('dead',)
        t, e = ins.x
        ft = self.feasible(st, c); fe = self.feasible(st, Not(c)) if ft else True
        if not ft: st.assume(Not(c)); return ('jump', e)
        if not fe: st.assume(c); return ('jump', t)
        stay_first = None
        for h, body in fr.fn.loops.items():
            if fr.blk in body and ((t in body) != (e in body)):
                k = (len(st.frames), (fr.key, h))
                n = st.symcnt.get(k, 0) + 1; st.symcnt[k] = n
                stay_first = t in body
                if k[1] not in self.cutset and n > st.unroll: raise Restart(k[1])
        s2 = st.clone()
        st.assume(c); s2.assume(Not(c))
        if stay_first is False: return ('fork', [(st, ('jump', t)), (s2, ('jump', e))])
        return ('fork', [(s2, ('jump', e)), (st, ('jump', t))])

    def i_switch(self, st, fr, ins):
        v = self.ev(st, ins.ops[0]); d, cases = ins.x
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int):
            for c, b in cases:
                if c == v: return ('jump', b)
            return ('jump', d)
        if isinstance(v, F): v = ite(v, T.ONE, T.ZERO, 'I')
        if v is Undef:
            self.oblig(st, 'mem:branch-on-uninitialised-value', Undef); return ('dead',)
        out = []; rest = []
        for c, b in cases:
            e = Eq(v, C(c))
            if self.feasible(st, e):
                s = st.clone(); s.assume(e); out.append((s, ('jump', b)))
            rest.append(Not(e))
        r = And(*rest)
        if self.feasible(st, r): st.assume(r); out.append((st, ('jump', d)))
        return ('fork', out)

    def i_ret(self, st, fr, ins):
        v = self.ev(st, ins.ops[0]) if ins.ops else None
        self.popframe(st)
        if not st.frames or fr.ret == 'root':
            st.note = v
            return ('go',)
        c = st.frames[-1]
        if c.fn.blocks is None: raise EngineError('?')
        ci = c.fn.blocks[c.blk].ins[c.ip]
        if ci.op in ('call', 'invoke') and not (fr.ret == 'root'):
            c.regs[ci.id] = v
            if ci.op == 'invoke': return ('jump', ci.x['normal'])
            c.ip += 1
        return ('go',)
    def popframe(self, st):
        fr = st.frames.pop()
        for o in fr.allocas: st.mem.pop(o, None)

    def i_unreachable(self, st, fr, ins):
        self.oblig(st, 'ub:unreachable-code-reached', FALSE)
        return ('dead',)

    # ------------------------------------------------------------------ exceptions
    def throw(self, st, ti, obj):
        st.exc = (ti, obj)
        return ('unwind',)
    def unwind(self, st):
        ti = st.exc[0]
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk].ins[fr.ip]
            if ins.op == 'invoke':
                lb = fr.fn.blocks[ins.x['unwind']]; lp = next(i for i in lb.ins if i.op == 'landingpad')
                if lp.x[0] or any(self.catches(st, c, ti) for c in lp.x[1]):
                    st.note = ins.x['unwind']; return True
            self.popframe(st)
        self.oblig(st, 'exc:escapes-harness', FALSE)
        return False
    def catches(self, st, c, ti):
        if c[0] == 'null': return True
        if c[0] == 'gv': return self.subclass(ti, c[1])
        return True
    def subclass(self, ti, base, seen=None):
        if ti == base: return True
        g = self.mod.gvs.get(ti)
        if g is None or g.init is None:
            return base in STDTI.get(ti, ())
        c = self.mod.const(g.init)
        def rec(c):
            if c[0] == 'gv' and c[1].startswith('_ZTI') and c[1] != ti: return self.subclass(c[1], base)
            if c[0] == 'agg': return any(rec(e) for e in c[2])
            return False
        return rec(c)
    def i_landingpad(self, st, fr, ins):
        ti, obj = st.exc; sel = 0
        for c in ins.x[1]:
            if self.catches(st, c, ti):
                sel = self.tid('' if c[0] == 'null' else (c[1] if c[0] == 'gv' else '')); break
        return ('v', (obj, sel))
    def tid(self, n):
        d = self.__dict__.setdefault('_tids', {}); return d.setdefault(n, len(d) + 1)
    # ------------------------------------------------------------------ plain instructions
    def i_alloca(self, st, fr, ins):
        n = self.ev(st, ins.ops[0])
        if isinstance(n, Poly): raise EngineError('dynamic alloca')
        o = self.newobj(st, ins.x.size * n, 'stack'); fr.allocas.append(o)
        return ('v', Ptr(o, 0))
    def i_load(self, st, fr, ins):
        p = self.ev(st, ins.ops[0]); v = self.load(st, p, ins.ty)
        if v is None: return ('dead',)
        return ('v', v)
    def i_store(self, st, fr, ins):
        v = self.ev(st, ins.ops[0]); p = self.ev(st, ins.ops[1])
        if not self.store(st, p, v, ins.x): return ('dead',)
    def i_gep(self, st, fr, ins):
        p = self.ev(st, ins.ops[0])
        if p is Undef: return ('v', Undef)
        ty = ins.x; d = 0; first = True
        for o in ins.ops[1:]:
            i = self.ev(st, o)
            if i is Undef: return ('v', Undef)
            if first: sz = ty.size; first = False
            elif ty.k == 'struct':
                d = self.addoff(d, ty.offs[i]); ty = ty.elems[i]; continue
            else: ty = ty.el; sz = ty.size
            w = 64
            if isinstance(o, tuple) and o[0] == 'int': w = o[1]
            if isinstance(i, Poly): d = self.addoff(d, i.scale(sz))
            else:
                d = self.addoff(d, sgn(i, w if i < (1 << w) else 64) * sz if not isinstance(i, bool) else int(i) * sz)
        if not isinstance(p, Ptr):
            if isinstance(p, FnPtr) and d == 0: return ('v', p)
            raise EngineError('gep on %r' % (p,))
        return ('v', self.padd(p, d))
    @staticmethod
    def addoff(a, b):
        if isinstance(a, int) and isinstance(b, int): return a + b
        return (a if isinstance(a, Poly) else C(a)) + (b if isinstance(b, Poly) else C(b))

    def i_select(self, st, fr, ins):
        c = self.ev(st, ins.ops[0]); a = self.ev(st, ins.ops[1]); b = self.ev(st, ins.ops[2])
        if isinstance(c, int) and not isinstance(c, bool): c = bool(c & 1)
        if isinstance(c, bool): return ('v', a if c else b)
        if c is Undef: return ('v', Undef)
        if a == b and type(a) == type(b): return ('v', a)
        t = ins.ty
        if a is not Undef and b is not Undef:
            if t.k == 'int' and t.w == 1:
                fa, fb = self.fb(self.tobool(a)), self.fb(self.tobool(b))
                return ('v', self.bf(Or(And(c, fa), And(Not(c), fb))))
            if t.k == 'double' and isinstance(a, Poly) and isinstance(b, Poly): 
                return ('v', ite(c, a, b, 'R'))
            if t.k == 'int' and not isinstance(a, (Ptr, FnPtr)) and not isinstance(b, (Ptr, FnPtr)): return ('v', ite(c, self.ip(a, t.w), self.ip(b, t.w), 'I'))
        # fork
        out = []
        if self.feasible(st, Not(c)):
            s2 = st.clone(); s2.assume(Not(c)); f2 = s2.frames[-1]; f2.regs[ins.id] = b; f2.ip += 1; out.append((s2, None))
        if self.feasible(st, c):
            st.assume(c); fr.regs[ins.id] = a; fr.ip += 1; out.append((st, None))
        return ('fork', out)

    def i_icmp(self, st, fr, ins):
        a = self.ev(st, ins.ops[0]); b = self.ev(st, ins.ops[1]); pr, ty = ins.x
        return self.icmp(st, fr, ins, pr, ty, a, b)
    def icmp(self, st, fr, ins, pr, ty, a, b):
        if a is Undef or b is Undef or isinstance(a, Pieces) or isinstance(b, Pieces): return ('v', Undef)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            return ('v', e if pr == 'eq' else not e)
        if isinstance(a, int) and isinstance(b, Ptr): a = NULL if a == 0 else a
        if isinstance(b, int) and isinstance(a, Ptr): b = NULL if b == 0 else b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o:
                x = a.off if isinstance(a.off, Poly) else C(a.off); y = b.off if isinstance(b.off, Poly) else C(b.off)
                f = {'eq': Eq(x, y), 'ne': Not(Eq(x, y)), 'ult': Lt(x, y), 'ule': Le(x, y), 'ugt': Lt(y, x), 'uge': Le(y, x),
                     'slt': Lt(x, y), 'sle': Le(x, y), 'sgt': Lt(y, x), 'sge': Le(y, x)}[pr]
                return ('v', self.bf(f))
            if pr in ('eq', 'ne'): return ('v', pr == 'ne')
            return ('v', {'ult': a.o < b.o, 'ule': a.o < b.o, 'ugt': a.o > b.o, 'uge': a.o > b.o}[pr])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pr in ('ugt', 'uge') and isinstance(a, Ptr): return ('v', a.o != 0)     # alignment-style comparisons of ptrtoint
            raise EngineError('icmp pointer/int')
        w = ty.w
        if isinstance(a, int) and isinstance(b, int):
            a = int(a); b = int(b)
            if pr[0] == 's': a = sgn(a, w); b = sgn(b, w)
            r = {'eq': a == b, 'ne': a != b}.get(pr)
            if r is None: r = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]
            return ('v', r)
        if pr in ('eq', 'ne'):
            if w == 1 or isinstance(a, F) or isinstance(b, F):
                f = T.Iff(self.fb(self.tobool(a)), self.fb(self.tobool(b)))
                return ('v', self.bf(f if pr == 'eq' else Not(f)))
            f = self.boolcmp(a, b, w)
            if f is None: f = Eq(self.ip(a, w), self.ip(b, w))
            return ('v', self.bf(f if pr == 'eq' else Not(f)))
        if pr[0] == 'u':
            x = self.unsigned(st, a, w); y = self.unsigned(st, b, w)
            if x is None or y is None:
                v = a if x is None else b
                v = self.ip(v, w)
                s2 = st.clone(); s2.assume(Lt(v, T.ZERO)); st.assume(Le(T.ZERO, v))
                return ('fork', [(s2, None), (st, None)])      # re-execute on both
        else: x = self.ip(a, w); y = self.ip(b, w)
        f = {'lt': Lt(x, y), 'le': Le(x, y), 'gt': Lt(y, x), 'ge': Le(y, x)}[pr[1:]]
        return ('v', self.bf(f))
    def boolish(self, v):
        """formula for a 0/1 integer value or None"""
        if isinstance(v, bool): return TRUE if v else FALSE
        if isinstance(v, int): return TRUE if v == 1 else (FALSE if v == 0 else None)
        if isinstance(v, F): return v
        if isinstance(v, Poly):
            if v == T.ONE: return TRUE
            if v == T.ZERO: return FALSE
            a = T.atom1(v)
            if a is not None and a.kind == 'ite' and a.args[1] == T.ONE and a.args[2] == T.ZERO: return a.args[0]
        return None
    def boolcmp(self, a, b, w):
        x = self.boolish(a); y = self.boolish(b)
        if x is None or y is None: return None
        return T.Iff(x, y)

    def i_fcmp(self, st, fr, ins):
        return ('v', self.fcmp(ins.x, self.ev(st, ins.ops[0]), self.ev(st, ins.ops[1])))
    def fcmp(self, pr, a, b):
        if pr in ('ord',): return True
        if pr in ('uno',): return False
        if a is Undef or b is Undef: return Undef
        k = pr[1:] if pr[0] in 'ou' else pr
        f = {'eq': Eq(a, b), 'ne': Not(Eq(a, b)), 'lt': Lt(a, b), 'le': Le(a, b), 'gt': Lt(b, a), 'ge': Le(b, a)}.get(k)
        if f is None: raise EngineError('fcmp ' + pr)
        return self.bf(f)

    def i_fbin(self, st, fr, ins):
        a = self.ev(st, ins.ops[0]); b = self.ev(st, ins.ops[1]) if len(ins.ops) > 1 else None
        return self.fop(st, ins.op, a, b)
    def fop(self, st, op, a, b):
        if a is Undef or b is Undef: return ('v', Undef)
        if isinstance(a, (Pieces, tuple)) or isinstance(b, (Pieces, tuple)): raise EngineError('fp op on pieces')
        if self.fpuf and op != 'fneg': return ('v', self.fl(st, op, a, b))
        if op == 'fadd': return ('v', a + b)
        if op == 'fsub': return ('v', a - b)
        if op == 'fmul': return ('v', a * b)
        if op == 'fneg': return ('v', -a)
        if op == 'fdiv':
            return self.fdiv(st, a, b)
        raise EngineError(op)
    def fl(self, st, op, a, b):
        """Rounded arithmetic: fl_op is an uninterpreted function of its (finite) arguments; only the exact IEEE identities are known."""
        Z, O = T.ZERO, T.ONE
        if op == 'fadd':
            if a == Z: return b
            if b == Z: return a
        elif op == 'fsub':
            if b == Z: return a
            if a == Z: return -b
            if a == b: return Z
        elif op == 'fmul':
            if a == Z or b == Z: return Z
            if a == O: return b
            if b == O: return a
            if a == -O: return -b
            if b == -O: return -a
        elif op == 'fdiv':
            if b == Z: raise EngineError('fl division by zero')
            if b == O: return a
            if a == b:
                g = Not(Eq(b, Z)); self.oblig(st, 'arith:division-by-zero', g); st.assume(g); return O
        if a.is_const() and b.is_const():
            x, y = float(a.const()), float(b.const())
            return C(Fraction(x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y))
        if op in ('fadd', 'fmul') and (b.key() < a.key()): a, b = b, a
        z = T.app('fl_' + op[1:], (a, b))
        ax = {'fadd': lambda: [Implies(Eq(a, Z), Eq(z, b)), Implies(Eq(b, Z), Eq(z, a))], 'fsub': lambda: [Implies(Eq(b, Z), Eq(z, a)), Implies(Eq(a, b), Eq(z, Z))],
              'fmul': lambda: [Implies(Eq(a, O), Eq(z, b)), Implies(Eq(b, O), Eq(z, a)), Implies(Or(Eq(a, Z), Eq(b, Z)), Eq(z, Z))], 'fdiv': lambda: [Implies(Eq(b, O), Eq(z, a))]}[op]()
        self.solver.axiom(T.atom1(z).id, ax); self.assumptions.add('rounded arithmetic: the operations are functions of their operands (deterministic rounding), finite values')
        return z
    def fdiv(self, st, a, b):
        if b.is_const():
            if b.const() == 0:
                self.oblig(st, 'arith:division-by-zero', FALSE); return ('dead',)
            return ('v', a.scale(Fraction(1) / b.const()))
        if len(b.m) == 1:
            (mon, c), = b.m.items()
            g = And(*[Not(Eq(T.of_atom(ATOMS[x]), T.ZERO)) for x, e in mon])
        else: g = Not(Eq(b, T.ZERO))
        if g not in st.pcset:
            self.oblig(st, 'arith:division-by-zero', g); st.assume(g)
        if a == b: return ('v', T.ONE)
        return ('v', a * T.recip(b))

    def i_ibin(self, st, fr, ins):
        a = self.ev(st, ins.ops[0]); b = self.ev(st, ins.ops[1])
        return self.iop(st, ins.op, ins.ty.w, a, b)
    def iop(self, st, op, w, a, b):
        if a is Undef or b is Undef or isinstance(a, Pieces) or isinstance(b, Pieces):
            return ('v', Undef)
        M = (1 << w)
        if w == 1:
            a = self.tobool(a); b = self.tobool(b); fa, fb = self.fb(a), self.fb(b)
            if op in ('and', 'mul'): return ('v', self.bf(And(fa, fb)))
            if op == 'or': return ('v', self.bf(Or(fa, fb)))
            if op in ('xor', 'add', 'sub'): return ('v', self.bf(Not(T.Iff(fa, fb))))
            raise EngineError('i1 ' + op)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if op == 'sub': return ('v', self.isub(st, a, b, w))
            if op == 'add':
                if isinstance(b, Ptr): a, b = b, a
                return ('v', self.padd(a, self.ip(b, w) if isinstance(b, Poly) else sgn(b, w)))
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int): return ('v', (a.off & b) if b < 16 else Ptr(a.o, a.off & sgn(b, w)))
            if op == 'or' and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int) and 0 <= b < 8: return ('v', Ptr(a.o, a.off | b))   # low-bit tags on aligned pointers (boost::function)
            if op == 'and' and isinstance(a, FnPtr) and b == 1: return ('v', 0)      # Itanium member pointers: functions are even
            raise EngineError('int op %s on pointers' % op)
        if isinstance(a, int) and isinstance(b, int):
            a = int(a); b = int(b)
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            elif op == 'shl': r = a << b
            elif op == 'lshr': r = a >> b
            elif op == 'ashr': r = sgn(a, w) >> b
            else:
                if b == 0:
                    self.oblig(st, 'arith:integer-division-by-zero', FALSE); return ('dead',)
                if op == 'udiv': r = a // b
                elif op == 'urem': r = a % b
                else:
                    x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                    r = q if op == 'sdiv' else x - q * y
            return ('v', r % M)
        if isinstance(a, F): a = ite(a, T.ONE, T.ZERO, 'I')
        if isinstance(b, F): b = ite(b, T.ONE, T.ZERO, 'I')
        if op in ('and', 'or', 'xor'):
            x, y = self.boolish(a), self.boolish(b)
            if x is not None and y is not None:
                f = And(x, y) if op == 'and' else (Or(x, y) if op == 'or' else Not(T.Iff(x, y)))
                return ('v', ite(f, T.ONE, T.ZERO, 'I') if f not in (TRUE, FALSE) else (1 if f is TRUE else 0))
            if op == 'and':
                if isinstance(a, int): a, b = b, a
                if isinstance(b, int) and (b & (b + 1)) == 0: return self.imod(st, self.ip(a, w), b + 1, w)
            if op == 'or' and isinstance(b, int) and b == 0: return ('v', a)
            if op == 'xor' and isinstance(b, int) and b == M - 1: return ('v', self.ni(-self.ip(a, w) - T.ONE, w))
            raise EngineError('bitwise %s on symbolic integer' % op)
        A = self.ip(a, w); Bp = self.ip(b, w)
        if op == 'add': return ('v', self.ni(A + Bp, w))
        if op == 'sub': return ('v', self.ni(A - Bp, w))
        if op == 'mul': return ('v', self.ni(A * Bp, w))
        if op == 'shl' and Bp.is_const(): return ('v', self.ni(A.scale(1 << Bp.const()), w))
        if op in ('lshr', 'ashr') and Bp.is_const(): return self.idiv(st, A, 1 << Bp.const(), w, op == 'ashr')
        if op in ('udiv', 'sdiv') and Bp.is_const(): return self.idiv(st, A, Bp.const(), w, op == 'sdiv')
        if op in ('urem', 'srem') and Bp.is_const(): return self.imod(st, A, Bp.const(), w, op == 'srem')
        if op in ('udiv', 'urem') :
            g = Lt(T.ZERO, Bp)
            self.oblig(st, 'arith:integer-division-by-zero', Not(Eq(Bp, T.ZERO))); st.assume(Not(Eq(Bp, T.ZERO)))
            if not self.entailed(st, And(Le(T.ZERO, A), g)): raise EngineError('symbolic integer division')
            q = T.app('udiv', (A, Bp), 'I'); m = A - q * Bp
            for f in (Le(T.ZERO, q), Le(T.ZERO, m), Lt(m, Bp), Le(q, A)): st.assume(f)
            return ('v', q if op == 'udiv' else m)
        raise EngineError('integer %s on symbolic values' % op)
    def idiv(self, st, A, c, w, signed=False):
        q = A.scale(Fraction(1, c))
        if all(not isinstance(v, Fraction) for v in q.m.values()): return ('v', self.ni(q, w))
        if not self.entailed(st, Le(T.ZERO, A)): raise EngineError('symbolic division of possibly negative integer')
        x = T.app('idiv%d' % c, (A,), 'I')
        st.assume(And(Le(x.scale(c), A), Lt(A, x.scale(c) + C(c)), Le(T.ZERO, x)))
        return ('v', x)
    def imod(self, st, A, c, w, signed=False):
        q = A.scale(Fraction(1, c))
        if all(not isinstance(v, Fraction) for v in q.m.values()): return ('v', 0)
        if self.entailed(st, And(Le(T.ZERO, A), Lt(A, C(c)))): return ('v', A)
        r = self.idiv(st, A, c, w, signed)
        return ('v', self.ni(A - r[1].scale(c), w))

    def i_cast(self, st, fr, ins):
        v = self.ev(st, ins.ops[0]); op = ins.op
        return self.cast(st, op, v, ins.x, ins.ty)
    def cast(self, st, op, v, sty, dty):
        if v is Undef: return ('v', Undef)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fpext', 'fptrunc'):
            if op == 'bitcast' and sty.k != dty.k and isinstance(v, (int, Poly)):
                if v == 0 or v == T.ZERO: return ('v', self.zeroval(dty))
                raise EngineError('bitcast')
            if op == 'inttoptr' and isinstance(v, int): return ('v', NULL if v == 0 else Undef)
            return ('v', v)
        if op == 'zext':
            if isinstance(v, F): return ('v', v if dty.w == 1 else ite(v, T.ONE, T.ZERO, 'I'))
            if isinstance(v, Poly):
                u = self.unsigned(st, v, sty.w)
                if u is None:
                    s2 = st.clone(); s2.assume(Lt(v, T.ZERO)); st.assume(Le(T.ZERO, v))
                    return ('fork', [(s2, None), (st, None)])
                return ('v', u)
            return ('v', int(v))
        if op == 'sext':
            if isinstance(v, F): return ('v', ite(v, C(-1), T.ZERO, 'I'))
            if isinstance(v, Poly): return ('v', v)
            return ('v', sgn(int(v), sty.w) % (1 << dty.w))
        if op == 'trunc':
            if dty.w == 1: return ('v', self.tobool(v))
            if isinstance(v, Poly): self.assumptions.add('symbolic integers fit the narrower machine type at conversions'); return ('v', v)
            if isinstance(v, Ptr): raise EngineError('trunc of pointer')
            return ('v', int(v) % (1 << dty.w))
        if op == 'sitofp':
            return ('v', self.ip(v, sty.w))
        if op == 'uitofp':
            if isinstance(v, Poly):
                u = self.unsigned(st, v, sty.w)
                if u is None:
                    s2 = st.clone(); s2.assume(Lt(v, T.ZERO)); st.assume(Le(T.ZERO, v))
                    return ('fork', [(s2, None), (st, None)])
                return ('v', u)
            return ('v', C(int(v)) if not isinstance(v, F) else ite(v, T.ONE, T.ZERO, 'I'))
        if op in ('fptosi', 'fptoui'):
            if v.is_const():
                import math
                return ('v', math.trunc(v.const()) % (1 << dty.w))
            if v.is_int(): return ('v', v)
            x = T.app('ftoi', (v,), 'I')
            xa = T.atom1(x).id
            self.solver.axiom(xa, [Implies(Le(T.ZERO, v), And(Le(x, v), Lt(v, x + T.ONE), Le(T.ZERO, x))), Implies(Le(v, T.ZERO), And(Le(v, x), Lt(x - T.ONE, v), Le(x, T.ZERO)))])
            return ('v', x)
        raise EngineError(op)
    def i_extractvalue(self, st, fr, ins):
        v = self.ev(st, ins.ops[0])
        for i in ins.x:
            if v is Undef: break
            v = v[i]
        return ('v', v)
    def i_insertvalue(self, st, fr, ins):
        a = self.ev(st, ins.ops[0]); v = self.ev(st, ins.ops[1])
        def rec(a, ty, ix):
            if not ix: return v
            if a is Undef: a = tuple(Undef for _ in (ty.elems if ty.k == 'struct' else range(ty.n)))
            l = list(a); l[ix[0]] = rec(l[ix[0]], ty.elems[ix[0]] if ty.k == 'struct' else ty.el, ix[1:]); return tuple(l)
        return ('v', rec(a, ins.ty, ins.x))
    def i_freeze(self, st, fr, ins):
        return ('v', self.ev(st, ins.ops[0]))
    def i_phi(self, st, fr, ins): raise EngineError('phi executed')
    def i_fence(self, st, fr, ins): return None

    # ------------------------------------------------------------------ calls
    def i_call(self, st, fr, ins):
        c = ins.x['callee']
        if isinstance(c, int): c = st.frames[-1].regs[c]; name = c.n if isinstance(c, FnPtr) else None
        elif c[0] == 'fn': name = c[1]
        elif c[0] == 'asm': return None
        else:
            v = self.constval(st, c); name = v.n if isinstance(v, FnPtr) else None
        if name is None:
            self.oblig(st, 'mem:call-through-invalid-pointer', FALSE); return ('dead',)
        args = [self.ev(st, o) for o in ins.ops]
        h = self.stub(name)
        if h is not None:
            r = h(self, st, fr, ins, name, args)
            if r is None: r = ('v', None)
            if r[0] == 'v' and ins.op == 'invoke':
                fr.regs[ins.id] = r[1]; return ('jump', ins.x['normal'])
            return r
        f = self.mod.fns[name]
        if f.decl: raise EngineError('call of undefined function %s' % self.dm(name))
        for x, impl in self.replace:
            if x in self.dm(name).split('[abi')[0] and name != impl:
                if impl not in self.mod.fns: raise EngineError('no function %s' % impl)
                f = self.mod.fns[impl]; self.replaced.add(self.dm(name).split('(')[0])
                if f.nargs != len(args): raise EngineError('contract %s does not fit %s' % (impl, self.dm(name)))
        if self.merge and not self.nomerge and any(x in self.dm(name) for x in self.merge): return self.mergecall(st, f, args, ins)
        self.push(st, f, args, ins)
        return ('go',)

    def mergecall(self, st, f, args, ins):
        """all paths through a call that writes nothing are joined into one state with a conditional result"""
        base = st.clone(); depth = len(st.frames)
        self.push(st, f, args, ins)
        exits = []
        self.nomerge += 1
        try: self.explore([(st, None)], Ctx(depth + 1, None, None), [], exits)
        finally: self.nomerge -= 1
        if not exits: return ('dead',)
        if len(exits) == 1: return ('merged', exits[0])
        n0 = len(base.pc); vals = []; conds = []
        ok = True
        for e, pend in exits:
            v = e.frames[-1].regs[ins.id] if len(e.frames) == depth else None
            if not isinstance(v, (Poly, int, F)) or pend != exits[0][1] or e.exc != base.exc or len(e.inputs) != len(base.inputs) or e.pc[:n0] != base.pc: ok = False; break
            if e.mem.keys() != base.mem.keys() or any(e.mem[k] is not base.mem[k] for k in base.mem) or e.globs != base.globs: ok = False; break
            vals.append(v); conds.append(And(*e.pc[n0:]))
        if not ok: return ('fork', exits)
        t = f.rty if hasattr(f, 'rty') else ins.ty
        if ins.ty.k == 'double' and all(isinstance(v, Poly) for v in vals):
            r = vals[-1]
            for c, v in zip(conds[-2::-1], vals[-2::-1]): r = ite(c, v, r, 'R')
        elif ins.ty.k == 'int' and ins.ty.w == 1:
            r = self.fb(self.tobool(vals[-1]))
            for c, v in zip(conds[-2::-1], vals[-2::-1]): r = Or(And(c, self.fb(self.tobool(v))), And(Not(c), r))
            r = self.bf(r)
        else: return ('fork', exits)
        base.frames[-1].regs[ins.id] = r
        pend = exits[0][1]
        if pend is None: base.frames[-1].ip += 1
        return ('merged', (base, pend))

    def stub(self, name):
        d = self.__dict__.setdefault('_stubs', {})
        if name in d: return d[name]
        from . import stubs
        h = stubs.find(self, name)
        d[name] = h
        return h

def _resume(self, st, fr, ins):
    # continue unwinding in the caller
    self.popframe(st)
    return ('unwind',)

_disp = {'br': Machine.i_br, 'switch': Machine.i_switch, 'ret': Machine.i_ret, 'unreachable': Machine.i_unreachable, 'landingpad': Machine.i_landingpad,
 'resume': _resume, 'alloca': Machine.i_alloca, 'load': Machine.i_load, 'store': Machine.i_store, 'gep': Machine.i_gep, 'select': Machine.i_select,
 'icmp': Machine.i_icmp, 'fcmp': Machine.i_fcmp, 'extractvalue': Machine.i_extractvalue, 'insertvalue': Machine.i_insertvalue, 'freeze': Machine.i_freeze,
 'phi': Machine.i_phi, 'call': Machine.i_call, 'invoke': Machine.i_call, 'fence': Machine.i_fence}
for o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'): _disp[o] = Machine.i_fbin
for o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'): _disp[o] = Machine.i_ibin
for o in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): _disp[o] = Machine.i_cast

_LE = ('_ZTISt11logic_error', '_ZTISt9exception'); _RE = ('_ZTISt13runtime_error', '_ZTISt9exception')
STDTI = {'_ZTISt12length_error': _LE, '_ZTISt12out_of_range': _LE, '_ZTISt16invalid_argument': _LE, '_ZTISt11logic_error': _LE[1:],
 '_ZTISt13runtime_error': _RE[1:], '_ZTISt9bad_alloc': ('_ZTISt9exception',), '_ZTISt14overflow_error': _RE, '_ZTISt11range_error': _RE, '_ZTISt20bad_array_new_length': ('_ZTISt9bad_alloc', '_ZTISt9exception'), '_ZTISt17bad_function_call': ('_ZTISt9exception',)}
