"""Loop cutting: inference of inductive invariants at a loop header and the inductive check.

State at the header = phi registers + memory.  Slots are the parts of it that the loop changes.
 1. find the slots (fixpoint over generic iterations),
 2. closed forms  slot = G(kappa)  (kappa = iterations done): linear recurrences with loop-invariant
    increments, values that depend on kappa only, and element-wise updated arrays,
 3. Houdini over: differences between slots preserved, sign facts, irv_inv_* predicates of the harness,
 4. final pass: assume the invariants at the header, run the body once for all paths with obligations on,
    re-check every invariant at every back edge (fails => engine error, never silently accepted)."""
from .machine import *
from .machine import Ctx
from . import terms as T

class Slot:
    __slots__ = ('key', 'v0', 'tag', 'w', 'tk', 'size')
    def __repr__(s): return str(s.key)

class Cutter(Machine):
    _havarr = set(); nopeel = set()
    # value <-> component
    def comp(self, v, w):
        """(tag, term)"""
        if v is Undef or isinstance(v, Pieces): return ('U', None)
        if isinstance(v, bool): return ('B', TRUE if v else FALSE)
        if isinstance(v, F): return ('B', v)
        if isinstance(v, int): return ('I', C(sgn(v, w)))
        if isinstance(v, Poly): return ('N', v)
        if isinstance(v, Ptr): return (('P', v.o), v.off if isinstance(v.off, Poly) else C(v.off))
        if isinstance(v, FnPtr): return (('F', v.n), None)
        raise EngineError('slot value %r' % (v,))
    def uncomp(self, tag, t, isreal, w):
        if tag == 'U': return Undef
        if tag == 'B': return self.bf(t)
        if isinstance(tag, tuple) and tag[0] == 'P':
            return Ptr(tag[1], int(t.const()) if t.is_const() else t)
        if isinstance(tag, tuple): return FnPtr(tag[1])
        if isreal: return t
        return self.ni(t, w)

    def cut(self, S, header):
        fr = S.frames[-1]; depth = len(S.frames); body = fr.fn.loops[header]; B = fr.fn.blocks[header]
        ctx = Ctx(depth, header, body); key = (fr.key, header)
        name = '%s loop@b%d' % (self.dm(fr.fn.name)[:200], header)
        phis0 = self.phivals(S, B, fr.blk)
        mark = len(ATOMS)
        kap = T.var('kappa#%d' % next(self.fresh), 'I'); kid = T.atom1(kap).id
        fr.blk = header; fr.ip = B.nphi
        for i in range(B.nphi): fr.regs[B.ins[i].id] = phis0[i]
        entry = S     # state at header, first arrival
        slots = {}    # key -> Slot
        memo = self.slotmemo.get(key, {})
        closed = {}; noclosed = set(); hav = {}; strided = set()
        def addslot(k):
            if k in slots: return False
            s = Slot(); s.key = k
            if k[0] == 'phi':
                ins = B.ins[k[1]]; v = phis0[k[1]]; s.tk = self.tk(ins.ty); s.w = ins.ty.w if ins.ty.k == 'int' else 64; s.size = 8
            elif k[0] == 'mem':
                o = entry.mem[k[1]]; c = o.cells.get(k[2])
                if c is None:
                    v = Undef; s.size, s.tk = k[3], k[4]
                    v = self.loadc(o, k[2], k[3], k[4])
                else: v = c[1]; s.size, s.tk = c[0], c[2]
                s.w = int(s.tk[1:]) if s.tk[0] == 'I' else 64
            else:
                v = None; s.tk = 'A'; s.w = 0; s.size = 0
            s.v0 = v
            s.tag = self.comp(v, s.w)[0] if k[0] != 'arr' else 'A'
            slots[k] = s
            return True
        for k in memo: 
            if k[0] == 'phi': addslot(k)
        for i in range(B.nphi): addslot(('phi', i))
        def isreal(s): return s.tk == 'R'
        def fresh(s):
            t = s.tag; n = next(self.fresh)
            if t == 'U': return Undef
            if t == 'B': return T.bvar('h#%d' % n)
            if isinstance(t, tuple) and t[0] == 'P': 
                v = T.var('ho#%d' % n, 'I'); ob = entry.mem.get(t[1])
                if ob is not None and ob.arr is not None:
                    # element pointers move in whole elements; checked below: such a slot must get a closed form
                    strided.add(s.key); return Ptr(t[1], self.comp(s.v0, 64)[1] + v.scale(Fraction(ob.es)))
                return Ptr(t[1], v)
            if isinstance(t, tuple): raise EngineError('function pointer changes in loop')
            return T.var(('hr#%d' if isreal(s) else 'hi#%d') % n, 'R' if isreal(s) else 'I')
        def build(vals, arrs, facts):
            st = entry.clone(); f = st.frames[-1]
            for k, s in slots.items():
                if k[0] == 'arr':
                    st.wobj(k[1]).arr = arrs[k]; continue
                v = vals[k]
                if k[0] == 'phi': f.regs[B.ins[k[1]].id] = v
                else: self.storec(st.wobj(k[1]), k[2], s.size, v, s.tk)
            st.assume(Le(T.ZERO, kap))
            for x in facts: st.assume(x)
            st.symcnt.pop((depth, key), None)
            return st
        def header_vals():
            vals = {}; arrs = {}
            for k, s in slots.items():
                if k in closed:
                    if k[0] == 'arr': arrs[k] = closed[k]
                    else: vals[k] = self.uncomp(s.tag, closed[k], isreal(s), s.w)
                else:
                    if k not in hav:
                        if k[0] == 'arr': hav[k] = ABase('A#%d' % next(self.fresh)); self._havarr.add(hav[k].name)
                        else: hav[k] = fresh(s)
                    if k[0] == 'arr': arrs[k] = hav[k]
                    else: vals[k] = hav[k]
            return vals, arrs
        def runbody(st):
            backs = []; exits = []
            self.silent += 1
            try: onepass(st, backs, exits)
            finally: self.silent -= 1
            return backs
        def flagset(st, ph):
            # one-byte flags of the state before the loop that the iteration has flipped
            out = []
            for k, v in enumerate(ph):
                if isinstance(v, bool) and isinstance(phis0[k], bool) and v != phis0[k]: out.append(k)
            for oid, o in entry.mem.items():
                b = st.mem.get(oid)
                if b is None or b is o: continue
                for off, c in b.cells.items():
                    if c[0] == 1 and isinstance(c[1], int):
                        c0 = o.cells.get(off)
                        if c0 is not None and c0[0] == 1 and isinstance(c0[1], int) and bool(c0[1]) != bool(c[1]): out.append((oid, off))
            return tuple(out)
        def onepass(st, backs, exits):
            # Back edges on which the loop is certain to be left at once (a flag such as "at end" has just been
            # set) are followed to their exits instead of being merged into the header state.
            bs = []
            self.explore([(st, None)], ctx, bs, exits)
            for bst, ph in bs:
                fl = flagset(bst, ph)
                if fl and (key, fl) not in self.nopeel:
                    def again():
                        q = bst.clone(); f = q.frames[-1]
                        for i in range(B.nphi): f.regs[B.ins[i].id] = ph[i]
                        f.blk = header; f.ip = B.nphi; q.symcnt.pop((depth, key), None)
                        return q
                    b2 = []; e2 = []
                    self.silent += 1
                    try: self.explore([(again(), None)], ctx, b2, e2)
                    finally: self.silent -= 1
                    if not b2:
                        if self.silent: exits.extend(e2)
                        else: self.explore([(again(), None)], ctx, b2, exits)
                        continue
                    self.nopeel.add((key, fl))
                backs.append(self.rename(entry, phis0, bst, ph))
        def backval(bk, k, s):
            st, ph = bk
            if k[0] == 'phi': return ph[k[1]]
            o = st.mem.get(k[1])
            if o is None or o.freed: raise EngineError('object of the loop frame released in the loop (%s)' % name)
            if k[0] == 'arr': return o.arr
            return self.loadc(o, k[2], s.size, s.tk)
        def discover(h, backs):
            new = False
            for st, ph in backs:
                for oid, o in entry.mem.items():
                    b = st.mem.get(oid)
                    if b is None: continue
                    hobj = h.mem[oid]
                    if b is hobj: continue
                    if b.freed and not hobj.freed: raise EngineError('object freed inside a cut loop: ' + name)
                    if b.arr is not hobj.arr: 
                        new |= addslot(('arr', oid))
                    for off in set(b.cells) | set(hobj.cells):
                        cb = b.cells.get(off); ch = hobj.cells.get(off)
                        if cb is ch: continue
                        if cb is not None and ch is not None and cb[0] == ch[0] and self.same(cb[1], ch[1]): continue
                        if cb is None: cb = (ch[0], self.loadc(b, off, ch[0], ch[2]), ch[2])
                        if ch is None:
                            if o.kind == 'stack' and self.loadc(hobj, off, cb[0], cb[2]) is Undef: pass
                        new |= addslot(('mem', oid, off, cb[0], cb[2]) if ('mem', oid, off) not in [q[:3] for q in slots] else [q for q in slots if q[:3] == ('mem', oid, off)][0])
            return new
        # ---- rounds: slots and closed forms
        # the clone made by build() shares objects; keep the header state for comparison
        for rnd in range(40):
            vals, arrs = header_vals()
            # start values that never change stay as they are: round 0 only has phi slots
            facts = []
            h = build(vals, arrs, facts); href = h.clone()
            backs = runbody(h)
            if not backs: break
            changed = False
            if discover(href, backs): changed = True
            else:
                for k, s in list(slots.items()):
                    if k[0] == 'arr':
                        changed |= self.arrform(entry, k, s, closed, hav, noclosed, backs, backval, kap, kid, mark, slots, href)
                        continue
                    bv = [backval(b, k, s) for b in backs]
                    tags = {self.comp(v, s.w)[0] for v in bv}
                    def norm(t): return 'N' if t in ('I', 'N') else t
                    if s.tag != 'U' and any(norm(t) != norm(s.tag) for t in tags):
                        if any(isinstance(t, tuple) for t in tags) or isinstance(s.tag, tuple):
                            if 'U' not in tags: raise EngineError('pointer changes its object inside a cut loop: %s slot %r %r->%r' % (name, k, s.v0, bv[:3]))
                        if norm(s.tag) == 'B' or 'B' in tags:
                            if 'U' not in tags:
                                # booleans kept as integers
                                if s.tk != 'I1':
                                    s.tag = 'I'; s.v0 = self.ni(self.ip(s.v0, s.w), s.w) if not isinstance(s.v0, Poly) else s.v0
                                    bv = [self.ip(v, s.w) if isinstance(v, (bool, F)) else v for v in bv]; 
                                    hav.pop(k, None) if k in hav and isinstance(hav[k], F) else None
                                    tags = {'I'}
                        if any(norm(t) != norm(s.tag) for t in tags):
                            s.tag = 'U'; closed.pop(k, None); hav[k] = Undef; changed = True; continue
                    if s.tag == 'U': continue
                    ts = [self.comp(v, s.w)[1] for v in bv]; t0 = self.comp(s.v0, s.w)[1]
                    if k in closed:
                        nx = T.subst(closed[k], {kid: kap + T.ONE})
                        ok = True
                        for (bst, _), t in zip(backs, ts):
                            if t == nx: continue
                            if s.tag == 'B': ok = ok and self.entailed(bst, T.Iff(t, nx))
                            else: ok = ok and self.entailed(bst, Eq(t, nx), nl=3000)
                        if not ok:
                            if self.opts.get('dbg'): print('DBG unclose', k, T.show(nx), [T.show(t) for t in ts])
                            del closed[k]; noclosed.add(k); changed = True
                        continue
                    if k in noclosed: continue
                    if s.tag == 'B':
                        # constant booleans after the first iteration are handled by Houdini
                        if all(t is t0 for t in ts): closed[k] = t0; changed = True
                        continue
                    hv = self.comp(hav[k], s.w)[1]
                    # unchanged / linear recurrence
                    d = [t - hv for t in ts]
                    if all(x == d[0] for x in d) and self.preloop(d[0], mark, None):
                        closed[k] = t0 + d[0] * kap; changed = True; continue
                    if self.opts.get('dbg'): print('DBG', rnd, k, [T.show(t) for t in ts], T.show(hv), self.preloop(ts[0], mark, kid))
                    if all(t == ts[0] for t in ts) and self.preloop(ts[0], mark, kid):
                        g = T.subst(ts[0], {kid: kap - T.ONE})
                        g0 = T.subst(g, {kid: T.ZERO})
                        if g0 == t0 or self.entailed(entry, Eq(g0, t0)):
                            closed[k] = g; changed = True; continue
                    # polynomial recurrence: increment depends on kappa only
                    if all(x == d[0] for x in d) and self.preloop(d[0], mark, kid):
                        g = self.polysum(d[0], kid, kap)
                        if g is not None: closed[k] = t0 + g; changed = True; continue
            if self.opts.get('dbg'): print('DBG', rnd, closed, noclosed, hav)
            if not changed: break
        else: raise EngineError('loop inference does not converge: ' + name)
        self.slotmemo[key] = {k: 1 for k in slots}
        if not backs:
            # the body never reaches the header again: the header state is the entry state
            for k, sl in slots.items():
                if sl.tag != 'U' and k not in closed: closed[k] = entry.mem[k[1]].arr if k[0] == 'arr' else self.comp(sl.v0, sl.w)[1]
        if any(k not in closed and slots[k].tag != 'U' for k in strided): raise EngineError('element pointer without a closed form: ' + name)
        # ---- facts left by the guards of the previous iteration (kappa >= 1)
        prev = TRUE
        if backs:
            alts = []
            for bst, _ in backs:
                n0 = set(entry.pcset)
                fs = [f for f in bst.pc if f not in n0 and kid in T.support(f) and self.preloop(f, mark, kid)]
                alts.append(And(*[T.subst(f, {kid: kap - T.ONE}) for f in fs]))
            prev = Or(Le(kap, T.ZERO), Or(*alts))
        # ---- Houdini
        unsolved = [k for k, s in slots.items() if k not in closed and s.tag not in ('U',) and k[0] != 'arr']
        cands = []      # list of (descr, fn(valof, state, kap) -> Formula)
        if backs:
            cands = self.candidates(entry, slots, closed, unsolved, kap, name, isreal)
        # loops left when two expressions meet (first != last): they do not pass each other
        gp = {}
        for bst, _ in backs:
            for f in bst.pc:
                if f.op == 'not' and f.args[0].op == 'eq' and kid in T.support(f) and self.preloop(f, mark, kid): gp[f.args[0].args[0]] = 1
        for q in gp:
            for sgn_ in (1, -1):
                def f(val, st, kp, q=q, sgn_=sgn_): return Le(T.subst(q, {kid: kp}).scale(Fraction(sgn_)), T.ZERO)
                cands.append(('%s %s 0' % (T.show(q), '<=' if sgn_ > 0 else '>='), f, 0))
        # at kappa = 0 the header state is the entry state (true by definition of kappa)
        def zfact(vals):
            fs = []
            for k in unsolved:
                t, x = self.comp(slots[k].v0, slots[k].w); t2, y = self.comp(vals[k], slots[k].w)
                if t in ('I', 'N') and t2 in ('I', 'N'): fs.append(Eq(y, x))
                elif t == 'B' and t2 == 'B': fs.append(T.Iff(y, x))
            return Or(Le(T.ONE, kap), And(*fs)) if fs else TRUE
        # entry filter
        def valof_entry(k): return slots[k].v0
        live = []
        for c in cands:
            f = c[1](valof_entry, entry, T.ZERO)
            if f is TRUE or (f is not None and f is not FALSE and self.entailed(entry, f, nl=2000)): live.append(c)
        rounds = 0
        while True:
            vals, arrs = header_vals()
            valof = lambda k: vals[k]
            h = build(vals, arrs, [prev, zfact(vals)])
            facts = [c[1](valof, h, kap) for c in live]
            for x in facts:
                if x is not None: h.assume(x)
            if not live or not backs: break
            href = h.clone()
            hb = runbody(h.clone())
            if discover(href, hb): raise EngineError('new loop slots after inference: ' + name)
            drop = set()
            for bk in hb:
                bst = bk[0]
                vb = lambda k: backval(bk, k, slots[k])
                for i, c in enumerate(live):
                    if i in drop: continue
                    f = c[1](vb, bst, kap + T.ONE)
                    if f is None or not (f is TRUE or self.entailed(bst, f, nl=c[2])): drop.add(i)
            rounds += 1
            if not drop: break
            live = [c for i, c in enumerate(live) if i not in drop]
            if rounds > 30: raise EngineError('Houdini does not converge')
        # ---- final pass (candidates the solver cannot re-establish are dropped and the pass repeated)
        nsaved = None
        for attempt in range(6):
            h = build(vals, arrs, [prev, zfact(vals)])
            for c in live:
                x = c[1](lambda k: vals[k], h, kap)
                if x is not None: h.assume(x)
            inv = ['%s = %s' % (self.sname(k, B), T.show(closed[k]) if k[0] != 'arr' else 'element-wise') for k in slots if k in closed] + [c[0] for c in live]
            if not self.silent:
                self.loops_cut[name] = dict(slots=len(slots), closed=len(closed), invariants=inv[:40])
            href = h.clone()
            backs = []; exits = []
            snap = self.snapshot()
            onepass(h, backs, exits)
            bad = set()
            for bk in backs:
                bst = bk[0]
                for k, s in slots.items():
                    if s.tag == 'U' or k not in closed or k[0] == 'arr': continue
                    t = self.comp(backval(bk, k, s), s.w)[1]; nx = T.subst(closed[k], {kid: kap + T.ONE})
                    if isinstance(t, Poly):
                        if not (t == nx or self.entailed(bst, Eq(t, nx), nl=10000)): raise EngineError('closed form not inductive: %s' % name)
                for i, c in enumerate(live):
                    if i in bad: continue
                    f = c[1](lambda k: backval(bk, k, slots[k]), bst, kap + T.ONE)
                    if not (f is TRUE or self.entailed(bst, f, nl=max(c[2], 10000))): bad.add(i)
            if not bad: break
            live = [c for i, c in enumerate(live) if i not in bad]
            self.restore(snap)
        else: raise EngineError('invariants not inductive: %s' % name)
        if discover(href, backs): raise EngineError('loop slots changed in the final pass: ' + name)
        return exits

    # An iteration may release a heap object of the header state and put a new one of the same size in its place
    # (a temporary swapped with a member).  Object names mean nothing: the two are renamed into each other.
    def rename(self, entry, phis0, st, ph):
        gone = [i for i, o in entry.mem.items() if o.kind == 'heap' and not o.freed and i in st.mem and st.mem[i].freed]
        if not gone: return st, ph
        perm = {}
        def match(a, b):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o in gone and a.o not in perm and b.o not in perm and b.o not in entry.mem and b.o in st.mem:
                n = st.mem[b.o]; o = entry.mem[a.o]
                if n.kind == 'heap' and not n.freed and n.size == o.size and (n.arr is None) == (o.arr is None): perm[a.o] = b.o; perm[b.o] = a.o
        for a, b in zip(phis0, ph): match(a, b)
        for i, o in entry.mem.items():
            q = st.mem.get(i)
            if q is None or q is o: continue
            for off, c in o.cells.items():
                d = q.cells.get(off)
                if d is not None: match(c[1], d[1])
        if not perm: return st, ph
        def rv(v):
            if isinstance(v, Ptr): return Ptr(perm[v.o], v.off) if v.o in perm else v
            if isinstance(v, Pieces): return Pieces([(a, b, c, rv(d)) for a, b, c, d in v.p])
            if isinstance(v, tuple): return tuple(rv(x) for x in v)
            if isinstance(v, list): return [rv(x) for x in v]
            return v
        st = st.clone(); mem = {}
        for i, o in st.mem.items():
            ch = {off: rv(c[1]) for off, c in o.cells.items()}
            if i in perm or any(ch[off] is not c[1] and not self.same(ch[off], c[1]) for off, c in o.cells.items()):
                o = o.clone(st.id); o.id = perm.get(i, i); o.cells = {off: (c[0], ch[off], c[2]) for off, c in o.cells.items()}
            mem[perm.get(i, i)] = o
        st.mem = mem; st.exc = rv(st.exc); st.caught = rv(st.caught); st.note = rv(st.note)
        for f in st.frames:
            f.regs = [rv(v) for v in f.regs]; f.allocas = [perm.get(x, x) for x in f.allocas]
        return st, [rv(v) for v in ph]

    def snapshot(self):
        if self.silent: return None
        return ({i: (o.n, o.ok, list(o.fail), dict(o.backends), set(o.seen)) for i, o in self.obl.items()}, dict(self.covers), self.paths)
    def restore(self, sn):
        if sn is None: return
        for i in list(self.obl):
            if i not in sn[0]: del self.obl[i]; continue
            o = self.obl[i]; o.n, o.ok, o.fail, o.backends, o.seen = sn[0][i]
        self.covers = sn[1]; self.paths = sn[2]
    def sname(self, k, B):
        if k[0] == 'phi': return 'phi%d' % k[1]
        return '%s%s' % (k[0], list(k[1:3]))

    def same(self, a, b):
        if a is b: return True
        if type(a) != type(b): return False
        return a == b
    def preloop(self, t, mark, kid):
        for a in T.support(t):
            if isinstance(a, tuple):
                if a[1].startswith('A#') and int(a[1][2:]) >= 0 and a[1] in self._havarr: return False
                continue
            if a == kid: continue
            if a >= mark: return False
        return True
    def polysum(self, d, kid, kap):
        """sum_{i<kappa} d(i) for d polynomial in kappa of degree <= 2 (kappa appearing only polynomially)"""
        parts = {}
        for mon, c in d.m.items():
            e = dict(mon).get(kid, 0)
            if e < 0 or e > 2: return None
            rest = tuple(x for x in mon if x[0] != kid)
            for a, _ in rest:
                if kid in T.support(T.of_atom(ATOMS[a])): return None
            parts[e] = parts.get(e, T.ZERO) + Poly({rest: c})
        S = {0: kap, 1: (kap * kap - kap).scale(Fraction(1, 2)), 2: (kap * kap * kap).scale(Fraction(1, 3)) - (kap * kap).scale(Fraction(1, 2)) + kap.scale(Fraction(1, 6))}
        g = T.ZERO
        for e, p in parts.items(): g = g + p * S[e]
        return g

    # ---- element-wise arrays
    def arrform(self, entry, k, s, closed, hav, noclosed, backs, backval, kap, kid, mark, slots, href):
        a0 = entry.mem[k[1]].arr
        if k in closed:
            # verify:  closed(kappa) + writes == closed(kappa+1)
            ok = True
            cl = closed[k]
            for bk in backs:
                arr = backval(bk, k, s); wr = []
                while isinstance(arr, AStore): wr.append((arr.idx, arr.val)); arr = arr.prev
                if arr is not cl or not wr or any(w[0] != wr[0][0] for w in wr): ok = False; break
                idx, val = wr[0]
                if idx != cl.lo + kap: ok = False; break
                want = T.subst(cl.body, {cl.j: idx})
                if val != want and not self.entailed(bk[0], Eq(val, want), nl=3000):
                    if self.opts.get('dbg'): print('DBG arr', k, T.show(val), '|', T.show(want))
                    ok = False; break
            if not ok: del closed[k]; noclosed.add(k); return True
            return False
        if k in noclosed: raise EngineError('array update in a cut loop is not element-wise')
        hb = hav.get(k)
        if hb is None: return True
        vals = []
        for bk in backs:
            arr = backval(bk, k, s); wr = []
            while isinstance(arr, AStore): wr.append((arr.idx, arr.val)); arr = arr.prev
            if arr is not hb: noclosed.add(k); raise EngineError('array update shape')
            # keep the last write per index
            if len(wr) != 1 and not (len(wr) > 1 and all(w[0] == wr[0][0] for w in wr)): return False if not self.pending_idx(wr) else True
            vals.append(wr[0])
        if any(v != vals[0] for v in vals): raise EngineError('array update differs per path')
        idx, val = vals[0]
        c0 = idx - kap
        if not self.preloop(c0, mark, None): return False
        # earlier elements of the array itself: A[idx] is still the entry element
        names = {}
        for kk, ss in slots.items():
            if kk[0] == 'arr' and kk in hav: names[hav[kk].name] = kk
        bad = []
        def rd(nm):
            def f(i):
                if i != idx and nm in names and names[nm] == k: bad.append(i)
                return self.aread(entry, entry.mem[names[nm][1]].arr, i)
            return f
        v2 = T.subst(val, {}, {n: rd(n) for n in names})
        if bad: raise EngineError('array recurrence across elements')
        if not self.preloop(v2, mark, kid): return False
        j = T.var('j#%d' % next(self.fresh), 'I'); jid = T.atom1(j).id
        bodyp = T.subst(v2, {kid: j - c0})
        closed[k] = ARange(a0, c0, c0 + kap, jid, bodyp)
        return True
    def pending_idx(self, wr): return False

    # ---- candidate invariants
    def candidates(self, entry, slots, closed, unsolved, kap, name, isreal):
        out = []
        def num(v, s):
            if v is Undef or isinstance(v, Pieces): return None
            t = self.comp(v, s.w)
            return t[1] if t[0] in ('I', 'N') else None
        nums = [k for k in unsolved if slots[k].tag in ('I', 'N')]
        # differences between slots (same kind) are preserved
        for i, a in enumerate(nums):
            for b in nums[i+1:]:
                if isreal(slots[a]) != isreal(slots[b]): continue
                d0 = num(slots[a].v0, slots[a]) - num(slots[b].v0, slots[b])
                def f(val, st, kp, a=a, b=b, d0=d0):
                    x = num(val(a), slots[a]); y = num(val(b), slots[b])
                    return None if x is None or y is None else Eq(x - y, d0)
                out.append(('%r - %r constant' % (a, b), f, 0))
        # against solved slots (closed form) of same kind
        sol = [k for k in closed if k[0] != 'arr' and slots[k].tag in ('I', 'N')]
        for a in nums:
            for b in sol:
                if isreal(slots[a]) != isreal(slots[b]): continue
                d0 = num(slots[a].v0, slots[a]) - num(slots[b].v0, slots[b])
                for nm, mk in (('<=', lambda x, d: Le(x, d)), ('>=', lambda x, d: Le(d, x))):
                    def f(val, st, kp, a=a, b=b, d0=d0, mk=mk):
                        x = num(val(a), slots[a]); y = num(val(b), slots[b])
                        return None if x is None or y is None else mk(x - y, d0)
                    if not isreal(slots[a]): out.append(('%r - %r %s start' % (a, b, nm), f, 0))
        for a in nums:
            s = slots[a]; v0 = num(s.v0, s)
            for nm, mk in (('>= start', lambda x, v: Le(v, x)), ('<= start', lambda x, v: Le(x, v))):
                def f(val, st, kp, a=a, v0=v0, mk=mk):
                    x = num(val(a), slots[a]); return None if x is None else mk(x, v0)
                out.append(('%r %s' % (a, nm), f, 0))
            for nm, mk in (('> 0', lambda x: Lt(T.ZERO, x)), ('< 0', lambda x: Lt(x, T.ZERO)), ('>= 0', lambda x: Le(T.ZERO, x))):
                def f(val, st, kp, a=a, mk=mk):
                    x = num(val(a), slots[a]); return None if x is None else mk(x)
                out.append(('%r %s' % (a, nm), f, 1000))
            if not isreal(s) and s.tk != 'R':
                def f(val, st, kp, a=a):
                    x = num(val(a), slots[a]); return None if x is None else And(Le(T.ZERO, x), Le(x, T.ONE))
                out.append(('%r in {0,1}' % (a,), f, 0))
        for a in unsolved:
            if slots[a].tag == 'B':
                for pol in (True, False):
                    def f(val, st, kp, a=a, pol=pol):
                        v = val(a)
                        if v is Undef: return None
                        x = self.fb(self.tobool(v)); return x if pol else Not(x)
                    out.append(('%r %s' % (a, pol), f, 0))
        # pairs of booleans equal
        bs = [k for k in unsolved if slots[k].tag == 'B' or (slots[k].tag in ('I', 'N') and slots[k].tk == 'I8')]
        for i, a in enumerate(bs):
            for b in bs[i+1:]:
                def f(val, st, kp, a=a, b=b):
                    x, y = val(a), val(b)
                    if x is Undef or y is Undef: return None
                    return T.Iff(self.fb(self.tobool(x)), self.fb(self.tobool(y)))
                if slots[a].tag == 'B' or slots[b].tag == 'B': out.append(('%r == %r' % (a, b), f, 0))
        # harness predicates
        for fn in self.invfns:
            n = self.mod.fns[fn].nargs
            if n == 0:
                def f(val, st, kp, fn=fn): return self.evalpred(st, fn, [])
                out.append((fn, f, 3000))
            elif n == 1:      # one real slot
                for a in nums:
                    if not isreal(slots[a]): continue
                    def f(val, st, kp, fn=fn, a=a):
                        x = num(val(a), slots[a]); return None if x is None else self.evalpred(st, fn, [x])
                    out.append(('%s(%r)' % (fn, a), f, 3000))
            elif n == 2:      # real slot, iteration count
                for a in nums:
                    if not isreal(slots[a]): continue
                    def f(val, st, kp, fn=fn, a=a):
                        x = num(val(a), slots[a]); return None if x is None else self.evalpred(st, fn, [x, self.ni(kp, 64)])
                    out.append(('%s(%r,kappa)' % (fn, a), f, 3000))
        return out

    def evalpred(self, st, fn, args):
        s = st.clone(); base = list(s.pc); n0 = len(base)
        self.silent += 1
        try:
            root = self.mod.fns[fn]
            self.push(s, root, args, None); s.frames[-1].ret = 'root'
            done = []
            self.explore([(s, None)], Ctx(len(s.frames), None, None), [], done)
        finally: self.silent -= 1
        alts = []
        for q, _ in done:
            v = q.note
            if v is Undef or v is None: return None
            alts.append(And(*(q.pc[n0:] + [self.fb(self.tobool(v))])))
        return Or(*alts)
