"""Back ends.  1. normal form (terms.py decides during construction);  2. Z3, linear abstraction
(monomials as variables, complete for unsat transfer);  3. Z3 nonlinear;  4. cvc5 on the SMT-LIB text."""
import z3, time
from . import terms as T
from .terms import Poly, F, ATOMS

class Stats:
    def __init__(s): s.q = {}; s.t = {}
    def add(s, k, dt): s.q[k] = s.q.get(k, 0) + 1; s.t[k] = s.t.get(k, 0.0) + dt
STATS = Stats()

class Conv:
    """formula -> z3, with linear=True abstracting products"""
    def __init__(self, linear):
        self.linear = linear; self.pc = {}; self.fc = {}; self.ac = {}; self.mc = {}; self.side = {}   # side: atom id -> defining constraints
    def atom(self, i):
        r = self.ac.get(i)
        if r is not None: return r
        a = ATOMS[i]
        so = z3.IntSort() if a.sort == 'I' else (z3.BoolSort() if a.sort == 'B' else z3.RealSort())
        if a.kind == 'var': r = z3.Const('v%d' % i, so)
        elif a.kind in ('app', 'sel'):
            args = [self.real(x) for x in a.args]
            fd = z3.Function('f_%s_%s_%d' % (a.kind, a.name, len(args)), *([z3.RealSort()] * len(args) + [so]))
            r = fd(*args)
        elif a.kind == 'ite':
            if a.sort == 'I': r = z3.If(self.f(a.args[0]), self.int(a.args[1]), self.int(a.args[2]))
            else: r = z3.If(self.f(a.args[0]), self.real(a.args[1]), self.real(a.args[2]))
        elif a.kind == 'inv':
            r = z3.Real('inv%d' % i)
        self.ac[i] = r
        return r
    def mon(self, mon):
        """z3 real or int term for monomial (nonempty)"""
        r = self.mc.get(mon)
        if r is not None: return r
        if len(mon) == 1 and mon[0][1] == 1: r = self.atom(mon[0][0])
        elif self.linear:
            allint = all(ATOMS[a].sort == 'I' and e > 0 for a, e in mon)
            nm = 'm_' + '_'.join('%d^%d' % x for x in mon)
            r = z3.Int(nm) if allint else z3.Real(nm)
        else:
            allint = all(ATOMS[a].sort == 'I' and e > 0 for a, e in mon)
            fs = []
            for a, e in mon:
                x = self.atom(a)
                if not allint and z3.is_int(x): x = z3.ToReal(x)
                if e < 0:
                    key = ('ninv', a)
                    y = z3.Real('ninv%d' % a); self.side.setdefault(key, y * x == 1)
                    x = y; e = -e
                fs += [x] * e
            r = fs[0]
            for y in fs[1:]: r = r * y
        self.mc[mon] = r
        return r
    def real(self, p):
        r = self.pc.get(p)
        if r is None:
            ts = []
            for mon, c in p.m.items():
                if mon == (): ts.append(z3.RealVal(str(c)))
                else:
                    x = self.mon(mon)
                    if z3.is_int(x): x = z3.ToReal(x)
                    ts.append(x if c == 1 else z3.RealVal(str(c)) * x)
            r = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
            self.pc[p] = r
        return r
    def int(self, p):
        ts = []
        for mon, c in p.m.items():
            if mon == (): ts.append(z3.IntVal(int(c)))
            else:
                x = self.mon(mon); ts.append(x if c == 1 else z3.IntVal(int(c)) * x)
        return z3.IntVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
    def f(self, f):
        r = self.fc.get(f)
        if r is not None: return r
        op = f.op
        if op == 'true': r = z3.BoolVal(True)
        elif op == 'false': r = z3.BoolVal(False)
        elif op in ('le', 'lt', 'eq'):
            p = f.args[0]
            if p.is_int(): x = self.int(p); z = z3.IntVal(0)
            else: x = self.real(p); z = z3.RealVal(0)
            r = x <= z if op == 'le' else (x < z if op == 'lt' else x == z)
        elif op == 'and': r = z3.And([self.f(a) for a in f.args])
        elif op == 'or': r = z3.Or([self.f(a) for a in f.args])
        elif op == 'not': r = z3.Not(self.f(f.args[0]))
        elif op == 'bvar': r = self.atom(f.args[0])
        self.fc[f] = r
        return r

def all_atoms(fs):
    seen = set(); fseen = set(); st = list(fs)
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            for a in y.atoms():
                if a not in seen: seen.add(a); st.extend(ATOMS[a].args)
        elif isinstance(y, F):
            if y in fseen: continue
            fseen.add(y)
            if y.op == 'bvar': seen.add(y.args[0])
            else: st.extend(y.args)
    return seen

class Solver:
    def __init__(self):
        self.lin = Conv(True); self.nl = Conv(False); self.cache = {}; self.axioms = {}   # axioms: atom id -> [F] facts about app atoms
        self.deadline = None
    def axiom(self, atom_id, fs): self.axioms.setdefault(atom_id, list(fs))

    def _collect(self, fs):
        ats = all_atoms(fs); out = []; done = set()
        work = list(ats)
        while work:
            a = work.pop()
            if a in done: continue
            done.add(a)
            for ax in self.axioms.get(a, ()):
                out.append(ax); work.extend(all_atoms([ax]) - done)
        return done, out

    def check(self, fs, lin_ms=3000, nl_ms=8000, want_model=False):
        """returns 'unsat' | 'sat' | 'unknown' (+model)"""
        fs = [f for f in fs if f is not T.TRUE]
        if any(f is T.FALSE for f in fs): return ('unsat', None, 'normal-form')
        if not fs: return ('sat', None, 'normal-form')
        key = (frozenset(fs), nl_ms > 0, want_model)
        r = self.cache.get(key)
        if r is not None and (r[0] != 'unknown'): return r
        r = self._check(fs, lin_ms, nl_ms, want_model)
        self.cache[key] = r
        return r

    def _check(self, fs, lin_ms, nl_ms, want_model):
        ats, axs = self._collect(fs)
        allf = list(fs) + axs
        t0 = time.time()
        s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        s.set('timeout', lin_ms)
        for f in allf: s.add(self.lin.f(f))
        r = s.check(); STATS.add('z3-linear', time.time() - t0)
        if r == z3.unsat: return ('unsat', None, 'z3-linear')
        nonlin = any(len(mon) > 1 or any(e != 1 for _, e in mon) for f in all_polys(allf) for mon in f.m) or any(ATOMS[a].kind == 'inv' for a in ats)
        if not nonlin:
            if r == z3.sat: return ('sat', self._model(s, self.lin, ats) if want_model else None, 'z3-linear')
            if nl_ms <= 0: return ('unknown', None, 'z3-linear')
        if nl_ms <= 0: return ('unknown', None, 'z3-linear')
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', nl_ms)
        zs = [self.nl.f(f) for f in allf]
        for a in ats:
            if ATOMS[a].kind == 'inv':
                zs.append(self.nl.atom(a) * self.nl.real(ATOMS[a].args[0]) == 1)
        for k, c in self.nl.side.items():
            if k[1] in ats: zs.append(c)
        s.add(zs)
        r = s.check(); STATS.add('z3-nonlinear', time.time() - t0)
        if r == z3.unsat: return ('unsat', None, 'z3-nonlinear')
        if r == z3.sat: return ('sat', self._model(s, self.nl, ats) if want_model else None, 'z3-nonlinear')
        # try without integrality / UF : nlsat on pure reals if possible, then cvc5
        r2 = self._cvc5(s, nl_ms)
        if r2 == 'unsat': return ('unsat', None, 'cvc5')
        return ('unknown', None, 'z3-nonlinear')

    def _cvc5(self, s, ms):
        try:
            import cvc5
        except ImportError:
            return 'unknown'
        t0 = time.time()
        try:
            txt = s.to_smt2()
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption('tlimit-per', str(int(ms)))
            slv.setLogic('ALL')
            pr = cvc5.InputParser(slv)
            pr.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = pr.getSymbolManager(); res = 'unknown'
            while True:
                cmd = pr.nextCommand()
                if cmd.isNull(): break
                out = str(cmd.invoke(slv, sm)).strip()
                if out in ('sat', 'unsat', 'unknown'): res = out
            return res
        except Exception:
            return 'unknown'
        finally:
            STATS.add('cvc5', time.time() - t0)

    def _model(self, s, conv, ats):
        m = s.model(); out = {}
        for a in ats:
            A = ATOMS[a]
            if A.kind != 'var': continue
            v = m.eval(conv.atom(a), model_completion=True)
            try:
                if z3.is_int_value(v): out[A.name] = v.as_long()
                elif z3.is_rational_value(v): out[A.name] = v.as_fraction()
                elif z3.is_algebraic_value(v): out[A.name] = v.approx(20).as_fraction()
                elif z3.is_true(v): out[A.name] = 1
                elif z3.is_false(v): out[A.name] = 0
            except Exception: pass
        return out

    def valid(self, pc, goal, nl_ms=10000, want_model=False):
        """is goal entailed by pc?  ('proved', backend) | ('refuted', model) | ('unknown', None)"""
        if goal is T.TRUE: return ('proved', 'normal-form')
        if goal.op == 'eq':
            q = T.clear_inv(goal.args[0])
            if not q.m: return ('proved', 'normal-form')
        if goal.op == 'and':
            be = 'normal-form'
            for g in goal.args:
                r = self.valid(pc, g, nl_ms, want_model)
                if r[0] != 'proved': return r
                if r[1] != 'normal-form': be = r[1]
            return ('proved', be)
        pcs = set(pc)
        if goal in pcs: return ('proved', 'normal-form')
        r = self.check(list(pc) + [T.Not(goal)], nl_ms=nl_ms, want_model=want_model)
        if r[0] == 'unsat': return ('proved', r[2])
        if r[0] == 'sat': return ('refuted', r[1])
        return ('unknown', None)

def all_polys(fs):
    seen = set(); st = list(fs); out = []
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            if y in seen: continue
            seen.add(y); out.append(y)
            for a in y.atoms():
                st.extend(ATOMS[a].args)
        elif isinstance(y, F):
            if y in seen or y.op == 'bvar': continue
            seen.add(y); st.extend(y.args)
    return out
