"""Contracts of external functions and the harness interface (irv_*)."""
from .execu import *
from . import terms as T

def cstr(m, st, p):
    o = st.mem[p.o]; s = b''; i = p.off
    while True:
        c = (o.data or {}).get(i)
        if c is None:
            v = m.loadc(o, i, 1, 'I8'); c = v if isinstance(v, int) else 0
        if c == 0: return s.decode('utf8', 'replace')
        s += bytes([c]); i += 1

def nop(m, st, fr, ins, name, a): return ('v', None)
def undef(m, st, fr, ins, name, a): return ('v', Undef)

def s_new(m, st, fr, ins, name, a):
    n = a[0]
    if isinstance(n, Poly):
        o = m.newobj(st, n, 'heap')
        return ('v', Ptr(o, 0))
    o = m.newobj(st, int(n), 'heap'); return ('v', Ptr(o, 0))
def s_del(m, st, fr, ins, name, a):
    p = a[0]
    if p is Undef: m.oblig(st, 'mem:free-of-uninitialised-pointer', Undef); return ('dead',)
    if p.o == 0: return ('v', None)
    o = st.mem.get(p.o)
    if o is None or o.freed or o.kind != 'heap' or p.off != 0:
        m.oblig(st, 'mem:invalid-or-double-free', FALSE); return ('dead',)
    st.wobj(p.o).freed = True
    return ('v', None)
def s_memcpy(m, st, fr, ins, name, a):
    r = m.memcpy(st, a[0], a[1], a[2])
    return ('v', a[0]) if r else ('dead',)
def s_memset(m, st, fr, ins, name, a):
    p, v, n = a[0], a[1], a[2]
    if isinstance(n, Poly):
        if v != 0: raise EngineError('memset')
        o = st.wobj(p.o); off = p.off if isinstance(p.off, Poly) else C(p.off); sz = o.size if isinstance(o.size, Poly) else C(o.size)
        if o.arr is None: raise EngineError('symbolic memset')
        m.oblig(st, 'mem:in-bounds', And(Le(T.ZERO, off), Le(off + n, sz)))
        lo = m.aidx(st, o, p.off); cnt = n.scale(Fraction(1, o.es))
        o.arr = ARange(o.arr, lo, lo + cnt, -1, T.ZERO); return ('v', p)
    if n == 0: return ('v', p)
    o = m.chk(st, p, n, 'memset')
    if o is None: return ('dead',)
    o = st.wobj(p.o)
    if o.arr is not None:
        if v != 0 or n % 8: raise EngineError('memset')
        lo = m.aidx(st, o, p.off); o.arr = ARange(o.arr, lo, lo + C(n // 8), -1, T.ZERO); return ('v', p)
    m.clear(o, p.off, p.off + n)
    if v == 0: o.zero.append((p.off, p.off + n))
    elif isinstance(v, int):
        for i in range(n): o.cells[p.off + i] = (1, v, 'I8')
    return ('v', p)

# exceptions
def s_allocexc(m, st, fr, ins, name, a):
    o = m.newobj(st, int(a[0]), 'exc'); return ('v', Ptr(o, 0))
def s_throw(m, st, fr, ins, name, a):
    ti = a[1]; n = st.mem[ti.o].name if isinstance(ti, Ptr) and ti.o in st.mem else '?'
    return m.throw(st, n, a[0])
def s_rethrow(m, st, fr, ins, name, a):
    if not st.caught: raise EngineError('rethrow without exception')
    ti, obj = st.caught[-1]; return m.throw(st, ti, obj)
def s_begincatch(m, st, fr, ins, name, a):
    st.caught.append(st.exc); return ('v', a[0])
def s_endcatch(m, st, fr, ins, name, a):
    if st.caught: st.caught.pop()
    return ('v', None)
def thrower(ti):
    def f(m, st, fr, ins, name, a):
        o = m.newobj(st, 64, 'exc'); return m.throw(st, ti, Ptr(o, 0))
    return f
def s_boostthrow(m, st, fr, ins, name, a):
    dn = m.dm(name); i = dn.index('<'); depth = 0
    for j in range(i, len(dn)):
        if dn[j] == '<': depth += 1
        elif dn[j] == '>':
            depth -= 1
            if depth == 0: break
    ex = dn[i+1:j].strip(); ti = None
    for g in m.mod.gvs:
        if g.startswith('_ZTI') and m.dm(g) == 'typeinfo for ' + ex: ti = g; break
    if ti is None:
        ti = {'std::overflow_error': '_ZTISt14overflow_error', 'std::runtime_error': '_ZTISt13runtime_error', 'std::length_error': '_ZTISt12length_error'}.get(ex, '_ZTI?' + ex)
    o = m.newobj(st, 64, 'exc'); return m.throw(st, ti, Ptr(o, 0))
def s_typeid(m, st, fr, ins, name, a):
    p = a[0]
    if isinstance(p, Ptr) and p.o == 0: return ('v', m.tid(''))
    return ('v', m.tid(st.mem[p.o].name))
def s_terminate(m, st, fr, ins, name, a):
    m.oblig(st, 'exc:terminate', FALSE); return ('dead',)
def s_assertfail(m, st, fr, ins, name, a):
    m.oblig(st, 'mem:library-assertion', FALSE); return ('dead',)
def s_guard_acquire(m, st, fr, ins, name, a):
    o = st.mem[a[0].o]; v = m.loadc(o, a[0].off, 1, 'I8')
    return ('v', 1 if v == 0 else 0)
def s_guard_release(m, st, fr, ins, name, a):
    o = st.wobj(a[0].o); m.storec(o, a[0].off, 1, 1, 'I8'); return ('v', None)

# math
def s_fabs(m, st, fr, ins, name, a):
    p = a[0]
    if p is Undef: return ('v', Undef)
    if p.is_const(): return ('v', C(abs(p.const())))
    return ('v', m_abs(m, st, p))
def m_abs(m, st, p):
    c = Le(T.ZERO, p)
    if m.entailed(st, c): return p
    if m.entailed(st, Le(p, T.ZERO)): return -p
    k0 = sorted(p.m)[0 if () not in p.m or len(p.m) == 1 else 1]
    if p.m[k0] < 0: p = -p; c = Le(T.ZERO, p)
    return T.ite(c, p, -p)
def s_max(m, st, fr, ins, name, a):
    return ('v', T.ite(m.fb(m.bf(Lt(a[0], a[1]))), a[1], a[0]))
def s_min(m, st, fr, ins, name, a):
    return ('v', T.ite(m.fb(m.bf(Lt(a[1], a[0]))), a[1], a[0]))
def isqrt_exact(c):
    import math
    n, d = Fraction(c).numerator, Fraction(c).denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    return Fraction(rn, rd) if rn * rn == n and rd * rd == d else None
def s_sqrt(m, st, fr, ins, name, a):
    p = a[0]
    if p is Undef: return ('v', Undef)
    if p.is_const() and p.const() >= 0:
        r = isqrt_exact(p.const())
        if r is not None: return ('v', C(r))
    g = Le(T.ZERO, p)
    m.oblig(st, 'arith:sqrt-of-negative', g); st.assume(g)
    x = T.app('sqrt', (p,))
    m.solver.axiom(T.atom1(x).id, [Le(T.ZERO, x), Eq(x * x, p), Implies(Le(T.ONE, p), Le(T.ONE, x)), Implies(Le(p, T.ONE), Le(x, T.ONE)), Implies(Lt(T.ZERO, p), Lt(T.ZERO, x))])
    return ('v', x)
def s_pow(m, st, fr, ins, name, a):
    x, y = a
    if x is Undef or y is Undef: return ('v', Undef)
    if isinstance(y, int): y = C(sgn(y, 32))
    if y.is_const():
        c = y.const()
        if isinstance(c, int) and 0 <= c <= 16: return ('v', T.ppow(x, c))
        if isinstance(c, int) and -16 <= c < 0:
            r = m.fdiv(st, T.ONE, T.ppow(x, -c)); return r
    if x.is_const() and x.const() == 1: return ('v', T.ONE)
    g = Le(T.ZERO, x)
    m.oblig(st, 'arith:pow-of-negative', g); st.assume(g)
    z = T.app('pow', (x, y)); m.assumptions.add('pow: sign and comparison-with-1 facts only')
    O, Z = T.ONE, T.ZERO
    ex = []
    if y.is_const() and -64 <= y.const() <= 64 and y.const() != 0:
        # monotone in the base: compare with the value at base ten, enlarged by far more than its rounding error
        v = 10.0 ** float(y.const()); up, lo = C(Fraction(v) * Fraction(1000001, 1000000)), C(Fraction(v) * Fraction(999999, 1000000))
        ten = C(10)
        ex = [Implies(Le(ten, x), Le(z, up)), Implies(And(Lt(Z, x), Le(x, ten)), Le(lo, z))] if y.const() < 0 else [Implies(Le(ten, x), Le(lo, z)), Implies(And(Le(Z, x), Le(x, ten)), Le(z, up))]
    m.solver.axiom(T.atom1(z).id, ex + [Le(Z, z), Implies(Lt(Z, x), Lt(Z, z)), Implies(And(Le(O, x), Le(Z, y)), Le(O, z)), Implies(And(Le(O, x), Le(y, Z)), Le(z, O)),
        Implies(And(Lt(Z, x), Le(x, O), Le(Z, y)), Le(z, O)), Implies(And(Lt(Z, x), Le(x, O), Le(y, Z)), Le(O, z)),
        Implies(And(Lt(O, x), Lt(Z, y)), Lt(O, z)), Implies(And(Lt(O, x), Lt(y, Z)), Lt(z, O)), Implies(And(Lt(Z, x), Lt(x, O), Lt(Z, y)), Lt(z, O)), Implies(And(Lt(Z, x), Lt(x, O), Lt(y, Z)), Lt(O, z)),
        Implies(Eq(y, Z), Eq(z, O))])
    return ('v', z)
def s_uf1(fname, axioms=None):
    def f(m, st, fr, ins, name, a):
        if a[0] is Undef: return ('v', Undef)
        z = T.app(fname, (a[0],))
        if axioms: m.solver.axiom(T.atom1(z).id, axioms(a[0], z))
        m.assumptions.add('%s: uninterpreted (basic facts only)' % fname)
        return ('v', z)
    return f
def ax_exp(x, z): return [Lt(T.ZERO, z), Implies(Le(T.ZERO, x), Le(T.ONE, z)), Implies(Le(x, T.ZERO), Le(z, T.ONE))]
def ax_log(x, z): return [Implies(Le(T.ONE, x), Le(T.ZERO, z)), Implies(And(Lt(T.ZERO, x), Le(x, T.ONE)), Le(z, T.ZERO))]
def ax_atan(x, z): return [Le(z, C(Fraction(15708, 10000))), Le(C(Fraction(-15708, 10000)), z), Implies(Le(T.ZERO, x), And(Le(T.ZERO, z), Le(z, x))), Implies(Le(x, T.ZERO), And(Le(z, T.ZERO), Le(x, z))), Implies(Le(C(-1), x), Le(C(Fraction(-7854, 10000)), z))]
def s_floor(m, st, fr, ins, name, a):
    p = a[0]
    if p.is_const():
        import math
        return ('v', C(math.floor(p.const()) if 'floor' in name else math.ceil(p.const())))
    x = T.app('floor' if 'floor' in name else 'ceil', (p,), 'I')
    m.solver.axiom(T.atom1(x).id, [Le(x, p), Lt(p, x + T.ONE)] if 'floor' in name else [Le(p, x), Lt(x - T.ONE, p)])
    return ('v', x)
def s_false(m, st, fr, ins, name, a): return ('v', False)
def s_first(m, st, fr, ins, name, a): return ('v', a[0])
def s_constant(m, st, fr, ins, name, a): return ('v', isinstance(a[0], (int, bool)))

# constrained fp
def s_cfp(m, st, fr, ins, name, a):
    op = name.split('.')[3]
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return m.fop(st, op, a[0], a[1])
    if op in ('fcmp', 'fcmps'): return ('v', m.fcmp(a[2][1], a[0], a[1]))
    if op in ('sitofp', 'uitofp'):
        sfx = name.split('.')[-1]; w = int(sfx[1:])
        class S: k = 'int'
        S.w = w
        return m.cast(st, op, a[0], S, ins.ty)
    if op in ('fptosi', 'fptoui', 'fpext', 'fptrunc'): return m.cast(st, op, a[0], None, ins.ty)
    if op == 'sqrt': return s_sqrt(m, st, fr, ins, name, a)
    if op in ('pow', 'powi'): return s_pow(m, st, fr, ins, name, a[:2])
    if op in ('maxnum',): return s_max(m, st, fr, ins, name, a)
    if op in ('minnum',): return s_min(m, st, fr, ins, name, a)
    if op in ('floor', 'ceil'): return s_floor(m, st, fr, ins, name, a)
    if op == 'exp': return s_uf1('exp', ax_exp)(m, st, fr, ins, name, a)
    if op in ('log', 'log10'): return s_uf1(op, ax_log)(m, st, fr, ins, name, a)
    if op in ('fma', 'fmuladd'): return ('v', a[0] * a[1] + a[2])
    if op in ('sin', 'cos'): return s_uf1(op)(m, st, fr, ins, name, a)
    raise EngineError('constrained ' + op)
def h_fp(m, st, fr, ins, name, a): m.fpuf = a[0] == 1; return ('v', None)
def s_fmuladd(m, st, fr, ins, name, a):
    if any(x is Undef for x in a): return ('v', Undef)
    return ('v', a[0] * a[1] + a[2])
def s_ovf(m, st, fr, ins, name, a):
    op = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[name.split('.')[1][1:4]]; signed = name.split('.')[1][0] == 's'
    w = int(name.rsplit('.i', 1)[1])
    if isinstance(a[0], int) and isinstance(a[1], int):
        x, y = (sgn(a[0], w), sgn(a[1], w)) if signed else (a[0], a[1])
        r = x + y if op == 'add' else (x - y if op == 'sub' else x * y)
        lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, (1 << w) - 1)
        return ('v', (r % (1 << w), not (lo <= r <= hi)))
    return ('v', (m.iop(st, op, w, a[0], a[1])[1], False))
def s_imm(m, st, fr, ins, name, a):
    k = name.split('.')[1]; w = ins.ty.w
    if isinstance(a[0], int) and isinstance(a[1], int):
        x, y = (sgn(a[0], w), sgn(a[1], w)) if k[0] == 's' else (a[0], a[1])
        return ('v', (max(x, y) if 'max' in k else min(x, y)) % (1 << w))
    x, y = m.ip(a[0], w), m.ip(a[1], w)
    return ('v', T.ite(Le(y, x), x, y, 'I') if 'max' in k else T.ite(Le(x, y), x, y, 'I'))
def s_iabs(m, st, fr, ins, name, a):
    w = ins.ty.w
    if isinstance(a[0], int): return ('v', abs(sgn(a[0], w)))
    return ('v', m_abs(m, st, m.ip(a[0], w)))

# ---------------------------------------------------------------- harness interface
def fresh(m, st, nm, sort='R'):
    k = sum(1 for x in st.inputs if x[0] == nm)
    v = T.var('%s#%d' % (nm, next(m.fresh)), sort)
    st.inputs.append((nm, k, ATOMS[T.atom1(v).id].name))
    return v
def h_real(m, st, fr, ins, name, a): return ('v', fresh(m, st, cstr(m, st, a[0])))
def h_int(m, st, fr, ins, name, a):
    lo, hi = m.ip(a[1], 64), m.ip(a[2], 64)
    if lo == hi: 
        st.inputs.append((cstr(m, st, a[0]), 0, None))
        return ('v', m.ni(lo, 64))
    v = fresh(m, st, cstr(m, st, a[0]), 'I')
    st.assume(And(Le(lo, v), Le(v, hi)))
    return ('v', v)
def h_nat(m, st, fr, ins, name, a):
    lo = m.ip(a[1], 64)
    v = fresh(m, st, cstr(m, st, a[0]), 'I'); st.assume(Le(lo, v))
    return ('v', v)
def h_bool(m, st, fr, ins, name, a):
    nm = cstr(m, st, a[0]); k = next(m.fresh); f = T.bvar('%s#%d' % (nm, k))
    st.inputs.append((nm, 0, '%s#%d' % (nm, k)))
    return ('v', f)
def h_choose(m, st, fr, ins, name, a):
    nm = cstr(m, st, a[0]); n = a[1]; out = []
    for i in range(n - 1, -1, -1):
        s = st.clone() if i else st
        s.inputs.append((nm, i, None)); s.trace.append('%s=%d' % (nm, i))
        f = s.frames[-1]; f.regs[ins.id] = i
        if ins.op == 'invoke': out.append((s, ('jump', ins.x['normal'])))
        else: f.ip += 1; out.append((s, None))
    return ('fork', out)
def fml(m, v):
    if v is Undef: return Undef
    return m.fb(m.tobool(v))
def h_assume(m, st, fr, ins, name, a):
    f = fml(m, a[0])
    if f is Undef: raise EngineError('assume on undef')
    if f is FALSE or not m.feasible(st, f): return ('dead',)
    st.assume(f)
def h_assert(m, st, fr, ins, name, a):
    f = fml(m, a[0]); id = cstr(m, st, a[1])
    ok = m.oblig(st, id, f)
    if f is FALSE: return ('dead',)
    if f is not Undef and not m.silent: st.assume(f) if ok else None
    elif f is not Undef: pass
def h_cover(m, st, fr, ins, name, a):
    if m.silent: return
    id = cstr(m, st, a[0])
    if m.covers.get(id) == 'reached': return
    r = m.solver.check(st.pc, nl_ms=4000)
    m.covers[id] = 'reached' if r[0] == 'sat' else (m.covers.get(id) or ('unreachable' if r[0] == 'unsat' else 'undecided'))
    if r[0] == 'unknown': m.covers[id] = 'undecided'
def h_eq(m, st, fr, ins, name, a):
    if a[0] is Undef or a[1] is Undef: return ('v', Undef)
    return ('v', m.bf(Eq(a[0], a[1])))
def h_le(m, st, fr, ins, name, a):
    if a[0] is Undef or a[1] is Undef: return ('v', Undef)
    return ('v', m.bf(Le(a[0], a[1])))
def h_uf(m, st, fr, ins, name, a):
    n = a[1]; args = []
    for v in a[2:2 + n]:
        if v is Undef: return ('v', Undef)
        args.append(v if isinstance(v, Poly) else m.ip(v, 64))
    return ('v', T.app(cstr(m, st, a[0]), args))
def h_unroll(m, st, fr, ins, name, a): st.unroll = a[0]
def h_isnat(m, st, fr, ins, name, a): return ('v', 0)
def h_dump(m, st, fr, ins, name, a):
    if not m.silent: print('DUMP', cstr(m, st, a[0]), a[1:], [T.show(x) for x in st.pc])
def h_defined(m, st, fr, ins, name, a): return ('v', a[0] is not Undef)
def h_merge(m, st, fr, ins, name, a):
    x = cstr(m, st, a[0])
    if x not in m.merge: m.merge.append(x)
def h_contract(m, st, fr, ins, name, a):
    x = (cstr(m, st, a[0]), cstr(m, st, a[1]))
    if x not in m.replace: m.replace.append(x)
def h_note(m, st, fr, ins, name, a): st.trace.append(cstr(m, st, a[0]))

TAB = {
 '_Znwm': s_new, '_Znam': s_new, '_ZdlPv': s_del, '_ZdlPvm': s_del, '_ZdaPv': s_del, '_ZdaPvm': s_del, '_ZnwmSt11align_val_t': s_new, '_ZdlPvSt11align_val_t': s_del, '_ZdlPvmSt11align_val_t': s_del,
 'malloc': s_new, 'free': s_del, 'memcpy': s_memcpy, 'memmove': s_memcpy, 'memset': s_memset,
 '__cxa_allocate_exception': s_allocexc, '__cxa_free_exception': nop, '__cxa_throw': s_throw, '__cxa_rethrow': s_rethrow, '__cxa_begin_catch': s_begincatch,
 '__cxa_end_catch': s_endcatch, '_ZSt9terminatev': s_terminate, '__clang_call_terminate': s_terminate, '__cxa_atexit': nop, '__cxa_guard_acquire': s_guard_acquire,
 '__cxa_guard_release': s_guard_release, '__cxa_guard_abort': nop, '__assert_fail': s_assertfail, 'abort': s_terminate,
 '_ZSt20__throw_length_errorPKc': thrower('_ZTISt12length_error'), '_ZSt28__throw_bad_array_new_lengthv': thrower('_ZTISt20bad_array_new_length'), '_ZSt17__throw_bad_allocv': thrower('_ZTISt9bad_alloc'),
 '_ZSt24__throw_out_of_range_fmtPKcz': thrower('_ZTISt12out_of_range'), '_ZSt20__throw_out_of_rangePKc': thrower('_ZTISt12out_of_range'), '_ZSt19__throw_logic_errorPKc': thrower('_ZTISt11logic_error'),
 '_ZSt25__throw_bad_function_callv': thrower('_ZTISt17bad_function_call'), '_ZNSt8ios_base4InitC1Ev': nop, '_ZNSt8ios_base4InitD1Ev': nop,
 'sqrt': s_sqrt, 'pow': s_pow, 'fabs': s_fabs, 'exp': s_uf1('exp', ax_exp), 'log': s_uf1('log', ax_log), 'log10': s_uf1('log10', ax_log), 'sin': s_uf1('sin'), 'atan': s_uf1('atan', ax_atan), 'cos': s_uf1('cos'),
 'floor': s_floor, 'ceil': s_floor, 'fmax': s_max, 'fmin': s_min, 'sprintf': undef, 'snprintf': undef, 'strlen': undef, 'puts': undef, 'printf': undef,
 'irv_real': h_real, 'irv_int': h_int, 'irv_nat': h_nat, 'irv_bool': h_bool, 'irv_choose': h_choose, 'irv_assume': h_assume, 'irv_assert': h_assert, 'irv_cover': h_cover,
 'irv_eq': h_eq, 'irv_same': h_eq, 'irv_fp': h_fp, 'irv_le': h_le, 'irv_uf': h_uf, 'irv_unroll': h_unroll, 'irv_native': h_isnat, 'irv_note': h_note, 'irv_merge': h_merge, 'irv_contract': h_contract, 'irv_dump': h_dump, 'irv_defined': h_defined,
}
PFX = [
 ('llvm.memcpy', s_memcpy), ('llvm.memmove', s_memcpy), ('llvm.memset', s_memset), ('llvm.experimental.constrained.', s_cfp), ('llvm.fabs', s_fabs), ('llvm.maxnum', s_max), ('llvm.minnum', s_min),
 ('llvm.sqrt', s_sqrt), ('llvm.pow', s_pow), ('llvm.fmuladd', s_fmuladd), ('llvm.fma', s_fmuladd), ('llvm.floor', s_floor), ('llvm.ceil', s_floor),
 ('llvm.is.fpclass', s_false), ('llvm.expect', s_first), ('llvm.is.constant', s_constant), ('llvm.eh.typeid.for', s_typeid), ('llvm.trap', s_terminate),
 ('llvm.umul.with.overflow', s_ovf), ('llvm.uadd.with.overflow', s_ovf), ('llvm.smul.with.overflow', s_ovf), ('llvm.sadd.with.overflow', s_ovf), ('llvm.usub.with.overflow', s_ovf), ('llvm.ssub.with.overflow', s_ovf),
 ('llvm.umax', s_imm), ('llvm.umin', s_imm), ('llvm.smax', s_imm), ('llvm.smin', s_imm), ('llvm.abs', s_iabs), ('llvm.exp', s_uf1('exp', ax_exp)), ('llvm.log', s_uf1('log', ax_log)),
 ('llvm.lifetime', nop), ('llvm.assume', nop), ('llvm.dbg', nop), ('llvm.invariant', nop), ('llvm.experimental.noalias', nop), ('llvm.launder', s_first), ('llvm.donothing', nop), ('llvm.prefetch', nop), ('llvm.stacksave', undef), ('llvm.stackrestore', nop),
]
def find(m, name):
    h = TAB.get(name)
    if h is not None: return h
    if name.startswith('llvm.'):
        for p, f in PFX:
            if name.startswith(p): return f
        raise EngineError('intrinsic ' + name)
    d = m.dm(name)
    if 'boost::throw_exception<' in d and '(' in d and d.index('boost::throw_exception<') < d.index('('): return s_boostthrow
    if '__cxx11::basic_string<' in d.split('(')[0] or d.startswith('std::char_traits') or 'std::operator+<char' in d or 'std::__cxx11::to_string' in d: return undef
    f = m.mod.fns.get(name)
    if f is not None and f.decl:
        if d.startswith(('std::runtime_error::', 'std::logic_error::', 'std::exception::', 'std::overflow_error::', 'std::range_error::')): return nop
        if 'exception' in d and '~' in d: return nop
    return None
