"""Reader of LLVM bitcode through the LLVM-C API (ctypes).  Turns a module into
plain Python objects; no textual IR is parsed anywhere."""
import ctypes as C, ctypes.util, os
from fractions import Fraction

_lib = None
def lib():
    global _lib
    if _lib is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "libLLVM-18.so.1"):
            try:
                _lib = C.CDLL(p); break
            except OSError:
                continue
        if _lib is None:
            raise RuntimeError("libLLVM-18 not found")
    return _lib

P = C.c_void_p
def fn(name, res, *args):
    f = getattr(lib(), name); f.restype = res; f.argtypes = list(args); return f

class L: pass
def _bind():
    d = dict(
    LLVMCreateMemoryBufferWithContentsOfFile=(C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)),
    LLVMContextCreate=(P,), LLVMParseIRInContext=(C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p)),
    LLVMGetFirstFunction=(P, P), LLVMGetNextFunction=(P, P), LLVMGetFirstGlobal=(P, P), LLVMGetNextGlobal=(P, P),
    LLVMGetFirstGlobalAlias=(P, P), LLVMGetNextGlobalAlias=(P, P), LLVMAliasGetAliasee=(P, P),
    LLVMGetValueName2=(C.c_void_p, P, C.POINTER(C.c_size_t)), LLVMIsDeclaration=(C.c_int, P),
    LLVMGetInitializer=(P, P), LLVMGlobalGetValueType=(P, P), LLVMIsGlobalConstant=(C.c_int, P),
    LLVMGetFirstBasicBlock=(P, P), LLVMGetNextBasicBlock=(P, P), LLVMGetFirstInstruction=(P, P), LLVMGetNextInstruction=(P, P),
    LLVMGetInstructionOpcode=(C.c_int, P), LLVMGetNumOperands=(C.c_int, P), LLVMGetOperand=(P, P, C.c_uint),
    LLVMTypeOf=(P, P), LLVMGetTypeKind=(C.c_int, P), LLVMGetIntTypeWidth=(C.c_uint, P),
    LLVMCountStructElementTypes=(C.c_uint, P), LLVMStructGetTypeAtIndex=(P, P, C.c_uint), LLVMGetElementType=(P, P),
    LLVMGetArrayLength2=(C.c_uint64, P), LLVMGetVectorSize=(C.c_uint, P), LLVMGetValueKind=(C.c_int, P), LLVMValueIsBasicBlock=(C.c_int, P),
    LLVMValueAsBasicBlock=(P, P), LLVMConstIntGetZExtValue=(C.c_ulonglong, P), LLVMGetModuleDataLayout=(P, P),
    LLVMOffsetOfElement=(C.c_ulonglong, P, P, C.c_uint), LLVMABISizeOfType=(C.c_ulonglong, P, P), LLVMStoreSizeOfType=(C.c_ulonglong, P, P),
    LLVMGetGEPSourceElementType=(P, P), LLVMGetNumIndices=(C.c_uint, P), LLVMGetIndices=(C.POINTER(C.c_uint), P),
    LLVMGetICmpPredicate=(C.c_int, P), LLVMGetFCmpPredicate=(C.c_int, P), LLVMGetCalledValue=(P, P), LLVMGetNumArgOperands=(C.c_uint, P),
    LLVMGetNormalDest=(P, P), LLVMGetUnwindDest=(P, P), LLVMIsConditional=(C.c_int, P), LLVMCountIncoming=(C.c_uint, P),
    LLVMGetIncomingValue=(P, P, C.c_uint), LLVMGetIncomingBlock=(P, P, C.c_uint), LLVMGetNumClauses=(C.c_uint, P), LLVMGetClause=(P, P, C.c_uint),
    LLVMIsCleanup=(C.c_int, P), LLVMGetAllocatedType=(P, P), LLVMCountParams=(C.c_uint, P), LLVMGetParam=(P, P, C.c_uint),
    LLVMGetConstOpcode=(C.c_int, P), LLVMConstRealGetDouble=(C.c_double, P, C.POINTER(C.c_int)), LLVMPrintValueToString=(C.c_void_p, P),
    LLVMGetMDString=(C.c_void_p, P, C.POINTER(C.c_uint)), LLVMDisposeMessage=(None, C.c_void_p), LLVMIsAConstantExpr=(P, P),
    LLVMGetAsString=(C.c_void_p, P, C.POINTER(C.c_size_t)), LLVMGetElementAsConstant=(P, P, C.c_uint), LLVMGetAggregateElement=(P, P, C.c_uint),
    LLVMGetSwitchDefaultDest=(P, P), LLVMGetNumSuccessors=(C.c_uint, P), LLVMGetSuccessor=(P, P, C.c_uint), LLVMIsNull=(C.c_int, P),
    LLVMIsUndef=(C.c_int, P), LLVMIsPoison=(C.c_int, P), LLVMGetCmpXchgSuccessOrdering=(C.c_int, P), LLVMGetNSW=(C.c_int, P), LLVMGetNUW=(C.c_int, P),
    LLVMIsPackedStruct=(C.c_int, P),
    )
    for k, v in d.items():
        try: setattr(L, k[4:], fn(k, *v))
        except AttributeError: pass
OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',
 29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',
 55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
VK = {0:'arg',1:'bb',5:'func',6:'alias',8:'gvar',9:'baddr',10:'cexpr',11:'carray',12:'cstruct',13:'cvector',14:'undef',15:'caz',16:'cdarr',17:'cdvec',18:'cint',19:'cfp',20:'null',22:'mdval',23:'asm',24:'inst',25:'poison'}
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86fp80',5:'fp128',7:'label',8:'int',9:'fn',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}

class Ty:
    __slots__ = ('k','w','el','n','elems','offs','size','store')
    def __repr__(s): return {'int': 'i%s' % s.w}.get(s.k, s.k)

class Ins:
    __slots__ = ('op','ty','ops','id','x','blk','raw')
class Blk:
    __slots__ = ('ix','ins','nphi','fn','succ','name')
class Fn:
    __slots__ = ('name','decl','blocks','nargs','h','mod','loops','argtys','ninst')
class GV:
    __slots__ = ('name','h','ty','const','init','size')

class Module:
    def __init__(self, path):
        if not hasattr(L, 'ContextCreate'): _bind()
        self.ctx = L.ContextCreate()
        buf = P(); err = C.c_char_p()
        if L.CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if L.ParseIRInContext(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.m = m
        self.dl = L.GetModuleDataLayout(m)
        self.tycache = {}
        self.fns = {}; self.gvs = {}; self.aliases = {}
        self.h2f = {}; self.h2g = {}; self.h2a = {}
        f = L.GetFirstFunction(m)
        while f:
            o = Fn(); o.name = self.vname(f); o.decl = bool(L.IsDeclaration(f)); o.blocks = None; o.h = f; o.mod = self; o.loops = None
            o.nargs = L.CountParams(f); self.fns[o.name] = o; self.h2f[f] = o
            f = L.GetNextFunction(f)
        g = L.GetFirstGlobal(m)
        while g:
            o = GV(); o.name = self.vname(g); o.h = g; o.const = bool(L.IsGlobalConstant(g)); o.ty = self.ty(L.GlobalGetValueType(g))
            o.init = None if L.IsDeclaration(g) else L.GetInitializer(g)
            self.gvs[o.name] = o; self.h2g[g] = o
            g = L.GetNextGlobal(g)
        a = L.GetFirstGlobalAlias(m)
        while a:
            self.h2a[a] = (self.vname(a), L.AliasGetAliasee(a)); a = L.GetNextGlobalAlias(a)
        self.ccache = {}

    def vname(self, v):
        n = C.c_size_t(); p = L.GetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode('utf8', 'replace') if p else ''

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None: return r
        r = Ty(); k = TK.get(L.GetTypeKind(t), '?'); r.k = k; r.w = 0; r.el = None; r.n = 0; r.elems = None; r.offs = None; r.size = 0; r.store = 0
        self.tycache[t] = r
        if k == 'int': r.w = L.GetIntTypeWidth(t)
        elif k == 'struct':
            n = L.CountStructElementTypes(t)
            r.elems = [self.ty(L.StructGetTypeAtIndex(t, i)) for i in range(n)]
            try: r.offs = [L.OffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception: r.offs = []
        elif k == 'array':
            r.el = self.ty(L.GetElementType(t)); r.n = L.GetArrayLength2(t)
        elif k == 'vector':
            r.el = self.ty(L.GetElementType(t)); r.n = L.GetVectorSize(t)
        if k in ('int', 'float', 'double', 'x86fp80', 'fp128', 'ptr', 'struct', 'array', 'vector', 'half'):
            r.size = L.ABISizeOfType(self.dl, t); r.store = L.StoreSizeOfType(self.dl, t)
        return r

    def text(self, v):
        p = L.PrintValueToString(v); s = C.string_at(p).decode('utf8', 'replace'); L.DisposeMessage(p); return s

    # ---- constants: symbolic descriptors ('int',w,v) ('fp',Fraction) ('null') ('undef') ('fn',Fn) ('gv',GV) ('gep',base,off) ('agg',[..]) ('zero',ty)
    def const(self, v):
        r = self.ccache.get(v)
        if r is None:
            r = self._const(v); self.ccache[v] = r
        return r

    def _const(self, v):
        k = VK.get(L.GetValueKind(v), None)
        t = self.ty(L.TypeOf(v))
        if k == 'cint':
            if t.w <= 64: return ('int', t.w, L.ConstIntGetZExtValue(v))
            s = self.text(v).split()[-1]
            return ('int', t.w, int(s) % (1 << t.w))
        if k == 'cfp':
            loss = C.c_int(); d = L.ConstRealGetDouble(v, C.byref(loss))
            return ('fp', t.k, d)
        if k == 'null': return ('null',)
        if k in ('undef', 'poison'): return ('undef', t)
        if k == 'caz': return ('zero', t)
        if k == 'func': return ('fn', self.h2f[v].name)
        if k == 'gvar': return ('gv', self.h2g[v].name)
        if k == 'alias': return self.const(self.h2a[v][1])
        if k in ('carray', 'cstruct', 'cvector'):
            return ('agg', t, [self.const(L.GetOperand(v, i)) for i in range(L.GetNumOperands(v))])
        if k in ('cdarr', 'cdvec'):
            if t.el.k == 'int' and t.el.w == 8:
                n = C.c_size_t(); p = L.GetAsString(v, C.byref(n)); return ('bytes', C.string_at(p, n.value))
            return ('agg', t, [self.const(L.GetElementAsConstant(v, i)) for i in range(t.n)])
        if k == 'cexpr':
            op = OPC.get(L.GetConstOpcode(v))
            ops = [L.GetOperand(v, i) for i in range(L.GetNumOperands(v))]
            if op == 'gep':
                return ('gep', self.const(ops[0]), self.gepoff(self.ty(L.GetGEPSourceElementType(v)), [self.const(o) for o in ops[1:]]))
            if op in ('bitcast', 'addrspacecast'): return self.const(ops[0])
            if op in ('ptrtoint', 'inttoptr', 'sub', 'add', 'trunc'):
                return ('cx', op, t, [self.const(o) for o in ops])
        if k == 'mdval':
            n = C.c_uint(); p = L.GetMDString(v, C.byref(n))
            return ('md', C.string_at(p, n.value).decode() if p else None)
        if k == 'asm': return ('asm',)
        return ('unsupported', 'constant kind %s: %s' % (k, self.text(v)[:200]))

    @staticmethod
    def gepoff(ty, idx):
        def ival(c):
            if c[0] == 'int': return c[2] - (1 << c[1]) if c[2] >> (c[1]-1) else c[2]
            if c[0] == 'zero': return 0
            raise NotImplementedError('const gep index %r' % (c,))
        off = ival(idx[0]) * ty.size
        for c in idx[1:]:
            i = ival(c)
            if ty.k == 'struct': off += ty.offs[i]; ty = ty.elems[i]
            else: off += i * ty.el.size; ty = ty.el
        return off

    # ---- function bodies
    def body(self, f):
        if f.blocks is not None: return
        bbs = []; b = L.GetFirstBasicBlock(f.h); ix = {}
        while b:
            ix[b] = len(bbs); bbs.append(b); b = L.GetNextBasicBlock(b)
        ids = {}; nid = 0
        f.argtys = []
        for i in range(f.nargs):
            p = L.GetParam(f.h, i); ids[p] = nid; nid += 1; f.argtys.append(self.ty(L.TypeOf(p)))
        raw = []
        for b in bbs:
            lst = []; i = L.GetFirstInstruction(b)
            while i:
                lst.append(i); ids[i] = nid; nid += 1; i = L.GetNextInstruction(i)
            raw.append(lst)
        f.blocks = []
        for bi, lst in enumerate(raw):
            B = Blk(); B.ix = bi; B.fn = f; B.ins = []; B.nphi = 0; B.succ = []
            for i in lst:
                B.ins.append(self._ins(i, ids, ix, B))
            B.nphi = sum(1 for q in B.ins if q.op == 'phi')
            t = B.ins[-1]
            if t.op == 'br': B.succ = list(t.x)
            elif t.op == 'switch': B.succ = [t.x[0]] + [d for _, d in t.x[1]]
            elif t.op == 'invoke': B.succ = [t.x['normal'], t.x['unwind']]
            f.blocks.append(B)
        f.ninst = nid
        self.findloops(f)

    def _opnd(self, v, ids):
        i = ids.get(v)
        if i is not None: return i            # int -> SSA id
        return self.const(v)                  # tuple -> constant

    def _ins(self, h, ids, bix, B):
        I = Ins(); I.raw = h; I.op = OPC.get(L.GetInstructionOpcode(h), '?%d' % L.GetInstructionOpcode(h)); I.ty = self.ty(L.TypeOf(h)); I.id = ids[h]; I.blk = B; I.x = None
        op = I.op
        n = L.GetNumOperands(h)
        if op == 'br':
            ns = L.GetNumSuccessors(h)
            I.x = [bix[L.GetSuccessor(h, i)] for i in range(ns)]
            I.ops = [self._opnd(L.GetOperand(h, 0), ids)] if L.IsConditional(h) else []
        elif op == 'switch':
            I.ops = [self._opnd(L.GetOperand(h, 0), ids)]
            dflt = bix[L.GetSwitchDefaultDest(h)]
            cases = []
            for i in range(2, n, 2):
                c = self.const(L.GetOperand(h, i)); cases.append((c[2], bix[L.ValueAsBasicBlock(L.GetOperand(h, i+1))]))
            I.x = (dflt, cases)
        elif op == 'phi':
            I.ops = []
            I.x = [(bix[L.GetIncomingBlock(h, i)], self._opnd(L.GetIncomingValue(h, i), ids)) for i in range(L.CountIncoming(h))]
        elif op in ('call', 'invoke'):
            na = L.GetNumArgOperands(h)
            I.ops = [self._opnd(L.GetOperand(h, i), ids) for i in range(na)]
            I.x = {'callee': self._opnd(L.GetCalledValue(h), ids)}
            if op == 'invoke':
                I.x['normal'] = bix[L.GetNormalDest(h)]; I.x['unwind'] = bix[L.GetUnwindDest(h)]
        elif op == 'landingpad':
            I.ops = []; I.x = (bool(L.IsCleanup(h)), [self.const(L.GetClause(h, i)) for i in range(L.GetNumClauses(h))])
        else:
            I.ops = [self._opnd(L.GetOperand(h, i), ids) for i in range(n)]
            if op == 'icmp':
                I.x = (ICMP[L.GetICmpPredicate(h)], self.ty(L.TypeOf(L.GetOperand(h, 0))))
            elif op == 'fcmp': I.x = FCMP[L.GetFCmpPredicate(h)]
            elif op == 'gep': I.x = self.ty(L.GetGEPSourceElementType(h))
            elif op == 'alloca': I.x = self.ty(L.GetAllocatedType(h))
            elif op in ('extractvalue', 'insertvalue'):
                k = L.GetNumIndices(h); p = L.GetIndices(h); I.x = [p[i] for i in range(k)]
            elif op in ('zext','sext','trunc','sitofp','uitofp','fptosi','fptoui','bitcast','ptrtoint','inttoptr','store','fpext','fptrunc'):
                I.x = self.ty(L.TypeOf(L.GetOperand(h, 0)))
        return I

    def findloops(self, f):
        """natural loops: f.loops = {header: set(blocks)}"""
        n = len(f.blocks)
        preds = [[] for _ in range(n)]
        for b in f.blocks:
            for s in b.succ: preds[s].append(b.ix)
        # dominators (iterative)
        order = []; seen = set(); stack = [(0, iter(f.blocks[0].succ))]; seen.add(0)
        while stack:
            v, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(f.blocks[s].succ))); break
            else:
                order.append(v); stack.pop()
        rpo = order[::-1]; num = {v: i for i, v in enumerate(rpo)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for v in rpo[1:]:
                new = None
                for p in preds[v]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] > num[b]: a = idom[a]
                                while num[b] > num[a]: b = idom[b]
                            new = a
                if idom.get(v) != new: idom[v] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in f.blocks[b].succ:
                if s in num and dom(s, b):
                    body = loops.setdefault(s, {s}); st = [b]
                    while st:
                        q = st.pop()
                        if q not in body:
                            body.add(q); st.extend(p for p in preds[q] if p in num)
        f.loops = loops
