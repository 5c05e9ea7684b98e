"""Minimal ctypes binding of the LLVM-18 C API: parse bitcode, run a normalising pass
pipeline, and turn functions into plain Python structures for the VC generator."""
import ctypes as C, os

_CANDS = ['/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so']
L = None
for _p in _CANDS:
    if os.path.exists(_p):
        L = C.CDLL(_p); break
if L is None:
    raise RuntimeError('libLLVM-18 not found')

P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn
u = C.c_uint
ContextCreate = _f('LLVMContextCreate', P)
CreateMB = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f('LLVMGetFirstFunction', P, P); NextFn = _f('LLVMGetNextFunction', P, P)
NamedFn = _f('LLVMGetNamedFunction', P, P, C.c_char_p)
FirstGl = _f('LLVMGetFirstGlobal', P, P); NextGl = _f('LLVMGetNextGlobal', P, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P); NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P); NextI = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P); ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, P)
NumOps = _f('LLVMGetNumOperands', C.c_int, P); Op = _f('LLVMGetOperand', P, P, u)
TypeOf = _f('LLVMTypeOf', P, P); TypeKind = _f('LLVMGetTypeKind', C.c_int, P); IntW = _f('LLVMGetIntTypeWidth', u, P)
VKind = _f('LLVMGetValueKind', C.c_int, P)
Name2 = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P); FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, P)
CIZ = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
GEPTy = _f('LLVMGetGEPSourceElementType', P, P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
CalledVal = _f('LLVMGetCalledValue', P, P); CalledFT = _f('LLVMGetCalledFunctionType', P, P)
NumArgOps = _f('LLVMGetNumArgOperands', u, P)
NumSucc = _f('LLVMGetNumSuccessors', u, P); Succ = _f('LLVMGetSuccessor', P, P, u)
IsCond = _f('LLVMIsConditional', C.c_int, P); Cond = _f('LLVMGetCondition', P, P)
CountInc = _f('LLVMCountIncoming', u, P); IncV = _f('LLVMGetIncomingValue', P, P, u); IncB = _f('LLVMGetIncomingBlock', P, P, u)
Params = _f('LLVMCountParams', u, P); Param = _f('LLVMGetParam', P, P, u)
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
ElemTy = _f('LLVMGetElementType', P, P); ArrLen = _f('LLVMGetArrayLength2', C.c_ulonglong, P); VecLen = _f('LLVMGetVectorSize', u, P)
StructN = _f('LLVMCountStructElementTypes', u, P); StructE = _f('LLVMStructGetTypeAtIndex', P, P, u)
DL = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P); StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
ElemOff = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, u)
GlInit = _f('LLVMGetInitializer', P, P); IsGlConst = _f('LLVMIsGlobalConstant', C.c_int, P); GlValTy = _f('LLVMGlobalGetValueType', P, P)
AggElem = _f('LLVMGetAggregateElement', P, P, u)
AsStr = _f('LLVMGetAsString', C.c_void_p, P, C.POINTER(C.c_size_t)); IsCStr = _f('LLVMIsConstantString', C.c_int, P)
NumIdx = _f('LLVMGetNumIndices', u, P); Idx = _f('LLVMGetIndices', C.POINTER(u), P)
MaskN = _f('LLVMGetNumMaskElements', u, P); MaskV = _f('LLVMGetMaskValue', C.c_int, P, u)
PrintV = _f('LLVMPrintValueToString', C.c_void_p, P); PrintT = _f('LLVMPrintTypeToString', C.c_void_p, P)
CRD = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
RunPasses = _f('LLVMRunPasses', P, P, C.c_char_p, P, P)
PBOCreate = _f('LLVMCreatePassBuilderOptions', P)
ErrMsg = _f('LLVMGetErrorMessage', C.c_char_p, P)
AttrKind = _f('LLVMGetEnumAttributeKindForName', u, C.c_char_p, C.c_size_t)
CreateAttr = _f('LLVMCreateEnumAttribute', P, P, u, C.c_ulonglong)
AddAttr = _f('LLVMAddAttributeAtIndex', None, P, C.c_int, P); RemAttr = _f('LLVMRemoveEnumAttributeAtIndex', None, P, C.c_int, u)
GetAttr = _f('LLVMGetEnumAttributeAtIndex', P, P, C.c_int, u); AttrVal = _f('LLVMGetEnumAttributeValue', C.c_ulonglong, P)
CSAttr = _f('LLVMGetCallSiteEnumAttribute', P, P, C.c_int, u); AttrTy = _f('LLVMGetTypeAttributeValue', P, P)
InstDL = _f('LLVMGetDebugLocLine', u, P)
DLFile = _f('LLVMGetDebugLocFilename', C.c_void_p, P, C.POINTER(u))
Alias = _f('LLVMAliasGetAliasee', P, P)
SetLink = _f('LLVMSetLinkage', None, P, C.c_int)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',
 58:'resume',59:'landingpad',66:'fneg',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
# type kinds
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',7:'label',8:'int',9:'function',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata'}
VK = {0:'arg',1:'bb',5:'function',6:'alias',8:'gvar',9:'blockaddr',10:'cexpr',11:'carray',12:'cstruct',13:'cvector',14:'undef',15:'czero',
 16:'cdarray',17:'cdvector',18:'cint',19:'cfp',20:'cnull',21:'tokennone',22:'metadata',23:'asm',24:'inst',25:'poison',26:'ctarget'}

class Ty:
    __slots__ = ('k','w','el','n','fields','offs','size','ref','name')
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.w
        if self.k in ('array','vector'): return '%s<%d x %r>' % (self.k, self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.fields))
        return self.k

class Val: pass
class Const(Val):   # kind: int/null/undef/zero/fp/agg/global/func/gep...
    __slots__ = ('kind','ty','v')
    def __init__(s, kind, ty, v=None): s.kind, s.ty, s.v = kind, ty, v
class Reg(Val):
    __slots__ = ('id','ty')
    def __init__(s, id, ty): s.id, s.ty = id, ty
class Inst:
    __slots__ = ('op','id','ty','ops','x','line','file')
    def __repr__(s): return '%s#%s' % (s.op, s.id)
class Block:
    __slots__ = ('id','name','insts','phis','succ')
class Func:
    __slots__ = ('name','params','blocks','entry','byid')
class Global:
    __slots__ = ('name','ty','const','init','ref')

def cstr(p):
    if not p: return ''
    return C.string_at(p).decode('utf8', 'replace')

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        mb, err = P(), C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)): raise RuntimeError(err.value)
        m = P()
        if ParseIR(self.ctx, mb, C.byref(m), C.byref(err)): raise RuntimeError(err.value)
        self.m = m
        self.dl = DL(m)
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.ids = {}
        self._keep = []

    # --- names, reachability --------------------------------------------------
    def vname(self, v):
        n = C.c_size_t(); s = Name2(v, C.byref(n)); return s.decode() if s else ''
    def all_functions(self):
        f = FirstFn(self.m); r = []
        while f: r.append(f); f = NextFn(f)
        return r
    def fref(self, name):
        return NamedFn(self.m, name.encode())
    def callees(self, f):
        out = set()
        b = FirstBB(f)
        while b:
            i = FirstI(b)
            while i:
                if Opcode(i) in (45, 5):
                    cv = CalledVal(i)
                    if VKind(cv) == 5: out.add(self.vname(cv))
                for k in range(NumOps(i)):   # function pointers passed as arguments
                    o = Op(i, k)
                    if o and VKind(o) == 5: out.add(self.vname(o))
                i = NextI(i)
            b = NextBB(b)
        return out
    def reachable(self, roots, stop=()):
        seen, work = set(), list(roots)
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n)
            f = self.fref(n)
            if not f or IsDecl(f) or n in stop: continue
            work.extend(self.callees(f))
        return seen
    def recursive(self, names):
        g = {n: [c for c in (self.callees(self.fref(n)) if self.fref(n) and not IsDecl(self.fref(n)) else ()) if c in names] for n in names}
        # Tarjan
        idx, low, st, onst, out, cnt = {}, {}, [], set(), set(), [0]
        import sys; sys.setrecursionlimit(20000)
        def sc(v):
            idx[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); onst.add(v)
            for w in g[v]:
                if w not in idx: sc(w); low[v] = min(low[v], low[w])
                elif w in onst: low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); onst.discard(w); comp.append(w)
                    if w == v: break
                if len(comp) > 1 or v in g[v]: out.update(comp)
        for v in g:
            if v not in idx: sc(v)
        return out
    def normalise(self, roots, noinline=()):
        """Inline everything reachable (except recursive functions, roots and those under a
        call-site contract) and run scalar clean-up; no loop or vector transformation."""
        reach = self.reachable(roots)
        rec = self.recursive(reach)
        AI, NI, ON = (AttrKind(n, len(n)) for n in (b'alwaysinline', b'noinline', b'optnone'))
        ai, ni = CreateAttr(self.ctx, AI, 0), CreateAttr(self.ctx, NI, 0)
        def mark(rec):
            for f in self.all_functions():
                n = self.vname(f)
                if IsDecl(f): continue
                RemAttr(f, -1, NI); RemAttr(f, -1, ON); RemAttr(f, -1, AI)
                if n in roots or n in rec or n in noinline: AddAttr(f, -1, ni)
                else: AddAttr(f, -1, ai)
                if n not in roots: SetLink(f, 8)    # internal: drop unreachable code
        if rec:     # tail recursion becomes a loop
            mark(rec)
            self.passes('always-inline,function(sroa,simplifycfg,tailcallelim)')
            reach = self.reachable(roots); rec = self.recursive(reach)
        mark(rec)
        self.passes('always-inline,globaldce,function(sroa,early-cse<memssa>,simplifycfg,instcombine<max-iterations=2>,sroa,early-cse<memssa>,simplifycfg,instcombine<max-iterations=2>,simplifycfg,adce)')
        return rec
    def passes(self, s):
        o = PBOCreate()
        e = RunPasses(self.m, s.encode(), None, o)
        if e: raise RuntimeError('passes: %s' % ErrMsg(e))
        self.types = {}; self.funcs = {}; self.globals = {}

    # --- types ----------------------------------------------------------------
    def ty(self, t):
        r = self.types.get(t)
        if r: return r
        r = Ty(); self.types[t] = r
        k = TK.get(TypeKind(t), 'k%d' % TypeKind(t)); r.k = k; r.w = r.el = r.n = r.fields = r.offs = None; r.ref = t; r.size = 0
        if k == 'int': r.w = IntW(t); r.size = StoreSize(self.dl, t)
        elif k == 'ptr': r.w = 64; r.size = 8
        elif k == 'float': r.w = 32; r.size = 4
        elif k == 'double': r.w = 64; r.size = 8
        elif k == 'half': r.w = 16; r.size = 2
        elif k == 'x86_fp80': r.w = 80; r.size = 16
        elif k == 'array': r.el = self.ty(ElemTy(t)); r.n = ArrLen(t); r.size = ABISize(self.dl, t)
        elif k == 'vector': r.el = self.ty(ElemTy(t)); r.n = VecLen(t); r.size = StoreSize(self.dl, t)
        elif k == 'struct':
            n = StructN(t); r.fields = [self.ty(StructE(t, i)) for i in range(n)]
            r.offs = [ElemOff(self.dl, t, i) for i in range(n)]; r.size = ABISize(self.dl, t)
        return r

    # --- values ---------------------------------------------------------------
    def val(self, v, ctx=None):
        k = VK.get(VKind(v), '?%d' % VKind(v))
        if k in ('inst', 'arg'):
            return Reg(v, self.ty(TypeOf(v)))
        t = self.ty(TypeOf(v))
        if k == 'cint':
            if t.w <= 64: return Const('int', t, CIZ(v))
            s = cstr(PrintV(v)).split()[-1]; return Const('int', t, int(s) % (1 << t.w))
        if k == 'cnull': return Const('null', t)
        if k in ('undef', 'poison'): return Const('undef', t)
        if k == 'czero': return Const('zero', t)
        if k == 'cfp':
            lo = C.c_int(); d = CRD(v, C.byref(lo)); return Const('fp', t, d)
        if k == 'cdarray' or k == 'cdvector' or k in ('carray', 'cstruct', 'cvector'):
            if t.k == 'struct': n = len(t.fields)
            else: n = t.n
            return Const('agg', t, [self.val(AggElem(v, i)) for i in range(n)])
        if k == 'gvar': return Const('global', t, self.vname(v) or ('@%x' % v))
        if k == 'function': return Const('func', t, self.vname(v))
        if k == 'alias': return self.val(Alias(v))
        if k == 'cexpr':
            op = OPC.get(ConstOpcode(v))
            if op == 'getelementptr':
                return Const('gep', t, (self.ty(GEPTy(v)), [self.val(Op(v, i)) for i in range(NumOps(v))]))
            return Const('cexpr', t, (op, [self.val(Op(v, i)) for i in range(NumOps(v))]))
        if k == 'metadata': return Const('meta', t)
        if k == 'bb': return Const('bb', t, v)
        return Const('unk:' + k, t)
    def glob(self, name):
        if not self.globals:
            g = FirstGl(self.m)
            while g:
                x = Global(); x.name = self.vname(g) or ('@%x' % g); x.ty = self.ty(GlValTy(g)); x.const = bool(IsGlConst(g)); x.ref = g
                x.init = 0
                self.globals[x.name] = x; g = NextGl(g)
        x = self.globals[name]
        if x.init == 0:
            i = GlInit(x.ref); x.init = self.val(i) if i else None
        return x

    # --- functions ------------------------------------------------------------
    def func(self, name):
        if name in self.funcs: return self.funcs[name]
        f = self.fref(name)
        if not f or IsDecl(f): return None
        F = Func(); F.name = name; F.blocks = []; F.byid = {}
        F.params = [Reg(Param(f, i), self.ty(TypeOf(Param(f, i)))) for i in range(Params(f))]
        b = FirstBB(f); n = 0
        while b:
            B = Block(); B.id = b; B.name = 'b%d' % n; n += 1; B.insts = []; B.phis = []
            i = FirstI(b)
            while i:
                I = self.inst(i)
                (B.phis if I.op == 'phi' else B.insts).append(I)
                i = NextI(i)
            B.succ = self.succs(B)
            F.blocks.append(B); F.byid[b] = B
            b = NextBB(b)
        F.entry = F.blocks[0]
        self.funcs[name] = F
        return F
    def succs(self, B):
        t = B.insts[-1]
        return t.x['succ'] if t.op in ('br', 'switch') else ([t.x['normal']] if t.op == 'invoke' else [])
    def inst(self, i):
        I = Inst(); I.op = OPC.get(Opcode(i), 'op%d' % Opcode(i)); I.id = i; I.ty = self.ty(TypeOf(i)); I.x = None
        I.line = InstDL(i); n = u(); fp = DLFile(i, C.byref(n)) if I.line else None
        I.file = C.string_at(fp, n.value).decode() if fp else ''
        op = I.op
        if op == 'phi':
            I.ops = []; I.x = [(IncB(i, k), self.val(IncV(i, k))) for k in range(CountInc(i))]
            return I
        if op == 'br':
            I.ops = [self.val(Cond(i))] if IsCond(i) else []
            I.x = {'succ': [Succ(i, k) for k in range(NumSucc(i))]}; return I
        if op == 'switch':
            I.ops = [self.val(Op(i, 0))]
            n = NumOps(i)
            I.x = {'succ': [Op(i, k) for k in range(1, n, 2)], 'cases': [(self.val(Op(i, k)).v, Op(i, k + 1)) for k in range(2, n, 2)], 'default': Op(i, 1)}
            return I
        if op in ('call', 'invoke'):
            cv = CalledVal(i); kind = VK.get(VKind(cv))
            I.x = {'callee': self.vname(cv) if kind == 'function' else None, 'fv': None if kind == 'function' else self.val(cv)}
            if kind == 'alias':
                a = self.val(cv); I.x['callee'] = a.v if a.kind == 'func' else None
            I.ops = [self.val(Op(i, k)) for k in range(NumArgOps(i))]
            if op == 'invoke': I.x['normal'] = Succ(i, 0)
            return I
        I.ops = [self.val(Op(i, k)) for k in range(NumOps(i))]
        if op == 'icmp': I.x = ICMP[ICmpPred(i)]
        elif op == 'fcmp': I.x = FCMP[FCmpPred(i)]
        elif op == 'getelementptr': I.x = self.ty(GEPTy(i))
        elif op == 'alloca': I.x = self.ty(AllocTy(i))
        elif op in ('extractvalue', 'insertvalue'):
            p = Idx(i); I.x = [p[k] for k in range(NumIdx(i))]
        elif op == 'shufflevector': I.x = [MaskV(i, k) for k in range(MaskN(i))]
        return I
