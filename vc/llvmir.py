"""Lazy reader of LLVM 18 IR through the libLLVM C API (ctypes).

Turns functions of a module into plain Python objects the symbolic executor
walks.  Nothing here interprets semantics."""
import ctypes as C, ctypes.util, glob, os

def _find():
    for p in ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.1',
              '/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1', '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1']:
        if os.path.exists(p):
            return p
    g = glob.glob('/usr/lib/llvm-18/lib/libLLVM*.so*')
    return g[0]

L = C.CDLL(_find())
P = C.c_void_p
def _d(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
U = C.c_uint
ContextCreate = _d('LLVMContextCreate', P)
ReadBuf = _d('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _d('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _d('LLVMGetFirstFunction', P, P); NextFn = _d('LLVMGetNextFunction', P, P)
FirstGl = _d('LLVMGetFirstGlobal', P, P); NextGl = _d('LLVMGetNextGlobal', P, P)
FirstBB = _d('LLVMGetFirstBasicBlock', P, P); NextBB = _d('LLVMGetNextBasicBlock', P, P)
FirstI = _d('LLVMGetFirstInstruction', P, P); NextI = _d('LLVMGetNextInstruction', P, P)
CountParams = _d('LLVMCountParams', U, P); GetParam = _d('LLVMGetParam', P, P, U)
ValName = _d('LLVMGetValueName2', C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
TypeOf = _d('LLVMTypeOf', P, P); TypeKind = _d('LLVMGetTypeKind', C.c_int, P)
IntW = _d('LLVMGetIntTypeWidth', U, P)
NElems = _d('LLVMCountStructElementTypes', U, P); StructElt = _d('LLVMStructGetTypeAtIndex', P, P, U)
ArrLen = _d('LLVMGetArrayLength2', C.c_uint64, P); EltTy = _d('LLVMGetElementType', P, P)
VecSize = _d('LLVMGetVectorSize', U, P)
StructName = _d('LLVMGetStructName', C.c_char_p, P)
TD = _d('LLVMGetModuleDataLayout', P, P)
StoreSize = _d('LLVMStoreSizeOfType', C.c_uint64, P, P); ABISize = _d('LLVMABISizeOfType', C.c_uint64, P, P)
OffOf = _d('LLVMOffsetOfElement', C.c_uint64, P, P, U)
Opc = _d('LLVMGetInstructionOpcode', C.c_int, P); CEOpc = _d('LLVMGetConstOpcode', C.c_int, P)
NOps = _d('LLVMGetNumOperands', C.c_int, P); Op = _d('LLVMGetOperand', P, P, U)
ValKind = _d('LLVMGetValueKind', C.c_int, P)
ICmp = _d('LLVMGetICmpPredicate', C.c_int, P); FCmp = _d('LLVMGetFCmpPredicate', C.c_int, P)
NSW = _d('LLVMGetNSW', C.c_int, P); NUW = _d('LLVMGetNUW', C.c_int, P)
GepSrc = _d('LLVMGetGEPSourceElementType', P, P)
NIdx = _d('LLVMGetNumIndices', U, P); Idx = _d('LLVMGetIndices', C.POINTER(U), P)
AllocTy = _d('LLVMGetAllocatedType', P, P)
NInc = _d('LLVMCountIncoming', U, P); IncV = _d('LLVMGetIncomingValue', P, P, U); IncB = _d('LLVMGetIncomingBlock', P, P, U)
BBVal = _d('LLVMBasicBlockAsValue', P, P); ValBB = _d('LLVMValueAsBasicBlock', P, P)
BBTerm = _d('LLVMGetBasicBlockTerminator', P, P)
NSucc = _d('LLVMGetNumSuccessors', U, P); Succ = _d('LLVMGetSuccessor', P, P, U)
Called = _d('LLVMGetCalledValue', P, P); NArgs = _d('LLVMGetNumArgOperands', U, P)
SExt = _d('LLVMConstIntGetSExtValue', C.c_longlong, P)
RealD = _d('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
Aggr = _d('LLVMGetAggregateElement', P, P, U)
IsNull = _d('LLVMIsNull', C.c_int, P)
Aliasee = _d('LLVMAliasGetAliasee', P, P); GInit = _d('LLVMGetInitializer', P, P); GIsDecl = _d('LLVMIsDeclaration', C.c_int, P)
GConst = _d('LLVMIsGlobalConstant', C.c_int, P)
GValTy = _d('LLVMGlobalGetValueType', P, P)
CaseV = None
PrintV = _d('LLVMPrintValueToString', C.c_char_p, P)
RetTy = _d('LLVMGetReturnType', P, P)
AtomicBin = _d('LLVMGetAtomicRMWBinOp', C.c_int, P)
IsCondBr = _d('LLVMIsConditional', C.c_int, P)
NormalDest = _d('LLVMGetNormalDest', P, P)
IsAString = _d('LLVMIsConstantString', C.c_int, P)
AsString = _d('LLVMGetAsString', C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
EnumAttr = _d('LLVMGetCallSiteEnumAttribute', P, P, C.c_int, U)
EnumKind = _d('LLVMGetEnumAttributeKindForName', U, C.c_char_p, C.c_size_t)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',
 38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',
 49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',
 56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Type:
    __slots__ = ('kind','bits','elems','offsets','n','elem','size','alloc','name')
    def __repr__(self):
        return {'int':'i%s'%self.bits}.get(self.kind, self.kind)

class Inst:
    __slots__ = ('op','ty','ops','id','extra','blk','fn','_txt','ptr')
    def __repr__(self):
        return PrintV(self.ptr).decode().strip()

class Block:
    __slots__ = ('id','insts','succs','fn','idx')

class Function:
    pass

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P(); msg = C.c_char_p()
        if ReadBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.td = TD(m)
        self.types = {}
        self.fns = {}
        self.defs = {}
        self.fnptr = {}
        f = FirstFn(m)
        while f:
            n = self.name(f)
            self.fnptr[f] = n
            self.fns[n] = f
            if not GIsDecl(f):
                self.defs[n] = f
            f = NextFn(f)
        self.globals = {}
        g = FirstGl(m)
        while g:
            self.globals[g] = self.name(g)
            g = NextGl(g)
        self.gbyname = {v: k for k, v in self.globals.items()}
        self.cache = {}
    def name(self, v):
        n = C.c_size_t()
        p = ValName(v, C.byref(n))
        return C.string_at(p, n.value).decode()
    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Type()
        self.types[t] = r
        k = TypeKind(t)
        r.bits = r.elems = r.offsets = r.n = r.elem = r.name = None
        r.size = r.alloc = 0
        if k == 0: r.kind = 'void'; return r
        if k == 2: r.kind = 'float'
        elif k == 3: r.kind = 'double'
        elif k == 4: r.kind = 'x86_fp80'
        elif k == 7: r.kind = 'label'; return r
        elif k == 8: r.kind = 'int'; r.bits = IntW(t)
        elif k == 9: r.kind = 'fn'; return r
        elif k == 10:
            r.kind = 'struct'
            nm = StructName(t); r.name = nm.decode() if nm else None
            r.elems = [self.ty(StructElt(t, i)) for i in range(NElems(t))]
            r.offsets = [OffOf(self.td, t, i) for i in range(NElems(t))]
        elif k == 11:
            r.kind = 'array'; r.n = ArrLen(t); r.elem = self.ty(EltTy(t))
        elif k == 12: r.kind = 'ptr'
        elif k == 13: r.kind = 'vector'; r.n = VecSize(t); r.elem = self.ty(EltTy(t))
        else:
            r.kind = 'other%d' % k; return r
        try:
            r.size = StoreSize(self.td, t); r.alloc = ABISize(self.td, t)
        except Exception:
            pass
        return r
    def function(self, name):
        r = self.cache.get(name)
        if r is None:
            r = self._load(name)
            self.cache[name] = r
        return r
    # value kinds (LLVMValueKind): 0 Argument,1 BasicBlock,5 Function,6 GlobalAlias,8 GlobalVariable,
    # 10 ConstantExpr, 11 ConstantArray,12 ConstantStruct,13 ConstantVector,14 Undef,15 AggregateZero,
    # 16 DataArray,17 DataVector,18 ConstantInt,19 ConstantFP,20 NullPtr,21 TokenNone,22 Metadata,23 InlineAsm,24 Instruction,25 Poison
    def operand(self, v):
        k = ValKind(v)
        t = self.ty(TypeOf(v))
        if k == 24: return ('inst', v)
        if k == 0: return ('arg', v)
        if k == 18:
            if t.bits > 64:
                s = PrintV(v).decode().split()[-1]
                return ('int', int(s), t.bits)
            return ('int', SExt(v), t.bits) if t.bits > 1 else ('int', SExt(v) & 1, 1)
        if k == 19:
            lossy = C.c_int()
            return ('fp', RealD(v, C.byref(lossy)), t.kind)
        if k == 20: return ('null',)
        if k in (14, 25): return ('undef', t)
        if k == 5: return ('fn', self.name(v))
        if k == 8: return ('global', self.name(v))
        if k == 6: return self.operand(Aliasee(v))
        if k == 10:
            op = OPC[CEOpc(v)]
            ex = self.ty(GepSrc(v)) if op == 'gep' else None
            return ('cexpr', op, [self.operand(Op(v, i)) for i in range(NOps(v))], ex, t)
        if k in (11, 12, 13):
            return ('aggr', t, [self.operand(Op(v, i)) for i in range(NOps(v))])
        if k == 15: return ('zero', t)
        if k in (16, 17):
            return ('aggr', t, [self.operand(Aggr(v, i)) for i in range(t.n)])
        if k == 1: return ('bb', ValBB(v))
        return ('other', k)
    def _load(self, name):
        f = self.defs.get(name)
        if f is None:
            return None
        F = Function(); F.name = name; F.mod = self
        F.params = [GetParam(f, i) for i in range(CountParams(f))]
        F.ptypes = [self.ty(TypeOf(p)) for p in F.params]
        F.blocks = {}; F.order = []
        b = FirstBB(f)
        while b:
            B = Block(); B.id = b; B.insts = []; B.fn = F; B.idx = len(F.order)
            F.blocks[b] = B; F.order.append(b)
            b = NextBB(b)
        F.entry = F.order[0]
        for bid in F.order:
            B = F.blocks[bid]
            i = FirstI(bid)
            while i:
                B.insts.append(self.inst(i, B))
                i = NextI(i)
            t = BBTerm(bid)
            B.succs = [Succ(t, k) for k in range(NSucc(t))]
        self._cfg(F)
        return F
    def inst(self, i, B):
        I = Inst(); I.id = i; I.ptr = i; I.blk = B
        op = OPC.get(Opc(i), 'op%d' % Opc(i))
        I.op = op; I.ty = self.ty(TypeOf(i)); I.extra = None; I.ops = []
        if op == 'phi':
            I.ops = [(IncB(i, k), self.operand(IncV(i, k))) for k in range(NInc(i))]
            return I
        if op in ('call', 'invoke'):
            cv = Called(i)
            n = NArgs(i)
            if ValKind(cv) == 5 and self.name(cv).startswith('llvm.dbg'):
                I.op = 'nop'; return I
            I.ops = [self.operand(Op(i, k)) for k in range(n)]
            I.extra = {'callee': self.operand(cv), 'argtypes': [self.ty(TypeOf(Op(i, k))) for k in range(n)]}
            if op == 'invoke':
                I.extra['normal'] = NormalDest(i)
            return I
        I.ops = [self.operand(Op(i, k)) for k in range(NOps(i))]
        if op == 'icmp': I.extra = ICMP[ICmp(i)]
        elif op == 'fcmp': I.extra = FCMP[FCmp(i)]
        elif op in ('add', 'sub', 'mul', 'shl'): I.extra = (bool(NSW(i)), bool(NUW(i)))
        elif op == 'gep': I.extra = self.ty(GepSrc(i))
        elif op == 'alloca': I.extra = self.ty(AllocTy(i))
        elif op in ('extractvalue', 'insertvalue'):
            p = Idx(i); I.extra = [p[k] for k in range(NIdx(i))]
        elif op == 'switch':
            # ops: cond, default, (val, dest)*
            pass
        elif op == 'store':
            I.extra = self.ty(TypeOf(Op(i, 0)))
        elif op == 'atomicrmw':
            I.extra = AtomicBin(i)
        if op in ('icmp','trunc','zext','sext','ptrtoint','inttoptr','fptosi','fptoui','sitofp','uitofp','fptrunc','fpext','bitcast','ret','switch'):
            t0 = self.ty(TypeOf(Op(i, 0))) if NOps(i) else None
            I._txt = t0
        else:
            I._txt = None
        return I
    def _cfg(self, F):
        """immediate post-dominators, loops (natural), reducibility info"""
        order = F.order
        succs = {b: list(F.blocks[b].succs) for b in order}
        # invoke: only the normal edge is followed
        for b in order:
            t = F.blocks[b].insts[-1]
            if t.op == 'invoke':
                succs[b] = [t.extra['normal']]
        # drop blocks unreachable from the entry
        seen = set(); st = [F.entry]; post = []
        def dfs(r):
            stack = [(r, iter(succs[r]))]; seen.add(r)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s, iter(succs[s]))); break
                else:
                    post.append(n); stack.pop()
        dfs(F.entry)
        rpo = post[::-1]
        F.rpo = rpo
        F.succs = {b: succs[b] for b in rpo}
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succs[b]:
                preds[s].append(b)
        F.preds = preds
        # dominators
        def doms(root, order, preds, num):
            idom = {root: root}; ch = True
            while ch:
                ch = False
                for b in order:
                    if b == root: continue
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None: new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]: x = idom[x]
                                    while num[y] > num[x]: y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new; ch = True
            return idom
        F.idom = doms(F.entry, rpo, preds, num)
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == F.entry: return False
                b = F.idom[b]
        F.dominates = dominates
        loops = {}
        for b in rpo:
            for s in succs[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st.extend(preds[x])
        F.loops = loops
        # post-dominators with virtual exit 'EXIT'
        EX = 'EXIT'
        rs = {b: [] for b in rpo}; rs[EX] = []
        exits = [b for b in rpo if not succs[b] and F.blocks[b].insts[-1].op == 'ret']
        rpreds = {b: list(succs[b]) for b in rpo}
        for b in rpo:
            if F.blocks[b].insts[-1].op == 'ret': rpreds[b] = [EX]
        rsucc = {b: [] for b in rpo}; rsucc[EX] = []
        for b in rpo:
            for s in rpreds[b]: rsucc[s].append(b)
        seen2 = set(); post2 = []
        stack = [(EX, iter(rsucc[EX]))]; seen2.add(EX)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen2:
                    seen2.add(s); stack.append((s, iter(rsucc[s]))); break
            else:
                post2.append(n); stack.pop()
        rpo2 = post2[::-1]
        num2 = {b: i for i, b in enumerate(rpo2)}
        ip = doms(EX, rpo2, {b: [p for p in rpreds.get(b, []) if p in num2] for b in rpo2}, num2)
        F.ipdom = ip   # blocks that cannot reach a ret (abort paths) are absent
        F.noret = {b for b in rpo if b not in num2}

def dump(fn):
    return PrintV(fn.mod.defs[fn.name]).decode()
