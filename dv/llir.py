"""Read an LLVM-18 module (bitcode or textual IR) through the LLVM-C API and turn it
into plain Python objects.  Nothing here interprets the program."""
import ctypes, struct, subprocess
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_size_t, POINTER, byref, c_longlong

_L = None


def lib():
    global _L
    if _L is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1",
                  "/usr/lib/llvm-18/lib/libLLVM-18.so"):
            try:
                _L = ctypes.CDLL(p)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError("libLLVM 18 not found")
        V = c_void_p
        sig = {
            'LLVMContextCreate': (V, []),
            'LLVMCreateMemoryBufferWithContentsOfFile': (c_int, [c_char_p, POINTER(V), POINTER(c_char_p)]),
            'LLVMParseIRInContext': (c_int, [V, V, POINTER(V), POINTER(c_char_p)]),
            'LLVMGetModuleDataLayout': (V, [V]),
            'LLVMGetFirstFunction': (V, [V]), 'LLVMGetNextFunction': (V, [V]),
            'LLVMGetFirstGlobal': (V, [V]), 'LLVMGetNextGlobal': (V, [V]),
            'LLVMGetValueName2': (c_void_p, [V, POINTER(c_size_t)]),
            'LLVMGetFirstBasicBlock': (V, [V]), 'LLVMGetNextBasicBlock': (V, [V]),
            'LLVMGetBasicBlockName': (c_char_p, [V]),
            'LLVMBasicBlockAsValue': (V, [V]),
            'LLVMGetFirstInstruction': (V, [V]), 'LLVMGetNextInstruction': (V, [V]),
            'LLVMGetInstructionOpcode': (c_int, [V]),
            'LLVMGetNumOperands': (c_int, [V]), 'LLVMGetOperand': (V, [V, c_uint]),
            'LLVMTypeOf': (V, [V]), 'LLVMGetTypeKind': (c_int, [V]),
            'LLVMGetIntTypeWidth': (c_uint, [V]),
            'LLVMCountStructElementTypes': (c_uint, [V]), 'LLVMStructGetTypeAtIndex': (V, [V, c_uint]),
            'LLVMGetStructName': (c_char_p, [V]),
            'LLVMGetElementType': (V, [V]), 'LLVMGetArrayLength2': (c_ulonglong, [V]),
            'LLVMGetVectorSize': (c_uint, [V]),
            'LLVMOffsetOfElement': (c_ulonglong, [V, V, c_uint]),
            'LLVMStoreSizeOfType': (c_ulonglong, [V, V]), 'LLVMABISizeOfType': (c_ulonglong, [V, V]),
            'LLVMSizeOfTypeInBits': (c_ulonglong, [V, V]),
            'LLVMIsOpaqueStruct': (c_int, [V]), 'LLVMTypeIsSized': (c_int, [V]),
            'LLVMGetValueKind': (c_int, [V]),
            'LLVMConstIntGetZExtValue': (c_ulonglong, [V]),
            'LLVMPrintValueToString': (c_void_p, [V]), 'LLVMPrintTypeToString': (c_void_p, [V]),
            'LLVMDisposeMessage': (None, [c_void_p]),
            'LLVMGetICmpPredicate': (c_int, [V]), 'LLVMGetFCmpPredicate': (c_int, [V]),
            'LLVMCountIncoming': (c_uint, [V]), 'LLVMGetIncomingValue': (V, [V, c_uint]),
            'LLVMGetIncomingBlock': (V, [V, c_uint]),
            'LLVMGetNumSuccessors': (c_uint, [V]), 'LLVMGetSuccessor': (V, [V, c_uint]),
            'LLVMGetNSW': (c_int, [V]), 'LLVMGetNUW': (c_int, [V]), 'LLVMGetExact': (c_int, [V]),
            'LLVMIsInBounds': (c_int, [V]), 'LLVMGetGEPSourceElementType': (V, [V]),
            'LLVMGetAllocatedType': (V, [V]), 'LLVMGetCalledValue': (V, [V]), 'LLVMGetNumArgOperands': (c_uint, [V]),
            'LLVMGetNumIndices': (c_uint, [V]), 'LLVMGetIndices': (POINTER(c_uint), [V]),
            'LLVMIsConditional': (c_int, [V]), 'LLVMCountParams': (c_uint, [V]), 'LLVMGetParam': (V, [V, c_uint]),
            'LLVMGlobalGetValueType': (V, [V]), 'LLVMGetReturnType': (V, [V]),
            'LLVMGetInitializer': (V, [V]), 'LLVMIsGlobalConstant': (c_int, [V]), 'LLVMIsDeclaration': (c_int, [V]),
            'LLVMGetConstOpcode': (c_int, [V]), 'LLVMIsConstant': (c_int, [V]),
            'LLVMGetAggregateElement': (V, [V, c_uint]), 'LLVMIsNull': (c_int, [V]),
            'LLVMGetVolatile': (c_int, [V]), 'LLVMGetOrdering': (c_int, [V]),
            'LLVMIsUndef': (c_int, [V]), 'LLVMIsPoison': (c_int, [V]),
            'LLVMIsACallInst': (V, [V]),
            'LLVMGetNNeg': (c_int, [V]),
            'LLVMGetCalledFunctionType': (V, [V]),
            'LLVMInstructionGetDebugLoc': (V, [V]), 'LLVMDILocationGetLine': (c_uint, [V]),
            'LLVMDILocationGetScope': (V, [V]), 'LLVMDIScopeGetFile': (V, [V]),
            'LLVMDIFileGetFilename': (c_void_p, [V, POINTER(c_uint)]),
        }
        for n, (r, a) in sig.items():
            f = getattr(_L, n, None)
            if f is None:
                continue
            f.restype = r
            f.argtypes = a
    return _L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 47: 'userop1', 48: 'userop2', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ('k', 'bits', 'name', 'elems', 'offs', 'n', 'elem', 'size', 'store')

    def __init__(self, k, **kw):
        self.k = k
        self.bits = self.name = self.elems = self.offs = self.n = self.elem = None
        self.size = self.store = 0
        for a, b in kw.items():
            setattr(self, a, b)

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.bits
        if self.k == 'struct':
            return '%%%s' % (self.name or '{%s}' % ','.join(map(repr, self.elems)))
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.elem)
        if self.k == 'fp':
            return 'f%d' % self.bits
        return self.k


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'id', 'x', 'fn', 'loc', 'name')

    def __repr__(self):
        return '%%%s = %s %r %r' % (self.id, self.op, self.ops, self.x)


class Block:
    __slots__ = ('name', 'insts', 'idx', 'succs', 'preds', 'fn')


class Function:
    __slots__ = ('name', 'dem', 'args', 'blocks', 'ret', 'decl', 'loops', '_ptr', 'nins', 'module')

    def __repr__(self):
        return '<fn %s>' % self.dem


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.structs = {}


class Reader:
    def __init__(self, path):
        L = self.L = lib()
        self.ctx = L.LLVMContextCreate()
        buf = c_void_p()
        msg = c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError('cannot read %s' % path)
        m = c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, byref(m), byref(msg)):
            raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.tcache = {}
        self.vcache = {}
        self.ccache = {}
        self.mod = Module()

    def s(self, p):
        if not p:
            return ''
        r = ctypes.string_at(p).decode('utf8', 'replace')
        self.L.LLVMDisposeMessage(p)
        return r

    def vname(self, v):
        n = c_size_t()
        p = self.L.LLVMGetValueName2(v, byref(n))
        return ctypes.string_at(p, n.value).decode('utf8', 'replace') if p else ''

    def ty(self, t):
        if t in self.tcache:
            return self.tcache[t]
        L = self.L
        k = L.LLVMGetTypeKind(t)
        if k == 0:
            r = Ty('void')
        elif k == 8:
            r = Ty('int', bits=L.LLVMGetIntTypeWidth(t))
        elif k in (2, 3, 4, 5):
            r = Ty('fp', bits={2: 32, 3: 64, 4: 80, 5: 128}[k])
        elif k == 12:
            r = Ty('ptr')
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            nm = L.LLVMGetStructName(t)
            r = Ty('struct', name=nm.decode() if nm else None)
            self.tcache[t] = r
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            if L.LLVMTypeIsSized(t):
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            if r.name:
                self.mod.structs[r.name] = r
        elif k == 11:
            r = Ty('arr', n=L.LLVMGetArrayLength2(t), elem=self.ty(L.LLVMGetElementType(t)))
        elif k == 13:
            r = Ty('vec', n=L.LLVMGetVectorSize(t), elem=self.ty(L.LLVMGetElementType(t)))
        elif k == 7:
            r = Ty('label')
        else:
            r = Ty('other')
        if k not in (0, 7, 9) and L.LLVMTypeIsSized(t):
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.store = L.LLVMStoreSizeOfType(self.dl, t)
        self.tcache[t] = r
        return r

    def const(self, v):
        c = self.ccache.get(v)
        if c is None:
            c = self.ccache[v] = self._const(v)
        return c

    def _const(self, v):
        L = self.L
        t = self.ty(L.LLVMTypeOf(v))
        if L.LLVMIsPoison(v):
            return ('poison', t)
        if L.LLVMIsUndef(v):
            return ('undef', t)
        vk = L.LLVMGetValueKind(v)
        # LLVMValueKind: 3 Function,4 GlobalAlias,6 GlobalVariable,7 BlockAddress,8 ConstantExpr,9 CArray,10 CStruct,
        # 11 CVector, 12 Undef, 13 AggregateZero,14 CDataArray,15 CDataVector,16 CInt,17 CFP,18 NullPtr
        if vk == 5:
            return ('func', self.vname(v))
        if vk == 8:
            return ('global', self.vname(v))
        if t.k == 'int' and L.LLVMIsNull(v):
            return ('int', 0, t.bits)
        if t.k == 'ptr' and L.LLVMIsNull(v):
            return ('null',)
        txt = None
        if t.k == 'int':
            txt = self.s(L.LLVMPrintValueToString(v))
            w = txt.split()
            if len(w) == 2 and (w[1].lstrip('-').isdigit() or w[1] in ('true', 'false')):
                n = {'true': 1, 'false': 0}.get(w[1])
                if n is None:
                    n = int(w[1])
                return ('int', n & ((1 << t.bits) - 1), t.bits)
        if t.k == 'fp':
            txt = self.s(L.LLVMPrintValueToString(v))
            return ('fp', fpbits(txt, t.bits), t.bits)
        if t.k in ('arr', 'struct', 'vec'):
            n = len(t.elems) if t.k == 'struct' else t.n
            if L.LLVMIsNull(v):
                return ('zero', t)
            els = []
            for i in range(n):
                e = L.LLVMGetAggregateElement(v, i)
                if not e:
                    return ('unknown', t, 'agg')
                els.append(self.const(e))
            return ('agg', t, els)
        op = None
        txt = txt or self.s(L.LLVMPrintValueToString(v))
        w = txt.split()
        if t.k == 'ptr' and len(w) == 2 and w[1].startswith('@'):
            nm = self.vname(v)
            return ('symbol', nm)
        if L.LLVMIsConstant(v) and L.LLVMGetNumOperands(v) > 0:
            try:
                op = OPC.get(L.LLVMGetConstOpcode(v))
            except Exception:
                op = None
        if op == 'getelementptr':
            return ('cgep', self.ty(L.LLVMGetGEPSourceElementType(v)),
                    [self.operand(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))], t)
        if op:
            return ('cexpr', op, t, [self.operand(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))])
        return ('unknown', t, txt[:80])

    def operand(self, v):
        r = self.vcache.get(v)
        if r is not None:
            return r
        L = self.L
        vk = L.LLVMGetValueKind(v)
        if L.LLVMIsConstant(v):
            txt = self.vname(v)
            if txt and txt in self.gnames:
                return (self.gnames[txt], txt)
            return self.const(v)
        if vk in self.mdkinds:
            return ('md',)
        return ('other', vk)

    def read(self):
        L = self.L
        self.mdkinds = {20, 21, 22, 23, 24}
        self.gnames = {}
        f = L.LLVMGetFirstFunction(self.m)
        fs = []
        while f:
            self.gnames[self.vname(f)] = 'func'
            fs.append(f)
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(self.m)
        gs = []
        while g:
            self.gnames[self.vname(g)] = 'global'
            gs.append(g)
            g = L.LLVMGetNextGlobal(g)
        for g in gs:
            nm = self.vname(g)
            init = L.LLVMGetInitializer(g)
            self.mod.globals[nm] = dict(name=nm, ty=self.ty(L.LLVMGlobalGetValueType(g)),
                                        const=bool(L.LLVMIsGlobalConstant(g)),
                                        init=self.const(init) if init else None)
        for f in fs:
            self.func(f)
        names = list(self.mod.funcs)
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        for n, d in zip(names, p.stdout.split('\n')):
            self.mod.funcs[n].dem = d
        return self.mod

    def func(self, f):
        L = self.L
        F = Function()
        F.module = self.mod
        F.name = self.vname(f)
        ft = L.LLVMGlobalGetValueType(f)
        F.ret = self.ty(L.LLVMGetReturnType(ft))
        F.decl = bool(L.LLVMIsDeclaration(f))
        F.args = []
        F.loops = None
        for i in range(L.LLVMCountParams(f)):
            p = L.LLVMGetParam(f, i)
            self.vcache[p] = ('arg', i)
            F.args.append((self.vname(p), self.ty(L.LLVMTypeOf(p))))
        F.blocks = []
        self.mod.funcs[F.name] = F
        bmap = {}
        todo = []
        b = L.LLVMGetFirstBasicBlock(f)
        nid = 0
        while b:
            B = Block()
            B.fn = F
            B.name = (L.LLVMGetBasicBlockName(b) or b'').decode()
            B.idx = len(F.blocks)
            B.insts = []
            B.succs = []
            B.preds = []
            F.blocks.append(B)
            bmap[L.LLVMBasicBlockAsValue(b)] = B.idx
            bmap[b] = B.idx
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst()
                I.id = nid
                nid += 1
                I.fn = F
                I.name = self.vname(i)
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), '?')
                I.ty = self.ty(L.LLVMTypeOf(i))
                I.x = {}
                dl = L.LLVMInstructionGetDebugLoc(i)
                I.loc = None
                if dl:
                    ln = L.LLVMDILocationGetLine(dl)
                    try:
                        sc = L.LLVMDILocationGetScope(dl)
                        fi = L.LLVMDIScopeGetFile(sc) if sc else None
                        n = c_uint()
                        p = L.LLVMDIFileGetFilename(fi, byref(n)) if fi else None
                        I.loc = (ctypes.string_at(p, n.value).decode() if p else '', ln)
                    except Exception:
                        I.loc = ('', ln)
                self.vcache[i] = ('inst', I.id)
                B.insts.append(I)
                todo.append((i, I, B))
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        F.nins = nid
        for i, I, B in todo:
            x = I.x
            n = L.LLVMGetNumOperands(i)
            if I.op == 'phi':
                I.ops = []
                x['in'] = [(bmap[L.LLVMGetIncomingBlock(i, k)], self.operand(L.LLVMGetIncomingValue(i, k)))
                           for k in range(L.LLVMCountIncoming(i))]
                continue
            if I.op == 'br':
                x['succ'] = [bmap[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
                B.succs = list(x['succ'])
                I.ops = [self.operand(L.LLVMGetOperand(i, 0))] if L.LLVMIsConditional(i) else []
                continue
            if I.op == 'switch':
                x['default'] = bmap[L.LLVMGetSuccessor(i, 0)]
                x['cases'] = []
                for k in range(1, L.LLVMGetNumSuccessors(i)):
                    x['cases'].append((self.operand(L.LLVMGetOperand(i, 2 * k)), bmap[L.LLVMGetSuccessor(i, k)]))
                B.succs = [x['default']] + [c[1] for c in x['cases']]
                I.ops = [self.operand(L.LLVMGetOperand(i, 0))]
                continue
            if I.op == 'call':
                na = L.LLVMGetNumArgOperands(i)
                I.ops = [self.operand(L.LLVMGetOperand(i, k)) for k in range(na)]
                x['callee'] = self.operand(L.LLVMGetCalledValue(i))
                continue
            I.ops = [self.operand(L.LLVMGetOperand(i, k)) for k in range(n)]
            if I.op == 'icmp':
                x['pred'] = ICMP[L.LLVMGetICmpPredicate(i)]
            elif I.op == 'fcmp':
                x['pred'] = FCMP[L.LLVMGetFCmpPredicate(i)]
            elif I.op in ('add', 'sub', 'mul', 'shl'):
                x['nsw'] = bool(L.LLVMGetNSW(i))
                x['nuw'] = bool(L.LLVMGetNUW(i))
            elif I.op in ('udiv', 'sdiv', 'lshr', 'ashr'):
                x['exact'] = bool(L.LLVMGetExact(i))
            elif I.op == 'getelementptr':
                x['inbounds'] = bool(L.LLVMIsInBounds(i))
                x['ety'] = self.ty(L.LLVMGetGEPSourceElementType(i))
            elif I.op == 'alloca':
                x['aty'] = self.ty(L.LLVMGetAllocatedType(i))
            elif I.op in ('extractvalue', 'insertvalue'):
                k = L.LLVMGetNumIndices(i)
                p = L.LLVMGetIndices(i)
                x['idx'] = [p[j] for j in range(k)]
            elif I.op in ('load', 'store'):
                x['vol'] = bool(L.LLVMGetVolatile(i))
            if I.op == 'store':
                x['vty'] = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
            if I.op in ('icmp', 'fcmp', 'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc',
                        'fpext', 'ptrtoint', 'inttoptr', 'bitcast', 'ret', 'extractvalue', 'insertvalue', 'freeze'):
                if n:
                    x['oty'] = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
        for B in F.blocks:
            for s_ in set(B.succs):
                F.blocks[s_].preds.append(B.idx)


def fpbits(txt, bits):
    w = txt.split()[-1]
    if w.startswith('0x'):
        if w[2] in 'KLMHR':
            return int(w[3:], 16)
        d = int(w, 16)
        if bits == 64:
            return d
        if bits == 32:
            s = d >> 63
            e = (d >> 52) & 0x7ff
            m = d & ((1 << 52) - 1)
            if e == 0x7ff:
                return (s << 31) | (0xff << 23) | (m >> 29)
            return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', d))[0]))[0]
    v = float(w)
    if bits == 64:
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    return struct.unpack('<I', struct.pack('<f', v))[0]


def load(path):
    return Reader(path).read()


# --- CFG helpers ------------------------------------------------------------------------

class Loop:
    __slots__ = ('header', 'body', 'latches', 'parent', 'fn')


def find_loops(F):
    """natural loops via dominators; dict header-> Loop"""
    if F.loops is not None:
        return F.loops
    n = len(F.blocks)
    # dominators (simple iterative)
    order = []
    seen = set()
    st = [(0, iter(F.blocks[0].succs))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s_ in it:
            if s_ not in seen:
                seen.add(s_)
                st.append((s_, iter(F.blocks[s_].succs)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in F.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]
    loops = {}
    irreducible = False
    for b in rpo:
        for s_ in F.blocks[b].succs:
            if s_ in num and num[s_] <= num[b]:
                if dom(s_, b):
                    lp = loops.get(s_)
                    if lp is None:
                        lp = loops[s_] = Loop()
                        lp.header = s_
                        lp.body = {s_}
                        lp.latches = []
                        lp.fn = F
                        lp.parent = None
                    lp.latches.append(b)
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in lp.body:
                            continue
                        lp.body.add(x)
                        stack.extend(p for p in F.blocks[x].preds if p in num)
                else:
                    irreducible = True
    for h, lp in loops.items():
        best = None
        for h2, l2 in loops.items():
            if h2 != h and h in l2.body and (best is None or len(l2.body) < len(best.body)):
                best = l2
        lp.parent = best
    F.loops = loops
    if irreducible:
        F.loops = dict(loops)
        F.loops['irreducible'] = True
    return F.loops
