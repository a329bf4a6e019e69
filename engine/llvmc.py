"""Minimal LLVM-C (libLLVM 18) bindings through ctypes: read a bitcode file and walk it."""
import ctypes as C
import os

for _p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
           "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1"):
    if os.path.exists(_p):
        L = C.CDLL(_p)
        break
else:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p
_sig = {
    "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
    "LLVMContextCreate": (P, []),
    "LLVMParseBitcodeInContext2": (C.c_int, [P, P, C.POINTER(P)]),
    "LLVMGetModuleDataLayout": (P, [P]),
    "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
    "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
    "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]),
    "LLVMAliasGetAliasee": (P, [P]),
    "LLVMGetInitializer": (P, [P]), "LLVMIsDeclaration": (C.c_int, [P]),
    "LLVMGlobalGetValueType": (P, [P]),
    "LLVMGetValueName2": (C.c_char_p, [P, C.POINTER(C.c_size_t)]),
    "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
    "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
    "LLVMGetInstructionOpcode": (C.c_int, [P]),
    "LLVMGetNumOperands": (C.c_int, [P]), "LLVMGetOperand": (P, [P, C.c_uint]),
    "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (C.c_int, [P]),
    "LLVMGetIntTypeWidth": (C.c_uint, [P]), "LLVMGetElementType": (P, [P]),
    "LLVMGetArrayLength2": (C.c_uint64, [P]), "LLVMGetVectorSize": (C.c_uint, [P]),
    "LLVMCountStructElementTypes": (C.c_uint, [P]), "LLVMStructGetTypeAtIndex": (P, [P, C.c_uint]),
    "LLVMGetValueKind": (C.c_int, [P]),
    "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
    "LLVMConstRealGetDouble": (C.c_double, [P, C.POINTER(C.c_int)]),
    "LLVMGetConstOpcode": (C.c_int, [P]),
    "LLVMGetElementAsConstant": (P, [P, C.c_uint]),
    "LLVMGetAggregateElement": (P, [P, C.c_uint]),
    "LLVMABISizeOfType": (C.c_ulonglong, [P, P]), "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
    "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, C.c_uint]),
    "LLVMGetGEPSourceElementType": (P, [P]), "LLVMGetAllocatedType": (P, [P]),
    "LLVMGetICmpPredicate": (C.c_int, [P]), "LLVMGetFCmpPredicate": (C.c_int, [P]),
    "LLVMGetNumIndices": (C.c_uint, [P]), "LLVMGetIndices": (C.POINTER(C.c_uint), [P]),
    "LLVMCountIncoming": (C.c_uint, [P]), "LLVMGetIncomingValue": (P, [P, C.c_uint]),
    "LLVMGetIncomingBlock": (P, [P, C.c_uint]),
    "LLVMGetNumSuccessors": (C.c_uint, [P]), "LLVMGetSuccessor": (P, [P, C.c_uint]),
    "LLVMIsConditional": (C.c_int, [P]), "LLVMGetCondition": (P, [P]),
    "LLVMGetCalledValue": (P, [P]), "LLVMGetNumArgOperands": (C.c_uint, [P]),
    "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]),
    "LLVMGetNumClauses": (C.c_uint, [P]), "LLVMGetClause": (P, [P, C.c_uint]), "LLVMIsCleanup": (C.c_int, [P]),
    "LLVMGetAtomicRMWBinOp": (C.c_int, [P]), "LLVMCountParams": (C.c_uint, [P]), "LLVMGetParam": (P, [P, C.c_uint]),
    "LLVMGetEnumAttributeKindForName": (C.c_uint, [C.c_char_p, C.c_size_t]),
    "LLVMGetEnumAttributeAtIndex": (P, [P, C.c_uint, C.c_uint]),
    "LLVMGetTypeAttributeValue": (P, [P]),
    "LLVMPrintValueToString": (C.c_char_p, [P]),
    "LLVMIsThreadLocal": (C.c_int, [P]),
    "LLVMGetUndefMaskElem": (C.c_int, []),
    "LLVMGetReturnType": (P, [P]),
    "LLVMGetNumMaskElements": (C.c_uint, [P]), "LLVMGetMaskValue": (C.c_int, [P, C.c_uint]),
}
for _n, (_r, _a) in _sig.items():
    _f = getattr(L, _n)
    _f.restype = _r
    _f.argtypes = _a


def name(v):
    n = C.c_size_t()
    s = L.LLVMGetValueName2(v, C.byref(n))
    return s[:n.value].decode() if s else ""


def load(path):
    buf = P()
    err = C.c_char_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError("cannot read %s: %s" % (path, err.value))
    ctx = L.LLVMContextCreate()
    mod = P()
    if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(mod)):
        raise RuntimeError("cannot parse " + path)
    return mod.value


def functions(mod):
    f = L.LLVMGetFirstFunction(mod)
    while f:
        yield f
        f = L.LLVMGetNextFunction(f)


def globals_(mod):
    g = L.LLVMGetFirstGlobal(mod)
    while g:
        yield g
        g = L.LLVMGetNextGlobal(g)


def aliases(mod):
    g = L.LLVMGetFirstGlobalAlias(mod)
    while g:
        yield g
        g = L.LLVMGetNextGlobalAlias(g)


def blocks(f):
    b = L.LLVMGetFirstBasicBlock(f)
    while b:
        yield b
        b = L.LLVMGetNextBasicBlock(b)


def insts(b):
    i = L.LLVMGetFirstInstruction(b)
    while i:
        yield i
        i = L.LLVMGetNextInstruction(i)
