"""Thin ctypes binding of the LLVM-C API (LLVM 18) used by ir2c.py."""
import ctypes as C, ctypes.util, os
def _load():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
        if os.path.exists(p):
            return C.CDLL(p)
    raise RuntimeError("libLLVM-18 not found")
L = _load()
P, U, S, ULL, LL, B = C.c_void_p, C.c_uint, C.c_char_p, C.c_ulonglong, C.c_longlong, C.c_int
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); globals()[name[4:]] = fn
for n, r, a in [
 ("LLVMContextCreate",P,()),("LLVMCreateMemoryBufferWithContentsOfFile",B,(S,P,P)),
 ("LLVMParseIRInContext",B,(P,P,P,P)),
 ("LLVMGetFirstFunction",P,(P,)),("LLVMGetNextFunction",P,(P,)),
 ("LLVMGetFirstGlobal",P,(P,)),("LLVMGetNextGlobal",P,(P,)),
 ("LLVMGetFirstGlobalAlias",P,(P,)),("LLVMGetNextGlobalAlias",P,(P,)),("LLVMAliasGetAliasee",P,(P,)),
 ("LLVMGetNamedFunction",P,(P,S)),("LLVMGetNamedGlobal",P,(P,S)),
 ("LLVMGetValueName2",P,(P,P)),("LLVMTypeOf",P,(P,)),("LLVMGetTypeKind",B,(P,)),
 ("LLVMGetIntTypeWidth",U,(P,)),("LLVMCountStructElementTypes",U,(P,)),
 ("LLVMStructGetTypeAtIndex",P,(P,U)),("LLVMIsPackedStruct",B,(P,)),("LLVMIsOpaqueStruct",B,(P,)),("LLVMGetStructName",S,(P,)),
 ("LLVMGetArrayLength2",ULL,(P,)),("LLVMGetElementType",P,(P,)),("LLVMGetVectorSize",U,(P,)),
 ("LLVMGetReturnType",P,(P,)),("LLVMCountParamTypes",U,(P,)),("LLVMGetParamTypes",None,(P,P)),("LLVMIsFunctionVarArg",B,(P,)),
 ("LLVMGlobalGetValueType",P,(P,)),("LLVMIsDeclaration",B,(P,)),("LLVMGetInitializer",P,(P,)),("LLVMIsGlobalConstant",B,(P,)),
 ("LLVMIsThreadLocal",B,(P,)),
 ("LLVMCountParams",U,(P,)),("LLVMGetParam",P,(P,U)),
 ("LLVMGetFirstBasicBlock",P,(P,)),("LLVMGetNextBasicBlock",P,(P,)),("LLVMGetBasicBlockName",S,(P,)),
 ("LLVMGetFirstInstruction",P,(P,)),("LLVMGetNextInstruction",P,(P,)),("LLVMGetInstructionOpcode",B,(P,)),
 ("LLVMGetInstructionParent",P,(P,)),
 ("LLVMGetNumOperands",B,(P,)),("LLVMGetOperand",P,(P,U)),("LLVMGetICmpPredicate",B,(P,)),("LLVMGetFCmpPredicate",B,(P,)),
 ("LLVMGetNumSuccessors",U,(P,)),("LLVMGetSuccessor",P,(P,U)),("LLVMIsConditional",B,(P,)),("LLVMGetCondition",P,(P,)),
 ("LLVMCountIncoming",U,(P,)),("LLVMGetIncomingValue",P,(P,U)),("LLVMGetIncomingBlock",P,(P,U)),
 ("LLVMGetNumIndices",U,(P,)),("LLVMGetIndices",P,(P,)),("LLVMGetGEPSourceElementType",P,(P,)),
 ("LLVMGetAllocatedType",P,(P,)),("LLVMGetCalledFunctionType",P,(P,)),("LLVMGetCalledValue",P,(P,)),("LLVMGetNumArgOperands",U,(P,)),
 ("LLVMGetAtomicRMWBinOp",B,(P,)),("LLVMGetValueKind",B,(P,)),("LLVMGetConstOpcode",B,(P,)),
 ("LLVMConstIntGetZExtValue",ULL,(P,)),("LLVMConstIntGetSExtValue",LL,(P,)),("LLVMConstRealGetDouble",C.c_double,(P,P)),
 ("LLVMGetAggregateElement",P,(P,U)),("LLVMIsConstantString",B,(P,)),("LLVMGetAsString",P,(P,P)),
 ("LLVMIsNull",B,(P,)),("LLVMIsUndef",B,(P,)),("LLVMPrintValueToString",P,(P,)),("LLVMPrintTypeToString",P,(P,)),
 ("LLVMDisposeMessage",None,(P,)),
 ("LLVMGetModuleDataLayout",P,(P,)),("LLVMABISizeOfType",ULL,(P,P)),("LLVMOffsetOfElement",ULL,(P,P,U)),("LLVMABIAlignmentOfType",U,(P,P)),
 ("LLVMGetFirstUse",P,(P,)),("LLVMGetNextUse",P,(P,)),("LLVMGetUser",P,(P,)),
 ("LLVMBasicBlockAsValue",P,(P,)),("LLVMGetDebugLocLine",U,(P,)),("LLVMGetDebugLocFilename",P,(P,P)),
 ("LLVMGetUndefMaskElem",B,()),("LLVMGetLinkage",B,(P,)),("LLVMGetAttributeCountAtIndex",U,(P,U)),
 ("LLVMGetEnumAttributeKindForName",U,(S,C.c_size_t)),("LLVMGetCallSiteEnumAttribute",P,(P,U,U)),("LLVMGetEnumAttributeAtIndex",P,(P,U,U)),
 ("LLVMGetTypeAttributeValue",P,(P,)),("LLVMGetTypeByName2",P,(P,S)),("LLVMGetModuleContext",P,(P,)),
]:
    _f(n, r, *a)

def value_name(v):
    n = C.c_size_t(); p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p and n.value else ""
def vstr(v):
    p = PrintValueToString(v); s = C.string_at(p).decode(errors="replace"); DisposeMessage(p); return s
def tstr(t):
    p = PrintTypeToString(t); s = C.string_at(p).decode(errors="replace"); DisposeMessage(p); return s
def load_module(path):
    ctx = ContextCreate(); buf = P(); msg = P()
    if CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError("cannot read " + path)
    mod = P(); msg = P()
    if ParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError(C.string_at(msg.value).decode())
    return mod.value
# opcodes (LLVM-C)
OP = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",67:"callbr",66:"fneg",
 8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",
 20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"gep",
 30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",
 39:"ptrtoint",40:"inttoptr",41:"bitcast",60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",
 49:"va_arg",50:"extractelement",51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",
 55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad"}
ICMP = {32:"==",33:"!=",34:("u",">"),35:("u",">="),36:("u","<"),37:("u","<="),38:("s",">"),39:("s",">="),40:("s","<"),41:("s","<=")}
# type kinds
TK = {0:"void",1:"half",2:"float",3:"double",4:"fp80",5:"fp128",7:"label",8:"int",9:"func",10:"struct",11:"array",12:"ptr",13:"vector",14:"metadata",16:"token"}
