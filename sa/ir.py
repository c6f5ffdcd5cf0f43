"""Frontend: compile /repo's current sources to LLVM IR (clang -O0 + mem2reg)
and read the IR into plain Python objects through the LLVM-C API.

Nothing here runs any code of /repo.
"""
import ctypes as C
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CFG = os.path.join(os.path.dirname(HERE), "cfg")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor gone, unknown construct)."""


def _lib():
    cands = (glob.glob("/usr/lib/llvm-18/lib/libLLVM.so.1") +
             glob.glob("/usr/lib/llvm-18/lib/libLLVM-18*.so*") +
             glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*"))
    for p in cands:
        try:
            return C.CDLL(p)
        except OSError:
            pass
    raise AnalysisBroken("libLLVM 18 not found")


L = None
V = C.c_void_p


def _init():
    global L
    if L is not None:
        return
    L = _lib()

    def sig(name, res, *args):
        f = getattr(L, name)
        f.restype = res
        f.argtypes = list(args)
    P = C.POINTER
    sig("LLVMContextCreate", V)
    sig("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, P(V), P(C.c_char_p))
    sig("LLVMParseBitcodeInContext2", C.c_int, V, V, P(V))
    sig("LLVMGetModuleDataLayout", V, V)
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal",
              "LLVMGetNextGlobal", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf",
              "LLVMGetCalledValue", "LLVMGetInitializer", "LLVMGlobalGetValueType",
              "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGetElementType",
              "LLVMGetReturnType", "LLVMGetCalledFunctionType", "LLVMGetBasicBlockTerminator"):
        sig(n, V, V)
    sig("LLVMGetFirstParam", V, V)
    sig("LLVMGetNextParam", V, V)
    sig("LLVMGetSwitchDefaultDest", V, V)
    for n in ("LLVMCountBasicBlocks", "LLVMGetNumOperands", "LLVMGetInstructionOpcode",
              "LLVMGetTypeKind", "LLVMGetIntTypeWidth", "LLVMGetICmpPredicate",
              "LLVMGetFCmpPredicate", "LLVMGetNumSuccessors", "LLVMCountIncoming",
              "LLVMGetVolatile", "LLVMGetAlignment", "LLVMIsDeclaration", "LLVMGetLinkage", "LLVMCountParams",
              "LLVMGetArrayLength", "LLVMIsConditional", "LLVMGetNumArgOperands",
              "LLVMGetDebugLocLine", "LLVMGetDebugLocColumn", "LLVMGetConstOpcode",
              "LLVMIsGlobalConstant", "LLVMGetValueKind", "LLVMCountStructElementTypes",
              "LLVMIsConstantString", "LLVMGetVectorSize", "LLVMIsFunctionVarArg",
              "LLVMIsThreadLocal"):
        sig(n, C.c_uint, V)
    sig("LLVMGetValueName2", C.c_char_p, V, P(C.c_size_t))
    sig("LLVMGetOperand", V, V, C.c_uint)
    sig("LLVMGetSuccessor", V, V, C.c_uint)
    sig("LLVMGetIncomingValue", V, V, C.c_uint)
    sig("LLVMGetIncomingBlock", V, V, C.c_uint)
    sig("LLVMConstIntGetZExtValue", C.c_ulonglong, V)
    sig("LLVMConstRealGetDouble", C.c_double, V, P(C.c_int))
    sig("LLVMABISizeOfType", C.c_ulonglong, V, V)
    sig("LLVMOffsetOfElement", C.c_ulonglong, V, V, C.c_uint)
    sig("LLVMStructGetTypeAtIndex", V, V, C.c_uint)
    sig("LLVMGetAggregateElement", V, V, C.c_uint)
    sig("LLVMGetAsString", C.POINTER(C.c_char), V, P(C.c_size_t))
    sig("LLVMPrintValueToString", C.c_void_p, V)
    sig("LLVMPrintTypeToString", C.c_void_p, V)
    sig("LLVMDisposeMessage", None, C.c_void_p)
    sig("LLVMGetDebugLocFilename", C.POINTER(C.c_char), V, P(C.c_uint))
    sig("LLVMGetCallSiteEnumAttribute", V, V, C.c_uint, C.c_uint)
    sig("LLVMGetEnumAttributeAtIndex", V, V, C.c_uint, C.c_uint)
    sig("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
    sig("LLVMGetTypeAttributeValue", V, V)
    sig("LLVMGetNumIndices", C.c_uint, V)
    sig("LLVMGetIndices", C.POINTER(C.c_uint), V)
    sig("LLVMGetMaskValue", C.c_int, V, C.c_uint)
    sig("LLVMGetNumMaskElements", C.c_uint, V)
    sig("LLVMValueAsBasicBlock", V, V)
    sig("LLVMGetParamTypes", None, V, P(V))


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl",
       21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 67: "callbr"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
         38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one",
         7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule",
         14: "une", 15: "true"}
# LLVMTypeKind
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "fp80", 5: "fp128", 6: "ppc",
      7: "label", 8: "int", 9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector",
      14: "metadata", 16: "token"}


class Type:
    __slots__ = ("kind", "bits", "size", "text", "fields", "elem", "count")

    def __repr__(self):
        return self.text


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "line", "col", "file", "func", "block",
                 "pred", "succs", "cases", "incoming", "callee", "volatile", "aux",
                 "byval", "uid", "noret", "name", "sub", "leaf", "align")

    @property
    def loc(self):
        return "%s:%d" % (self.file or (self.func.file if self.func else "?"), self.line)

    def __repr__(self):
        return "<%s#%d %s>" % (self.op, self.id, self.loc)


class Block:
    __slots__ = ("idx", "insts", "succs", "preds", "func", "live_in", "name", "phis")


class Func:
    __slots__ = ("name", "file", "params", "blocks", "static", "decl", "ret", "module",
                 "key", "headers", "loopof", "byval", "insts", "vararg", "line",
                 "loopbody")

    def __repr__(self):
        return "<fn %s>" % self.name


class Global:
    __slots__ = ("name", "ty", "init", "const", "static", "module", "key", "raw",
                 "volatile_hint", "align")


class Module:
    __slots__ = ("path", "funcs", "globals", "ptrfuncs")


class Program:
    def __init__(self):
        self.modules = []
        self.funcs = {}      # external name -> Func (definition)
        self.globals = {}
        self.allfuncs = []   # every definition

    def func(self, name, file=None):
        """Resolve an anchor. Missing -> analysis broken, never a verdict."""
        c = [f for f in self.allfuncs if f.name == name and
             (file is None or f.file.endswith(file))]
        if len(c) != 1:
            raise AnalysisBroken("anchor function %s%s: %d definitions" %
                                 (name, " in " + file if file else "", len(c)))
        return c[0]

    def inst_by_uid(self, uid):
        for f in self.allfuncs:
            if f.key == uid[0]:
                for i in f.insts:
                    if i.id == uid[1]:
                        return i
        return None

    def resolve(self, module, name):
        f = module.funcs.get(name)
        if f is not None and not f.decl:
            return f
        return self.funcs.get(name)

    def resolve_global(self, module, name):
        g = module.globals.get(name)
        if g is not None and g.init is not None:
            return g
        return self.globals.get(name) or g


SRC_GLOBS = ["main.c", "lib/*/*.c", "lib-platform/*/*.c", "libcperciva/alg/*.c",
             "libcperciva/cpusupport/*.c", "libcperciva/crypto/*.c",
             "libcperciva/util/*.c", "libscrypt-kdf/*.c", "*.c", "lib/*.c",
             "libcperciva/*.c", "lib-platform/*.c"]
# Not part of the scrypt binary: the reference implementation duplicates
# crypto_scrypt(), see Makefile.am.
SRC_SKIP = {"lib/crypto/crypto_scrypt-ref.c"}

INC = ["lib", "lib-platform", "lib-platform/crypto", "lib-platform/util", "lib/crypto",
       "lib/scryptenc", "lib/util", "libcperciva/alg", "libcperciva/cpusupport",
       "libcperciva/crypto", "libcperciva/util"]
POSIX = ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]
SIMD = ["-maes", "-mrdrnd", "-msse2", "-msha", "-mssse3", "-msse4.1"]


def sources(repo=None):
    repo = repo or REPO
    out = []
    for g in SRC_GLOBS:
        for p in sorted(glob.glob(os.path.join(repo, g))):
            r = os.path.relpath(p, repo)
            if r not in SRC_SKIP and r not in out:
                out.append(r)
    # A .c file which another .c file #includes is compiled there.
    inc = set()
    for r in out:
        with open(os.path.join(repo, r), errors="replace") as fh:
            inc |= set(re.findall(r'^\s*#\s*include\s+"([^"]+\.c)"', fh.read(), re.M))
    inc = {os.path.basename(i) for i in inc}
    return [r for r in out if os.path.basename(r) not in inc]


def compile_one(rel, outdir, cfgdir, extra, passes, repo):
    bc0 = os.path.join(outdir, rel.replace("/", "__") + ".0.bc")
    bc = os.path.join(outdir, rel.replace("/", "__") + ".bc")
    cmd = ["clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w",
           "-fno-strict-aliasing", "-fno-discard-value-names",
           "-emit-llvm", "-c", "-I", cfgdir, "-I", "."]
    for i in INC:
        cmd += ["-I", i]
    cmd += ["-DHAVE_CONFIG_H", '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"',
            '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"']
    # memlimit.c is built without the POSIX feature macros (Makefile.am).
    cmd += [] if rel.endswith("/memlimit.c") else POSIX
    cmd += SIMD + extra + [rel, "-o", bc0]
    r = subprocess.run(cmd, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise AnalysisBroken("clang failed on %s:\n%s" % (rel, r.stdout[-2000:]))
    r = subprocess.run([_tool("opt"), "-passes=" + passes, bc0, "-o", bc],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("opt failed on %s:\n%s" % (rel, r.stdout[-2000:]))
    return bc


def _tool(n):
    for p in ("/usr/lib/llvm-18/bin/" + n, shutil.which(n + "-18"), shutil.which(n)):
        if p and os.path.exists(p):
            return p
    raise AnalysisBroken(n + " not found")


def build_program(extra=(), cfgdir=None, only=None, passes="mem2reg", repo=None,
                  clients=()):
    """clients: further sources, not of the repository"""
    repo = repo or REPO
    if not os.path.isdir(repo):
        raise AnalysisBroken("no source tree at " + repo)
    _init()
    tmp = tempfile.mkdtemp(prefix="sa_ir_")
    try:
        srcs = [s for s in sources(repo) if only is None or s in only] + list(clients)
        if not srcs:
            raise AnalysisBroken("no sources")
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda s: compile_one(s, tmp, cfgdir or CFG, list(extra),
                                                    passes, repo), srcs))
        prog = Program()
        for s, b in zip(srcs, bcs):
            m = _Reader(b, s).module
            prog.modules.append(m)
            for f in m.funcs.values():
                if f.decl:
                    continue
                prog.allfuncs.append(f)
                if not f.static:
                    prog.funcs.setdefault(f.name, f)
            for g in m.globals.values():
                if not g.static and g.init is not None:
                    prog.globals.setdefault(g.name, g)
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class _Reader:
    def __init__(self, path, rel):
        ctx = L.LLVMContextCreate()
        buf = V()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf),
                                                      C.byref(msg)):
            raise AnalysisBroken("cannot read " + path)
        mod = V()
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(mod)):
            raise AnalysisBroken("cannot parse " + path)
        self.mod = mod
        self.td = L.LLVMGetModuleDataLayout(mod)
        self.types = {}
        self.byval_kind = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        self.noret_kind = L.LLVMGetEnumAttributeKindForName(b"noreturn", 8)
        m = self.module = Module()
        m.path = rel
        m.funcs = {}
        m.globals = {}
        self.rel = rel
        g = L.LLVMGetFirstGlobal(mod)
        raws = []
        while g:
            o = Global()
            o.name = self.name(g)
            o.ty = self.type(L.LLVMGlobalGetValueType(g))
            o.const = bool(L.LLVMIsGlobalConstant(g))
            o.static = L.LLVMGetLinkage(g) in (8, 9)
            o.module = m
            o.key = (rel + ":" + o.name) if o.static else o.name
            o.init = None
            o.align = L.LLVMGetAlignment(g)
            m.globals[o.name] = o
            raws.append((o, g))
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(mod)
        frs = []
        while f:
            o = Func()
            o.name = self.name(f)
            o.decl = bool(L.LLVMIsDeclaration(f))
            o.static = L.LLVMGetLinkage(f) in (8, 9)
            o.module = m
            o.file = rel
            o.key = (rel + ":" + o.name) if o.static else o.name
            o.blocks = []
            o.params = []
            o.byval = {}
            o.insts = []
            o.line = 0
            m.funcs[o.name] = o
            frs.append((o, f))
            f = L.LLVMGetNextFunction(f)
        for o, g in raws:
            if not L.LLVMIsDeclaration(g):
                o.init = self.const(L.LLVMGetInitializer(g))
        for o, f in frs:
            self.function(o, f)

    def name(self, v):
        n = C.c_size_t()
        s = L.LLVMGetValueName2(v, C.byref(n))
        return s.decode("latin1") if s else ""

    def type(self, t):
        r = self.types.get(t)
        if r:
            return r
        r = Type()
        self.types[t] = r
        k = TK.get(L.LLVMGetTypeKind(t), "other")
        r.kind = k
        r.bits = 0
        r.size = 0
        r.fields = None
        r.elem = None
        r.count = 0
        p = L.LLVMPrintTypeToString(t)
        r.text = C.string_at(p).decode("latin1")
        L.LLVMDisposeMessage(p)
        if k == "int":
            r.bits = L.LLVMGetIntTypeWidth(t)
            r.size = (r.bits + 7) // 8
        elif k == "ptr":
            r.bits = 64
            r.size = 8
        elif k in ("float", "double", "fp80", "fp128"):
            r.bits = {"float": 32, "double": 64, "fp80": 80, "fp128": 128}[k]
            r.size = L.LLVMABISizeOfType(self.td, t)
        elif k == "struct":
            try:
                n = L.LLVMCountStructElementTypes(t)
                r.fields = [(L.LLVMOffsetOfElement(self.td, t, i),
                             self.type(L.LLVMStructGetTypeAtIndex(t, i))) for i in range(n)]
                r.size = L.LLVMABISizeOfType(self.td, t) if n else 0
            except Exception:
                r.fields = []
            r.bits = r.size * 8
        elif k == "array":
            r.elem = self.type(L.LLVMGetElementType(t))
            r.count = L.LLVMGetArrayLength(t)
            r.size = r.elem.size * r.count
            r.bits = r.size * 8
        elif k == "vector":
            r.elem = self.type(L.LLVMGetElementType(t))
            r.count = L.LLVMGetVectorSize(t)
            r.size = L.LLVMABISizeOfType(self.td, t)
            r.bits = r.size * 8
        return r

    # Constants: ('c',val,bits) ('null',) ('g',name) ('f',name) ('undef',bits)
    # ('fp',text) ('ce',op,ty,[ops...]) ('agg',ty,[..]) ('str',bytes) ('zero',size)
    def const(self, v):
        k = L.LLVMGetValueKind(v)
        ty = self.type(L.LLVMTypeOf(v))
        # LLVMValueKind: 0 Argument 1 BB 2 MemUse.. 5 Function 6 Alias 7 IFunc 8 GlobalVar
        # 9 BlockAddress 10 ConstExpr 11 ConstArray 12 ConstStruct 13 ConstVector
        # 14 Undef 15 AggZero 16 DataArray 17 DataVector 18 ConstInt 19 ConstFP
        # 20 NullPtr 21 TokenNone 22 MDAsValue 23 InlineAsm 24 Inst 25 Poison
        if k == 18:
            if ty.bits > 64:
                p = L.LLVMPrintValueToString(v)
                s = C.string_at(p).decode("latin1")
                L.LLVMDisposeMessage(p)
                return ("c", int(s.split()[-1]) & ((1 << ty.bits) - 1), ty.bits)
            return ("c", L.LLVMConstIntGetZExtValue(v), ty.bits)
        if k == 20:
            return ("null",)
        if k == 5:
            return ("f", self.name(v))
        if k == 8:
            return ("g", self.name(v))
        if k in (14, 25):
            return ("undef", ty.bits)
        if k == 15:
            return ("zero", ty.size, ty)
        if k == 19:
            lose = C.c_int()
            if ty.kind in ("double", "float"):
                return ("fp", L.LLVMConstRealGetDouble(v, C.byref(lose)), ty.bits)
            p = L.LLVMPrintValueToString(v)
            s = C.string_at(p).decode("latin1")
            L.LLVMDisposeMessage(p)
            return ("fp", s, ty.bits)
        if k in (16, 17):
            if L.LLVMIsConstantString(v):
                n = C.c_size_t()
                s = L.LLVMGetAsString(v, C.byref(n))
                return ("str", C.string_at(s, n.value))
            return ("agg", ty, [self.const(L.LLVMGetAggregateElement(v, i))
                                for i in range(ty.count)])
        if k in (11, 12, 13):
            n = ty.count if ty.kind in ("array", "vector") else len(ty.fields)
            return ("agg", ty, [self.const(L.LLVMGetAggregateElement(v, i))
                                for i in range(n)])
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            ops = [self.const(L.LLVMGetOperand(v, i))
                   for i in range(L.LLVMGetNumOperands(v))]
            if op == "gep":
                return ("gep", ops[0], self.gep(v, ops))
            return ("ce", op, ty, ops)
        if k == 9:
            return ("blockaddr",)
        return ("other", k)

    def gep(self, v, ops):
        """-> (const_offset, [(operand, scale)...])"""
        t = L.LLVMGetGEPSourceElementType(v)
        off = 0
        var = []
        # (index, number of elements) for each array with a declared length
        self.sub = []

        def add(o, scale):
            nonlocal off
            if o[0] == "c":
                x = o[1]
                if x >> (o[2] - 1):
                    x -= 1 << o[2]
                off += x * scale
            else:
                var.append((o, scale))
        add(ops[1], L.LLVMABISizeOfType(self.td, t))
        for o in ops[2:]:
            k = TK.get(L.LLVMGetTypeKind(t))
            if k == "struct":
                off += L.LLVMOffsetOfElement(self.td, t, o[1])
                t = L.LLVMStructGetTypeAtIndex(t, o[1])
            else:
                if k == "array" and o != ("c", 0, o[2] if len(o) > 2 else 0) and \
                        L.LLVMGetArrayLength(t) > 0:
                    self.sub.append((o, L.LLVMGetArrayLength(t)))
                t = L.LLVMGetElementType(t)
                add(o, L.LLVMABISizeOfType(self.td, t))
        return (off, var)

    def function(self, o, f):
        ids = {}
        p = L.LLVMGetFirstParam(f)
        i = 0
        while p:
            a = L.LLVMGetEnumAttributeAtIndex(f, i + 1, self.byval_kind)
            if a:
                o.byval[i] = self.type(L.LLVMGetTypeAttributeValue(a))
            ids[p] = ("a", i)
            o.params.append((self.name(p), self.type(L.LLVMTypeOf(p))))
            i += 1
            p = L.LLVMGetNextParam(p)
        if o.decl:
            return
        bbs = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            bidx[b] = len(bbs)
            bbs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        raw = []
        n = 0
        for bi, b in enumerate(bbs):
            blk = Block()
            blk.idx = bi
            blk.func = o
            blk.insts = []
            blk.succs = []
            blk.preds = []
            o.blocks.append(blk)
            x = L.LLVMGetFirstInstruction(b)
            while x:
                op = OPC.get(L.LLVMGetInstructionOpcode(x), "?")
                skip = False
                if op == "call":
                    cv = L.LLVMGetCalledValue(x)
                    if L.LLVMGetValueKind(cv) == 5 and \
                            self.name(cv).startswith(("llvm.dbg.", "llvm.lifetime.",
                                                      "llvm.experimental.noalias")):
                        skip = True
                if not skip:
                    ids[x] = ("i", n)
                    raw.append((n, x, blk, op))
                    n += 1
                x = L.LLVMGetNextInstruction(x)

        def operand(v):
            r = ids.get(v)
            if r is not None:
                return r
            return self.const(v)

        for iid, x, blk, op in raw:
            I = Inst()
            I.id = iid
            I.op = op
            I.func = o
            I.block = blk
            I.ty = self.type(L.LLVMTypeOf(x))
            I.line = L.LLVMGetDebugLocLine(x)
            I.col = L.LLVMGetDebugLocColumn(x) if I.line else 0
            ln = C.c_uint()
            fn = L.LLVMGetDebugLocFilename(x, C.byref(ln)) if I.line else None
            I.file = C.string_at(fn, ln.value).decode("latin1") if fn and ln.value else self.rel
            I.pred = None
            I.succs = None
            I.cases = None
            I.incoming = None
            I.callee = None
            I.aux = None
            I.sub = None
            I.leaf = False
            I.byval = None
            I.noret = False
            I.volatile = op in ("load", "store") and bool(L.LLVMGetVolatile(x))
            I.align = L.LLVMGetAlignment(x) if op in ("load", "store", "alloca") else 0
            I.uid = (o.key, iid)
            I.name = self.name(x) if op == "alloca" else None
            no = L.LLVMGetNumOperands(x)
            I.ops = []
            if op == "br":
                I.succs = [bidx[L.LLVMGetSuccessor(x, i)]
                           for i in range(L.LLVMGetNumSuccessors(x))]
                if L.LLVMIsConditional(x):
                    I.ops = [operand(L.LLVMGetOperand(x, 0))]
            elif op == "switch":
                I.ops = [operand(L.LLVMGetOperand(x, 0))]
                I.succs = [bidx[L.LLVMGetSwitchDefaultDest(x)]]
                I.cases = []
                for i in range(2, no, 2):
                    c = self.const(L.LLVMGetOperand(x, i))
                    d = bidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(x, i + 1))]
                    I.cases.append((c[1], d))
            elif op == "indirectbr":
                I.ops = [operand(L.LLVMGetOperand(x, 0))]
                I.succs = [bidx[L.LLVMGetSuccessor(x, i)]
                           for i in range(L.LLVMGetNumSuccessors(x))]
            elif op == "phi":
                I.incoming = [(operand(L.LLVMGetIncomingValue(x, i)),
                               bidx[L.LLVMGetIncomingBlock(x, i)])
                              for i in range(L.LLVMCountIncoming(x))]
            elif op == "call":
                na = L.LLVMGetNumArgOperands(x)
                I.ops = [operand(L.LLVMGetOperand(x, i)) for i in range(na)]
                cv = L.LLVMGetCalledValue(x)
                if L.LLVMGetValueKind(cv) == 23:
                    pr = L.LLVMPrintValueToString(cv)
                    I.callee = ("asm", C.string_at(pr).decode("latin1"))
                    L.LLVMDisposeMessage(pr)
                else:
                    I.callee = operand(cv)
                I.byval = {}
                for i in range(na):
                    a = L.LLVMGetCallSiteEnumAttribute(x, i + 1, self.byval_kind)
                    if a:
                        I.byval[i] = self.type(L.LLVMGetTypeAttributeValue(a))
                I.noret = bool(L.LLVMGetCallSiteEnumAttribute(x, 0xFFFFFFFF, self.noret_kind))
            elif op == "gep":
                I.ops = [operand(L.LLVMGetOperand(x, i)) for i in range(no)]
                I.aux = self.gep(x, I.ops)
                I.sub = self.sub
            elif op == "alloca":
                I.ops = [operand(L.LLVMGetOperand(x, 0))]
                I.aux = self.type(L.LLVMGetAllocatedType(x))
            else:
                I.ops = [operand(L.LLVMGetOperand(x, i)) for i in range(no)]
                if op == "icmp":
                    I.pred = IPRED[L.LLVMGetICmpPredicate(x)]
                elif op == "fcmp":
                    I.pred = FPRED[L.LLVMGetFCmpPredicate(x)]
                elif op == "shufflevector":
                    I.aux = tuple(L.LLVMGetMaskValue(x, i)
                                  for i in range(L.LLVMGetNumMaskElements(x)))
                elif op in ("extractvalue", "insertvalue"):
                    k = L.LLVMGetNumIndices(x)
                    ix = L.LLVMGetIndices(x)
                    I.aux = tuple(ix[i] for i in range(k))
            blk.insts.append(I)
            o.insts.append(I)
        other = set()
        for i in o.insts:
            for n, v in enumerate(i.ops or ()):
                if v[0] == "i" and \
                        not (i.op == "load" and n == 0 or i.op == "store" and n == 1):
                    other.add(v)
            for v, _ in i.incoming or ():
                if v[0] == "i":
                    other.add(v)
        for i in o.insts:
            i.leaf = i.op == "gep" and ("i", i.id) not in other
        if o.insts:
            o.line = min((i.line for i in o.insts if i.line), default=0)
        for blk in o.blocks:
            t = blk.insts[-1]
            s = list(t.succs or [])
            if t.op == "switch":
                s += [d for _, d in t.cases]
            blk.succs = sorted(set(s), key=s.index)
        for blk in o.blocks:
            for s in blk.succs:
                o.blocks[s].preds.append(blk.idx)
        _loops(o)
        _liveness(o)


def _loops(f):
    """Dominators (iterative), natural-loop headers and bodies."""
    n = len(f.blocks)
    order = []
    seen = set()

    def dfs(r):
        st = [(r, iter(f.blocks[r].succs))]
        seen.add(r)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                order.append(b)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in f.blocks[b].preds:
                if p not in idom:
                    continue
                if new is None:
                    new = p
                else:
                    a, c = p, new
                    while a != c:
                        while pos[a] > pos[c]:
                            a = idom[a]
                        while pos[c] > pos[a]:
                            c = idom[c]
                    new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]
    # headers: targets of retreating edges (also irreducible ones)
    f.headers = set()
    f.loopbody = {}
    for b in rpo:
        for s in f.blocks[b].succs:
            if s in pos and pos[s] <= pos[b]:
                f.headers.add(s)
                body = f.loopbody.setdefault(s, {s})
                if dominates(s, b):
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in f.blocks[x].preds if p in pos)
                else:
                    body.add(b)
    f.loopof = None


def _liveness(f):
    use = []
    deff = []
    for b in f.blocks:
        u = set()
        d = set()
        for i in b.insts:
            if i.op == "phi":
                d.add(("i", i.id))
                continue
            vals = list(i.ops)
            if i.op == "call" and i.callee and i.callee[0] in ("i", "a"):
                vals.append(i.callee)
            if i.op == "gep":
                vals += [o for o, _ in i.aux[1]]
            for v in _flat(vals):
                if v[0] in ("i", "a") and v not in d:
                    u.add(v)
            d.add(("i", i.id))
        use.append(u)
        deff.append(d)
    live = [set() for _ in f.blocks]
    sj = _setjmps(f)
    ch = True
    while ch:
        ch = False
        for b in reversed(f.blocks):
            out = set()
            if sj and _has_call(b, LONGJMP):
                for t, used in sj:
                    out |= used
                    for s in t.succs:
                        out |= live[s]
            for s in b.succs:
                out |= live[s]
                for i in f.blocks[s].insts:
                    if i.op != "phi":
                        break
                    out.discard(("i", i.id))
                for i in f.blocks[s].insts:
                    if i.op != "phi":
                        break
                    for v, p in i.incoming:
                        if p == b.idx and v[0] in ("i", "a"):
                            out.add(v)
            new = use[b.idx] | (out - deff[b.idx])
            if new != live[b.idx]:
                live[b.idx] = new
                ch = True
    for b in f.blocks:
        # phis of this block are defined on entry: keep them
        b.live_in = frozenset(live[b.idx])


SETJMP = ("_setjmp", "setjmp", "__sigsetjmp", "sigsetjmp")
LONGJMP = ("_longjmp", "longjmp", "siglongjmp", "__longjmp_chk")


def _has_call(b, names):
    return any(i.op == "call" and i.callee and i.callee[0] == "f" and
               i.callee[1] in names for i in b.insts)


def _setjmps(f):
    """blocks with a setjmp() and the values used after it in the same block"""
    res = []
    for b in f.blocks:
        if not _has_call(b, SETJMP):
            continue
        used, on = set(), False
        for i in b.insts:
            if on:
                vals = list(i.ops) + ([o for o, _ in i.aux[1]] if i.op == "gep" else [])
                used |= set(_flat(vals))
            on |= i.op == "call"
        res.append((b, used))
    return res


def _flat(vals):
    for v in vals:
        if v[0] in ("i", "a"):
            yield v


if __name__ == "__main__":
    import time
    t = time.time()
    p = build_program()
    print("built", time.time() - t, len(p.allfuncs), "functions")
    print(sum(len(f.insts) for f in p.allfuncs), "insts")
    print(p.func("main"), p.func("checkparams"))
