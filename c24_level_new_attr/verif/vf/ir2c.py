#!/usr/bin/env python3
"""ir2c: mechanical translation of LLVM-18 IR (of the real /repo sources + a contract
harness) into C for goto-cc/cbmc.  One C statement per IR instruction, one label per basic
block; no semantic simplification is done here.  See DESIGN.md "What the extraction drops"."""
import sys, re, json, math, ctypes
import llvmc as L
from llvmc import OP, TK, ICMP

class Unsupported(Exception): pass

def cid(s):
    s2 = re.sub(r"[^A-Za-z0-9_]", lambda m: "_%02x" % ord(m.group(0)), s)
    return s2

SKIP_INTR = ("llvm.lifetime.", "llvm.dbg.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant.", "llvm.prefetch",
             "llvm.stackrestore", "llvm.va_end", "llvm.donothing", "llvm.sideeffect")
SANDBOX_NAMES = {"vf_assume", "vf_check", "vf_reach"}

class Trans:
    def __init__(self, path, entries, opts=None):
        self.opts = opts or {}
        self.mod = L.load_module(path)
        self.dl = L.GetModuleDataLayout(self.mod)
        self.types = {}      # llvm type ptr -> C name
        self.typedefs = []   # ordered C text
        self.typekey = {}    # structural key -> C name
        self.funcs_out = []; self.protos = {}; self.globals_out = []; self.gdecl = {}
        self.work = []; self.seen_f = set(); self.seen_g = set()
        self.unsupported = []; self.externs = set(); self.models_used = set(); self.translated = []
        self.fnmap = {}
        f = L.GetFirstFunction(self.mod)
        while f:
            self.fnmap[L.value_name(f)] = f; f = L.GetNextFunction(f)
        self.nondet = {}
        self.reach_names = []; self.check_names = []
        self.ncheck = 0
        self.nloc = 0
        self.strcount = 0
        self.entries = entries
        self.byval_kind = L.GetEnumAttributeKindForName(b"byval", 5)
        self.loopcuts = self.opts.get("loopcuts", {})  # mangled fn -> list
        self.cuts_applied = []
        self.cut_errors = []

    # ---------- types
    def ty(self, t):
        if t in self.types: return self.types[t]
        k = TK.get(L.GetTypeKind(t))
        if k == "void": r = "void"
        elif k == "int":
            w = L.GetIntTypeWidth(t)
            r = self.intty(w)
        elif k == "float": r = "float"
        elif k == "double": r = "double"
        elif k == "fp80": r = "fp80"
        elif k == "ptr": r = "ptr"
        elif k == "struct":
            n = L.CountStructElementTypes(t)
            if L.IsOpaqueStruct(t):
                r = "S_opaque"
            else:
                elts = [self.ty(L.StructGetTypeAtIndex(t, i)) for i in range(n)]
                packed = L.IsPackedStruct(t)
                key = ("s", packed, tuple(elts), L.GetStructName(t))
                if key in self.typekey: r = self.typekey[key]
                else:
                    nm = L.GetStructName(t)
                    base = "S%d" % len(self.typekey)
                    if nm: base += "_" + cid(nm.decode())[:40]
                    r = "struct " + base
                    body = " ".join("%s f%d;" % (e, i) for i, e in enumerate(elts)) or "u8 empty[0];"
                    self.typedefs.append("%s { %s }%s;" % (r, body, " __attribute__((packed))" if packed else ""))
                    if n: self.typedefs.append("_Static_assert(sizeof(%s) == %d, \"layout\");" % (r, L.ABISizeOfType(self.dl, t)))
                    self.typekey[key] = r
        elif k == "array":
            e = self.ty(L.GetElementType(t)); n = L.GetArrayLength2(t)
            key = ("a", e, n)
            if key in self.typekey: r = self.typekey[key]
            else:
                r = "struct A%d" % len(self.typekey)
                self.typedefs.append("%s { %s a[%d]; };" % (r, e, n))
                self.typekey[key] = r
        elif k == "vector":
            e = self.ty(L.GetElementType(t)); n = L.GetVectorSize(t)
            key = ("v", e, n)
            if key in self.typekey: r = self.typekey[key]
            else:
                r = "struct V%d" % len(self.typekey)
                self.typedefs.append("%s { %s a[%d]; };" % (r, e, n))
                self.typekey[key] = r
        else:
            raise Unsupported("type " + L.tstr(t))
        self.types[t] = r
        return r
    def intty(self, w):
        if w == 1: return "u1"
        if w in (8, 16, 32, 64, 128): return "u%d" % w
        return "unsigned __CPROVER_bitvector[%d]" % w
    def kind(self, t): return TK.get(L.GetTypeKind(t))
    def width(self, t): return L.GetIntTypeWidth(t)
    def sty(self, w):
        if w in (8, 16, 32, 64, 128): return "s%d" % w
        if w == 1: return "signed __CPROVER_bitvector[1]"
        return "signed __CPROVER_bitvector[%d]" % w
    def nd(self, cty):
        if cty == "void": return ""
        n = "nondet_" + cid(cty)
        self.nondet[n] = cty
        return n + "()"
    def size(self, t): return L.ABISizeOfType(self.dl, t)

    # ---------- constants
    def const(self, v, init=False):
        k = L.GetValueKind(v); t = L.TypeOf(v); tk = self.kind(t)
        if k == 18:
            w = self.width(t)
            if w <= 64:
                x = L.ConstIntGetZExtValue(v) & ((1 << w) - 1)
                if w == 64: return "%dULL" % x
                return "((%s)%dULL)" % (self.intty(w), x)
            s = L.vstr(v).split()[-1]; x = int(s) & ((1 << w) - 1)
            if w == 128: return "(((u128)%dULL << 64) | %dULL)" % (x >> 64, x & (2**64 - 1))
            return "((%s)%s)" % (self.intty(w), x)
        if k == 19:
            lost = ctypes.c_int()
            d = L.ConstRealGetDouble(v, ctypes.byref(lost))
            ct = self.ty(t)
            if math.isnan(d): return "((%s)VF_NAN)" % ct
            if math.isinf(d): return "((%s)%sVF_INF)" % (ct, "-" if d < 0 else "")
            return "((%s)%s)" % (ct, ("(" + d.hex() + ")") if d == d else "VF_NAN")
        if k == 20: return "((ptr)0)"
        if k in (14, 25):
            if init: return self.zero(t)
            return self.nd(self.ty(t))
        if k == 15:
            return self.zero(t) if init else "((%s)%s)" % (self.ty(t), self.zero(t))
        if k in (11, 12, 13, 16, 17):
            s = self.agg(v)
            return s if init else "((%s)%s)" % (self.ty(t), s)
        if k == 5:
            return "((ptr)&%s)" % self.fref(v)
        if k == 6:
            return self.const(L.AliasGetAliasee(v), init)
        if k == 8:
            self.gref(v); return "((ptr)&%s)" % self.gname(v)
        if k == 10:
            return self.constexpr(v, init)
        if k == 26 or k == 21: return "0"
        raise Unsupported("constant kind %d %s" % (k, L.vstr(v)[:80]))
    def zero(self, t):
        tk = self.kind(t)
        if tk in ("struct", "array", "vector"):
            n = L.CountStructElementTypes(t) if tk == "struct" else None
            if tk == "struct":
                if n == 0: return "{}"
                return "{" + self.zero(L.StructGetTypeAtIndex(t, 0)) + "}"
            if tk == "array":
                if L.GetArrayLength2(t) == 0: return "{}"
                return "{{" + self.zero(L.GetElementType(t)) + "}}"
            return "{{0}}"
        return "0"
    def agg(self, v):
        t = L.TypeOf(v); tk = self.kind(t)
        if tk == "struct": n = L.CountStructElementTypes(t)
        elif tk == "array": n = L.GetArrayLength2(t)
        else: n = L.GetVectorSize(t)
        parts = [self.const(L.GetAggregateElement(v, i), True) for i in range(n)]
        if tk == "struct": return "{" + ", ".join(parts) + "}" if parts else "{}"
        return "{{" + ", ".join(parts) + "}}" if parts else "{}"
    def constexpr(self, v, init):
        op = OP[L.GetConstOpcode(v)]
        o = lambda i: self.const(L.GetOperand(v, i), init)
        if op == "gep": return self.gep(v, lambda x: self.const(x, init))
        if op in ("bitcast", "addrspacecast"): return o(0)
        if op == "ptrtoint": return "((%s)(u64)%s)" % (self.ty(L.TypeOf(v)), o(0))
        if op == "inttoptr": return "((ptr)(u64)%s)" % o(0)
        if op in ("add", "sub", "mul", "and", "or", "xor"):
            c = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}[op]
            return "((%s)(%s %s %s))" % (self.ty(L.TypeOf(v)), o(0), c, o(1))
        if op == "icmp":
            p = ICMP[L.GetICmpPredicate(v)]
            return self.icmp(p, L.GetOperand(v, 0), L.GetOperand(v, 1), o(0), o(1))
        if op == "trunc": return "((%s)%s)" % (self.ty(L.TypeOf(v)), o(0))
        raise Unsupported("constexpr " + op)

    # ---------- globals / functions
    def gname(self, v): return "G_" + cid(L.value_name(v))
    def gref(self, v):
        n = self.gname(v)
        if n in self.seen_g: return n
        self.seen_g.add(n)
        t = L.GlobalGetValueType(v); ct = self.ty(t)
        if ct == "S_opaque" or (L.IsDeclaration(v)):
            # external object: storage with unconstrained contents
            if ct == "S_opaque": ct = "struct { u8 b[512]; }"
            self.gdecl[n] = "%s %s;" % (ct, n)
            self.externs.add("global:" + L.value_name(v))
            return n
        self.gdecl[n] = "extern %s %s;" % (ct, n) if False else "%s %s;" % (ct, n)
        init = L.GetInitializer(v)
        self.globals_out.append((n, ct, init))
        return n
    def fref(self, f):
        n = L.value_name(f)
        m = self.fnmap.get("vf_model__" + n)
        if m is not None and not self.opts.get("nomodels"):
            self.models_used.add(n)
            f = m; n = "vf_model__" + n
        fname = "F_" + cid(n)
        if n not in self.seen_f:
            self.seen_f.add(n); self.work.append(f)
        return fname
    def fproto(self, f, name=None):
        ft = L.GlobalGetValueType(f)
        n = L.CountParams(f)
        ret = self.ty(L.GetReturnType(ft))
        args = ["%s p%d" % (self.ty(L.TypeOf(L.GetParam(f, i))), i) for i in range(n)]
        return "%s %s(%s%s)" % (ret, name or ("F_" + cid(L.value_name(f))), ", ".join(args) or ("void" if not L.IsFunctionVarArg(ft) else ""),
                                 ", ..." if L.IsFunctionVarArg(ft) and args else "")

    # ---------- expression helpers
    def val(self, v):
        k = L.GetValueKind(v)
        if k == 0: return self.argn[v]
        if k == 24: return self.vn(v)
        return self.const(v)
    def vn(self, v):
        n = self.vnames.get(v)
        if n is None:
            nm = cid(L.value_name(v))
            n = "v%d%s" % (len(self.vnames), ("_" + nm) if nm else "")
            self.vnames[v] = n
        return n
    def sval(self, v, txt=None):
        w = self.width(L.TypeOf(v))
        return "((%s)%s)" % (self.sty(w), txt or self.val(v))
    def icmp(self, p, a, b, ta=None, tb=None):
        ta = ta or self.val(a); tb = tb or self.val(b)
        t = L.TypeOf(a)
        if self.kind(t) == "vector": raise Unsupported("vector icmp")
        if isinstance(p, str): return "((u1)(%s %s %s))" % (ta, p, tb)
        if self.kind(t) == "ptr":
            return "((u1)((u64)%s %s (u64)%s))" % (ta, p[1], tb)
        if p[0] == "u": return "((u1)(%s %s %s))" % (ta, p[1], tb)
        return "((u1)(%s %s %s))" % (self.sval(a, ta), p[1], self.sval(b, tb))
    def gep(self, v, val):
        st = L.GetGEPSourceElementType(v)
        base = L.GetOperand(v, 0); nops = L.GetNumOperands(v)
        idx = [L.GetOperand(v, i) for i in range(1, nops)]
        b = val(base)
        def s(i):
            if L.GetValueKind(i) == 18:
                return str(L.ConstIntGetSExtValue(i))
            w = self.width(L.TypeOf(i))
            return "((s64)%s)" % ("((%s)%s)" % (self.sty(w), val(i)))
        stc = self.ty(st)
        i0 = idx[0]; zero0 = L.GetValueKind(i0) == 18 and L.ConstIntGetSExtValue(i0) == 0
        if len(idx) == 1:
            if zero0: return b
            return "((ptr)((%s*)%s + %s))" % (stc, b, s(i0))
        e = "((%s*)%s)" % (stc, b) if zero0 else "((%s*)%s + %s)" % (stc, b, s(i0))
        expr = "(*%s)" % e
        t = st
        for i in idx[1:]:
            tk = self.kind(t)
            if tk == "struct":
                j = L.ConstIntGetZExtValue(i); expr += ".f%d" % j; t = L.StructGetTypeAtIndex(t, j)
            elif tk == "array":
                expr += ".a[%s]" % s(i); t = L.GetElementType(t)
            else: raise Unsupported("gep into " + str(tk))
        return "((ptr)&%s)" % expr

    # ---------- function body
    def emit_function(self, f):
        name = L.value_name(f)
        self.argn = {}; self.vnames = {}
        for i in range(L.CountParams(f)): self.argn[L.GetParam(f, i)] = "p%d" % i
        bbs = []; b = L.GetFirstBasicBlock(f)
        while b: bbs.append(b); b = L.GetNextBasicBlock(b)
        bbn = {b: "B%d" % i for i, b in enumerate(bbs)}
        decls = []; body = []
        cuts = self.plan_cuts(f, name, bbs)
        insts = {}
        for b in bbs:
            l = []; i = L.GetFirstInstruction(b)
            while i: l.append(i); i = L.GetNextInstruction(i)
            insts[b] = l
        for b in bbs:
            for i in insts[b]:
                t = L.TypeOf(i); op = OP.get(L.GetInstructionOpcode(i))
                if self.kind(t) in ("void", "label", "metadata", "token"): continue
                if op == "alloca": continue
                ct = self.ty(t)
                decls.append("  %s %s;" % (ct, self.vn(i)))
        order, self.loop_members = loop_layout(bbs)
        for kind, b in order:
            if kind == "latch":
                if b not in cuts: body.append(" %s_L: ;\n  goto %s;" % (bbn[b], bbn[b]))
                continue
            body.append(" %s: ;" % bbn[b])
            phis = [i for i in insts[b] if OP.get(L.GetInstructionOpcode(i)) == "phi"]
            if b in cuts: body += cuts[b]["header"](phis)
            for i in insts[b]:
                op = OP.get(L.GetInstructionOpcode(i))
                if op == "phi": continue
                try:
                    body += ["  " + s for s in self.inst(f, b, i, op, bbn, insts, decls, cuts)]
                except Unsupported as e:
                    self.unsupported.append("%s: %s" % (name, e))
                    body.append('  __CPROVER_assert(0, "VF-UNSUPPORTED: %s"); __CPROVER_assume(0);' % str(e).replace('"', "'").replace("\\", "/")[:100])
        self.funcs_out.append(self.fproto(f) + "\n{\n" + "\n".join(decls) + "\n" + "\n".join(body) + "\n}\n")
        self.translated.append(name)

    def edge(self, b, to, bbn, insts, cuts):
        """statements for the control-flow edge b->to (phi copies, loop-cut checks)."""
        phis = [i for i in insts[to] if OP.get(L.GetInstructionOpcode(i)) == "phi"]
        out = []; asg = []
        for n, p in enumerate(phis):
            for k in range(L.CountIncoming(p)):
                if L.GetIncomingBlock(p, k) == b:
                    iv = L.GetIncomingValue(p, k)
                    if iv != p: asg.append((self.vn(p), self.ty(L.TypeOf(p)), self.val(iv)))
                    break
        if len(asg) == 1: out.append("%s = %s;" % (asg[0][0], asg[0][2]))
        elif asg:
            out.append("{ " + " ".join("%s t%d = %s;" % (ct, n, v) for n, (p, ct, v) in enumerate(asg)) + " " +
                       " ".join("%s = t%d;" % (p, n) for n, (p, ct, v) in enumerate(asg)) + " }")
        if to in cuts:
            if b in cuts[to]["loop"]:
                out += cuts[to]["back"](phis)
                return out
            out += cuts[to]["entry"](phis)
        out.append("goto %s%s;" % (bbn[to], "_L" if b in self.loop_members.get(to, ()) else ""))
        return out

    # loop cuts --------------------------------------------------------------
    def plan_cuts(self, f, name, bbs):
        spec = self.loopcuts.get(name)
        if not spec: return {}
        loops = natural_loops(bbs)
        res = {}
        for sp in spec:
            idx = sp["loop"]
            if idx >= len(loops):
                self.cut_errors.append("%s: loop %d not found" % (name, idx)); continue
            header, members = loops[idx]
            res[header] = self.make_cut(name, sp, header, members)
        return res
    def make_cut(self, name, sp, header, members):
        inv = self.fnmap.get(sp["inv"]); hav = self.fnmap.get(sp.get("havoc")) if sp.get("havoc") else None
        if inv is None: raise Unsupported("invariant function %s missing" % sp["inv"])
        self.fref(inv)
        if hav is not None: self.fref(hav)
        # pointer-valued loop variables: any address the invariant allows, as a pointer into its object
        for fn in sp.get("ptrs", {}).values():
            if self.fnmap.get(fn) is None: raise Unsupported("function %s missing" % fn)
            self.fref(self.fnmap[fn])
        tr = self
        def pick(phis):
            """map invariant parameters -> phi variables: by source name, else by position among phis of that type"""
            res = []
            for (nm, ct) in sp["phis"]:
                c = [p for p in phis if re.sub(r"[._].*$", "", L.value_name(p)) == nm and p not in res]
                if not c:
                    c = [p for p in phis if tr.ty(L.TypeOf(p)) == ct and p not in res]
                    if len(c) != 1: raise Unsupported("cannot map loop variable %s in %s" % (nm, name))
                res.append(c[0])
            return res
        def args(phis):
            a = list(sp.get("args", []))
            out = ["p%d" % i for i in a]
            return ", ".join(out + [tr.vn(p) for p in pick(phis)])
        def call(phis): return "%s(%s)" % ("F_" + cid(sp["inv"]), args(phis))
        tag = "%s loop %d" % (name, sp["loop"])
        self.cuts_applied.append(tag)
        return {"loop": members,
                "entry": lambda phis: ['__CPROVER_assert(%s, "loop invariant holds on entry: %s");' % (call(phis), tag)],
                "back": lambda phis: ['__CPROVER_assert(%s, "loop invariant preserved: %s");' % (call(phis), tag), "__CPROVER_assume(0);"],
                "header": lambda phis: ["  %s = %s;" % (tr.vn(p), tr.nd(tr.ty(L.TypeOf(p)))) for p in phis] +
                          ["  %s = F_%s();" % (tr.vn(pick(phis)[k]), cid(sp["ptrs"][nm])) for k, (nm, ct) in enumerate(sp["phis"]) if nm in sp.get("ptrs", {})] +
                          (["  F_%s(%s);" % (cid(sp["havoc"]), args(phis))] if hav is not None else []) +
                          ["  __CPROVER_assume(%s);" % call(phis)]}

    def typed_ptr_hint(self, v):
        """type of the object a pointer value is known to address (for typed memcpy / operator new)."""
        k = L.GetValueKind(v)
        if k == 8: return L.GlobalGetValueType(v)
        if k == 24:
            op = OP.get(L.GetInstructionOpcode(v))
            if op == "alloca": return L.GetAllocatedType(v)
            if op == "gep":
                t = L.GetGEPSourceElementType(v)
                for i in range(2, L.GetNumOperands(v)):
                    tk = self.kind(t)
                    if tk == "struct": t = L.StructGetTypeAtIndex(t, L.ConstIntGetZExtValue(L.GetOperand(v, i)))
                    elif tk == "array": t = L.GetElementType(t)
                return t
        # uses
        u = L.GetFirstUse(v); best = None
        while u:
            x = L.GetUser(u)
            if L.GetValueKind(x) == 24 and OP.get(L.GetInstructionOpcode(x)) == "gep" and L.GetOperand(x, 0) == v:
                t = L.GetGEPSourceElementType(x)
                if self.kind(t) == "struct": return t
            u = L.GetNextUse(u)
        return best
    def sub_type_of_size(self, t, n):
        """descend into leading members until the size matches"""
        for _ in range(10):
            if t is None: return None
            try: s = self.size(t)
            except Exception: return None
            if s == n: return t
            if s < n: return None
            tk = self.kind(t)
            if tk == "struct" and L.CountStructElementTypes(t) and not L.IsOpaqueStruct(t): t = L.StructGetTypeAtIndex(t, 0)
            elif tk == "array" and L.GetArrayLength2(t): t = L.GetElementType(t)
            else: return None
        return None

    def memcopy(self, d, s, n):
        dt, st = self.typed_ptr_hint(d), self.typed_ptr_hint(s)
        for h in (dt, st):
            t = self.sub_type_of_size(h, n)
            if t is not None and self.kind(t) != "void" and n > 0:
                ct = self.ty(t)
                return ["*(%s*)%s = *(%s*)%s;" % (ct, self.val(d), ct, self.val(s))]
        if n == 0: return []
        if n <= 512:
            out = ["{ "]; off = 0; lo = []; st_ = []
            j = 0
            while off < n:
                for w in (8, 4, 2, 1):
                    if n - off >= w: break
                lo.append("u%d m%d = *(u%d*)(%s + %d);" % (w * 8, j, w * 8, self.val(s), off))
                st_.append("*(u%d*)(%s + %d) = m%d;" % (w * 8, self.val(d), off, j))
                off += w; j += 1
            return ["{ " + " ".join(lo) + " " + " ".join(st_) + " }"]
        return ["M_memcpy(%s, %s, %d);" % (self.val(d), self.val(s), n)]

    def typed_move(self, b, A):
        """a copy of (number of elements * constant element size) bytes, element by element when the element type is named in the options"""
        n = A[2]
        if L.GetValueKind(n) != 24: return None
        op = OP.get(L.GetInstructionOpcode(n)); sz = k = None
        if op in ("mul", "shl"):
            c = L.GetOperand(n, 1); x = L.GetOperand(n, 0)
            if op == "mul" and L.GetValueKind(x) == 18: c, x = x, c
            if L.GetValueKind(c) == 18: sz = L.ConstIntGetZExtValue(c); sz = 1 << sz if op == "shl" else sz; k = self.val(x)
        else:  # a pointer difference that is also divided by the element size
            u = L.GetFirstUse(n)
            while u:
                y = L.GetUser(u)
                if OP.get(L.GetInstructionOpcode(y)) == "sdiv" and L.GetOperand(y, 0) == n and L.GetValueKind(L.GetOperand(y, 1)) == 18:
                    sz = L.ConstIntGetZExtValue(L.GetOperand(y, 1)); k = "((u64)(%s) / %d)" % (self.val(n), sz); break
                u = L.GetNextUse(u)
        if not sz: return None
        for tn in self.opts.get("memtypes", []):
            t = L.GetTypeByName2(L.GetModuleContext(self.mod), tn.encode())
            if not t or self.size(t) != sz: continue
            ct = self.ty(t); d, s = self.val(A[0]), self.val(A[1])
            if b == "memcpy": return ["{ for (u64 q = 0; q < %s; ++q) ((%s*)%s)[q] = ((%s*)%s)[q]; }" % (k, ct, d, ct, s)]
            return ["{ if ((u64)%s <= (u64)%s) for (u64 q = 0; q < %s; ++q) ((%s*)%s)[q] = ((%s*)%s)[q]; else for (u64 q = %s; q > 0; --q) ((%s*)%s)[q-1] = ((%s*)%s)[q-1]; }" % (d, s, k, ct, d, ct, s, k, ct, d, ct, s)]
        if sz % 8 == 0 and self.opts.get("memwords"):
            return ["M_%s_w(%s, %s, (u64)%s * %d);" % (b, self.val(A[0]), self.val(A[1]), k, sz // 8)]
        return None

    def const_str(self, v):
        if L.GetValueKind(v) == 8:
            init = L.GetInitializer(v)
            if init and L.GetValueKind(init) == 16:
                n = ctypes.c_size_t(); p = L.GetAsString(init, ctypes.byref(n))
                return ctypes.string_at(p, n.value).rstrip(b"\0").decode(errors="replace")
            if init and L.GetValueKind(init) == 15: return ""
        return None

    def inst(self, f, b, i, op, bbn, insts, decls, cuts):
        V = self.val; t = L.TypeOf(i); nops = L.GetNumOperands(i)
        o = lambda k: L.GetOperand(i, k)
        R = lambda e: ["%s = %s;" % (self.vn(i), e)]
        if op == "ret":
            return ["return %s;" % V(o(0)) if nops else "return;"]
        if op == "br":
            if L.IsConditional(i):
                a, c = L.GetSuccessor(i, 0), L.GetSuccessor(i, 1)
                return ["if (%s) { %s } else { %s }" % (V(L.GetCondition(i)), " ".join(self.edge(b, a, bbn, insts, cuts)), " ".join(self.edge(b, c, bbn, insts, cuts)))]
            return self.edge(b, L.GetSuccessor(i, 0), bbn, insts, cuts)
        if op == "switch":
            out = []
            c = V(o(0))
            for k in range(1, L.GetNumSuccessors(i)):
                out.append("if (%s == %s) { %s }" % (c, V(o(2 * k)), " ".join(self.edge(b, L.GetSuccessor(i, k), bbn, insts, cuts))))
            return out + self.edge(b, L.GetSuccessor(i, 0), bbn, insts, cuts)
        if op == "unreachable":
            return ['__CPROVER_assert(0, "VF-UNREACHABLE: unreachable/UB point in %s");' % cid(L.value_name(f)), "__CPROVER_assume(0);"]
        if op in ("add", "sub", "mul", "and", "or", "xor", "udiv", "urem", "shl", "lshr"):
            if self.kind(t) == "vector": raise Unsupported("vector " + op)
            c = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "udiv": "/", "urem": "%", "shl": "<<", "lshr": ">>"}[op]
            w = self.width(t); ct = self.ty(t)
            if w == 1:
                if op in ("add", "sub"): c = "^"
                elif op == "mul": c = "&"
            return R("(%s)(%s %s %s)" % (ct, V(o(0)), c, V(o(1))))
        if op in ("sdiv", "srem"):
            w = self.width(t)
            return R("(%s)(%s %s %s)" % (self.ty(t), self.sval(o(0)), "/" if op == "sdiv" else "%", self.sval(o(1))))
        if op == "ashr":
            return R("(%s)(%s >> %s)" % (self.ty(t), self.sval(o(0)), V(o(1))))
        if op in ("fadd", "fsub", "fmul", "fdiv") and op in self.opts.get("ufp", []) and self.kind(t) == "double":
            return R("VF_uf_%s(%s, %s)" % (op, V(o(0)), V(o(1))))
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return R("%s %s %s" % (V(o(0)), {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op], V(o(1))))
        if op == "fneg": return R("-%s" % V(o(0)))
        if op == "alloca":
            at = L.GetAllocatedType(i); n = o(0)
            ct = self.ty(at)
            sn = "a_" + self.vn(i)
            if L.GetValueKind(n) == 18 and L.ConstIntGetZExtValue(n) == 1:
                decls.append("  %s %s; ptr %s = (ptr)&%s;" % (ct, sn, self.vn(i), sn)); return []
            decls.append("  ptr %s;" % self.vn(i))
            return R("(ptr)__builtin_alloca(sizeof(%s) * %s)" % (ct, V(n)))
        if op == "load": return R("*(%s*)%s" % (self.ty(t), V(o(0))))
        if op == "store": return ["*(%s*)%s = %s;" % (self.ty(L.TypeOf(o(0))), V(o(1)), V(o(0)))]
        if op == "gep": return R(self.gep(i, V))
        if op == "trunc":
            w = self.width(t)
            if w == 1: return R("(u1)(%s & 1)" % V(o(0)))
            return R("(%s)%s" % (self.ty(t), V(o(0))))
        if op == "zext": return R("(%s)%s" % (self.ty(t), V(o(0))))
        if op == "sext":
            if self.width(L.TypeOf(o(0))) == 1: return R("(%s)(%s ? -1 : 0)" % (self.ty(t), V(o(0))))
            return R("(%s)(%s)%s" % (self.ty(t), self.sty(self.width(t)), self.sval(o(0))))
        if op in ("fptoui",): return R("(%s)%s" % (self.ty(t), V(o(0))))
        if op == "fptosi": return R("(%s)(%s)%s" % (self.ty(t), self.sty(self.width(t)), V(o(0))))
        if op == "uitofp": return R("(%s)%s" % (self.ty(t), V(o(0))))
        if op == "sitofp": return R("(%s)%s" % (self.ty(t), self.sval(o(0))))
        if op in ("fptrunc", "fpext"): return R("(%s)%s" % (self.ty(t), V(o(0))))
        if op == "ptrtoint": return R("(%s)(u64)%s" % (self.ty(t), V(o(0))))
        if op == "inttoptr": return R("(ptr)(u64)%s" % V(o(0)))
        if op in ("bitcast",):
            a, c = self.ty(L.TypeOf(o(0))), self.ty(t)
            if a == c: return R(V(o(0)))
            return ["{ %s bc = %s; %s = *(%s*)&bc; }" % (a, V(o(0)), self.vn(i), c)]
        if op == "freeze": return R(V(o(0)))
        if op == "icmp": return R(self.icmp(ICMP[L.GetICmpPredicate(i)], o(0), o(1)))
        if op == "fcmp":
            p = L.GetFCmpPredicate(i); a, c = V(o(0)), V(o(1))
            uno = "(%s != %s || %s != %s)" % (a, a, c, c)
            m = {1: "==", 2: ">", 3: ">=", 4: "<", 5: "<="}
            if p == 0: e = "0"
            elif p == 15: e = "1"
            elif p in m: e = "%s %s %s" % (a, m[p], c)
            elif p == 6: e = "!%s && %s != %s" % (uno, a, c)
            elif p == 7: e = "!%s" % uno
            elif p == 8: e = uno
            elif p == 9: e = "%s || %s == %s" % (uno, a, c)
            elif p in (10, 11, 12, 13): e = "%s || %s %s %s" % (uno, a, m[p - 8], c)
            elif p == 14: e = "%s || %s != %s" % (uno, a, c)
            return R("(u1)(%s)" % e)
        if op == "select":
            return R("%s ? %s : %s" % (V(o(0)), V(o(1)), V(o(2))))
        if op in ("extractvalue", "insertvalue"):
            n = L.GetNumIndices(i); ip = ctypes.cast(L.GetIndices(i), ctypes.POINTER(ctypes.c_uint))
            ix = [ip[k] for k in range(n)]
            path = ""; tt = L.TypeOf(o(0))
            for k in ix:
                if self.kind(tt) == "struct": path += ".f%d" % k; tt = L.StructGetTypeAtIndex(tt, k)
                else: path += ".a[%d]" % k; tt = L.GetElementType(tt)
            if op == "extractvalue":
                if L.GetValueKind(o(0)) in (14, 25): return R(self.nd(self.ty(t)))
                return R("%s%s" % (V(o(0)), path))
            out = []
            if L.GetValueKind(o(0)) not in (14, 25): out += R(V(o(0)))
            return out + ["%s%s = %s;" % (self.vn(i), path, V(o(1)))]
        if op == "fence": return []
        if op == "atomicrmw":
            k = L.GetAtomicRMWBinOp(i); ct = self.ty(t); p = "*(%s*)%s" % (ct, V(o(0))); x = V(o(1))
            e = {0: x, 1: "%s + %s" % (self.vn(i), x), 2: "%s - %s" % (self.vn(i), x), 3: "%s & %s" % (self.vn(i), x),
                 5: "%s | %s" % (self.vn(i), x), 6: "%s ^ %s" % (self.vn(i), x)}.get(k)
            if e is None: raise Unsupported("atomicrmw %d" % k)
            return ["%s = %s; %s = (%s)(%s);" % (self.vn(i), p, p, ct, e)]
        if op == "cmpxchg":
            ct = self.ty(L.TypeOf(o(1))); p = "*(%s*)%s" % (ct, V(o(0))); r = self.vn(i)
            return ["%s.f0 = %s; %s.f1 = (u1)(%s.f0 == %s); if (%s.f1) %s = %s;" % (r, p, r, r, V(o(1)), r, p, V(o(2)))]
        if op == "call" or op == "invoke":
            out = self.call(f, b, i, decls)
            if op == "invoke": out += self.edge(b, L.GetSuccessor(i, 0), bbn, insts, cuts)
            return out
        if op == "landingpad" or op == "resume":
            return ["__CPROVER_assume(0);"]
        if op == "extractelement": return R("%s.a[%s]" % (V(o(0)), V(o(1))))
        if op == "insertelement":
            out = []
            if L.GetValueKind(o(0)) not in (14, 25): out += R(V(o(0)))
            return out + ["%s.a[%s] = %s;" % (self.vn(i), V(o(2)), V(o(1)))]
        raise Unsupported("instruction %s" % op)

    def call(self, f, b, i, decls):
        V = self.val; t = L.TypeOf(i)
        callee = L.GetCalledValue(i); n = L.GetNumArgOperands(i)
        A = [L.GetOperand(i, k) for k in range(n)]
        res = self.kind(t) != "void"
        R = lambda e: ["%s = %s;" % (self.vn(i), e)] if res else ["%s;" % e]
        k = L.GetValueKind(callee)
        if k == 6: callee = L.AliasGetAliasee(callee); k = L.GetValueKind(callee)
        if k == 23: raise Unsupported("inline asm")
        if k != 5:
            ft = L.GetCalledFunctionType(i)
            pt = [self.ty(L.TypeOf(a)) for a in A]
            return R("((%s (*)(%s))%s)(%s)" % (self.ty(L.GetReturnType(ft)), ", ".join(pt) or "void", V(callee), ", ".join(V(a) for a in A)))
        name = L.value_name(callee)
        if name.startswith("llvm."): return self.intrinsic(name, i, A, R, decls)
        if name == "vf_assume": return ["__CPROVER_assume(%s);" % V(A[0])]
        if name in ("vf_check", "vf_reach"):
            s = self.const_str(A[-1])
            if s is None: raise Unsupported("non-constant obligation name")
            s = s.replace("\\", "/").replace('"', "'")
            if name == "vf_reach":
                self.reach_names.append(s)
                return ['__CPROVER_assert(0, "VF-REACH: %s");' % s]
            self.check_names.append(s)
            return ['__CPROVER_assert(%s, "VF: %s");' % (V(A[0]), s)]
        if name.startswith("vf_nd_"):
            return R("VF_%s(%s)" % (name[3:], ", ".join(V(a) for a in A)))
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t"):
            if "vf_model__" + name not in self.fnmap:
                h = self.typed_ptr_hint(i)
                if h is not None and L.GetValueKind(A[0]) == 18 and self.kind(h) == "struct":
                    sz = L.ConstIntGetZExtValue(A[0])
                    if self.size(h) == sz: return R("(ptr)malloc(sizeof(%s))" % self.ty(h))
                return R("(ptr)malloc(%s)" % V(A[0]))
        bi = {"_ZdlPv": "M_free", "_ZdlPvm": "M_free", "_ZdaPv": "M_free", "_ZdaPvm": "M_free", "free": "M_free", "strlen": "M_strlen", "memcmp": "M_memcmp", "bcmp": "M_memcmp",
              "strcmp": "M_strcmp", "strncmp": "M_strncmp", "memchr": "M_memchr", "strchr": "M_strchr", "strstr": "M_strstr", "strncpy": "M_strncpy",
              "memcpy": "M_memcpy", "memmove": "M_memmove", "memset": "M_memset", "ffs": "M_ffs", "abort": "M_abort", "realloc": "M_realloc", "calloc": "M_calloc",
              "tolower": "M_tolower", "toupper": "M_toupper", "isspace": "M_isspace", "isdigit": "M_isdigit", "isalpha": "M_isalpha", "isalnum": "M_isalnum", "ispunct": "M_ispunct", "isprint": "M_isprint",
              "__cxa_atexit": "M_ignore3", "__cxa_guard_acquire": "M_guard_acquire", "__cxa_guard_release": "M_ignore1", "strcpy": "M_strcpy", "strrchr": "M_strrchr", "__ctype_b_loc": "M_ctype_b_loc"}.get(name)
        if bi and ("vf_model__" + name) not in self.fnmap and L.IsDeclaration(callee):
            args = ", ".join(V(a) for a in A[:1] if bi == "M_free") if bi == "M_free" else ", ".join(V(a) for a in A)
            self.models_used.add("libc:" + name)
            if res: return ["%s = (%s)%s(%s);" % (self.vn(i), self.ty(t), bi, args)]
            return ["%s(%s);" % (bi, args)]
        fn = self.fref(callee)
        return R("%s(%s)" % (fn, ", ".join(V(a) for a in A)))

    def intrinsic(self, name, i, A, R, decls):
        V = self.val; t = L.TypeOf(i)
        for s in SKIP_INTR:
            if name.startswith(s): return []
        b = name.split(".")[1]
        if b in ("memcpy", "memmove"):
            if L.GetValueKind(A[2]) == 18: return self.memcopy(A[0], A[1], L.ConstIntGetZExtValue(A[2]))
            tl = self.typed_move(b, A)
            if tl: return tl
            return ["M_%s(%s, %s, %s);" % (b, V(A[0]), V(A[1]), V(A[2]))]
        if b == "memset":
            if L.GetValueKind(A[2]) == 18:
                n = L.ConstIntGetZExtValue(A[2]); h = self.sub_type_of_size(self.typed_ptr_hint(A[0]), n)
                if h is not None and L.GetValueKind(A[1]) == 18 and L.ConstIntGetZExtValue(A[1]) == 0 and self.kind(h) in ("struct", "array"):
                    return ["{ %s zz = %s; *(%s*)%s = zz; }" % (self.ty(h), self.zero(h), self.ty(h), V(A[0]))]
                if n <= 256 and n % 8 == 0 and L.GetValueKind(A[1]) == 18:
                    c = L.ConstIntGetZExtValue(A[1]) & 255; w = int.from_bytes(bytes([c] * 8), "little")
                    return [" ".join("*(u64*)(%s + %d) = %dULL;" % (V(A[0]), k, w) for k in range(0, n, 8))]
            return ["M_memset(%s, %s, %s);" % (V(A[0]), V(A[1]), V(A[2]))]
        if b in ("expect", "launder", "strip", "threadlocal", "ssa"): return R(V(A[0]))
        if b in ("umin", "umax", "smin", "smax"):
            c = "<" if b.endswith("min") else ">"
            a, d = (V(A[0]), V(A[1])) if b[0] == "u" else (self.sval(A[0]), self.sval(A[1]))
            return R("(%s %s %s) ? %s : %s" % (a, c, d, V(A[0]), V(A[1])))
        if b == "abs":
            w = self.width(t); return R("(%s < 0) ? (%s)(0 - %s) : %s" % (self.sval(A[0]), self.ty(t), V(A[0]), V(A[0])))
        if b in ("uadd", "usub", "umul", "sadd", "ssub", "smul") and ".with.overflow" in name:
            w = self.width(L.TypeOf(A[0])); ct = self.intty(w)
            wide = self.sty(2 * w) if b[0] == "s" else self.intty(2 * w)
            if 2 * w > 128: wide = ("signed" if b[0] == "s" else "unsigned") + " __CPROVER_bitvector[%d]" % (2 * w)
            c = {"add": "+", "sub": "-", "mul": "*"}[b[1:]]
            a, d = (self.sval(A[0]), self.sval(A[1])) if b[0] == "s" else (V(A[0]), V(A[1]))
            cast = self.sty(w) if b[0] == "s" else ct
            return ["{ %s ww = (%s)%s %s (%s)%s; %s.f0 = (%s)ww; %s.f1 = (u1)(ww != (%s)(%s)ww); }" % (wide, wide, a, c, wide, d, self.vn(i), ct, self.vn(i), wide, cast)]
        if b in ("uadd", "usub") and ".sat" in name:
            if b == "usub": return R("(%s > %s) ? (%s)(%s - %s) : 0" % (V(A[0]), V(A[1]), self.ty(t), V(A[0]), V(A[1])))
            return R("((%s)(%s + %s) < %s) ? (%s)-1 : (%s)(%s + %s)" % (self.ty(t), V(A[0]), V(A[1]), V(A[0]), self.ty(t), self.ty(t), V(A[0]), V(A[1])))
        if b in ("ctlz", "cttz", "ctpop"):
            w = self.width(t)
            return R("(%s)M_%s(%s, %d)" % (self.ty(t), b, V(A[0]), w))
        if b == "bswap": return R("__builtin_bswap%d(%s)" % (self.width(t), V(A[0])))
        if b in ("fshl", "fshr"):
            w = self.width(t); s = "(%s %% %d)" % (V(A[2]), w)
            if b == "fshl": return R("(%s)(%s ? ((%s << %s) | (%s >> (%d - %s))) : %s)" % (self.ty(t), s, V(A[0]), s, V(A[1]), w, s, V(A[0])))
            return R("(%s)(%s ? ((%s << (%d - %s)) | (%s >> %s)) : %s)" % (self.ty(t), s, V(A[0]), w, s, V(A[1]), s, V(A[1])))
        if b == "fabs": return R("M_fabs(%s)" % V(A[0]))
        # the build targets x86-64 without FMA: a multiply and an add
        if b == "fmuladd" and "fmul" in self.opts.get("ufp", []) and "fadd" in self.opts.get("ufp", []) and self.kind(t) == "double": return R("VF_uf_fadd(VF_uf_fmul(%s, %s), %s)" % (V(A[0]), V(A[1]), V(A[2])))
        if b == "fmuladd": return R("%s * %s + %s" % (V(A[0]), V(A[1]), V(A[2])))
        if b in ("floor", "ceil", "sqrt", "round", "trunc", "rint"): return R("M_%s(%s)" % (b, V(A[0])))
        if b in ("minnum", "maxnum"): return R("(%s %s %s) ? %s : %s" % (V(A[0]), "<" if b == "minnum" else ">", V(A[1]), V(A[0]), V(A[1])))
        if b in ("trap", "ubsantrap", "debugtrap"):
            return ['__CPROVER_assert(0, "VF-UB: undefined behaviour (sanitizer trap) in %s"); __CPROVER_assume(0);' % "function"]
        if b == "objectsize": return R("(%s)-1" % self.ty(t))
        if b == "is" : return R("0")
        if b == "stacksave": return R("(ptr)0")
        if b == "eh": return R("0")
        raise Unsupported("intrinsic " + name)

    # ---------- driver
    def run(self):
        for e in self.entries:
            if e not in self.fnmap: raise Unsupported("entry %s not found" % e)
            self.fref(self.fnmap[e])
        allow_missing = []
        while self.work:
            f = self.work.pop(); n = L.value_name(f)
            if L.IsDeclaration(f):
                # no body: reaching it is an explicit "tool limit", never silent
                self.externs.add(n)
                ft = L.GlobalGetValueType(f); rt = self.ty(L.GetReturnType(ft))
                body = '  __CPROVER_assert(0, "VF-UNSUPPORTED: unmodelled external %s"); __CPROVER_assume(0);\n' % n
                if rt != "void": body += "  return %s;\n" % self.nd(rt)
                self.funcs_out.append(self.fproto(f) + "\n{\n" + body + "}\n")
                self.protos[n] = self.fproto(f) + ";"
                continue
            self.protos[n] = self.fproto(f) + ";"
            try:
                self.emit_function(f)
            except Unsupported as e:
                self.unsupported.append("%s: %s" % (n, e))
                ft = L.GlobalGetValueType(f); rt = self.ty(L.GetReturnType(ft))
                body = '  __CPROVER_assert(0, "VF-UNSUPPORTED: %s"); __CPROVER_assume(0);\n' % str(e).replace('"', "'").replace("\\", "/")[:100]
                if rt != "void": body += "  return %s;\n" % self.nd(rt)
                self.funcs_out.append(self.fproto(f) + "\n{\n" + body + "}\n")
        # global initializers (may reference more functions)
        ginit = []
        done = 0
        while done < len(self.globals_out) or self.work:
            while done < len(self.globals_out):
                n, ct, init = self.globals_out[done]; done += 1
                try: txt = self.const(init, True)
                except Unsupported as e:
                    self.unsupported.append("%s: %s" % (n, e)); txt = None
                ginit.append("%s %s%s;" % (ct, n, "" if txt is None else " = " + txt))
            if self.work:
                w = self.work; self.work = []
                for f in w:
                    self.work = [f]
                    self._drain()
        out = [open(__file__.replace("ir2c.py", "prelude.h")).read()]
        out += self.typedefs
        out += ["%s %s(void);" % (ct, n) for n, ct in sorted(self.nondet.items())]
        out += [d for d in self.gdecl.values()]
        out += list(self.protos.values())
        out += ginit
        out += self.funcs_out
        return "\n".join(out) + "\n"
    def _drain(self):
        while self.work:
            f = self.work.pop(); n = L.value_name(f)
            self.protos[n] = self.fproto(f) + ";"
            if L.IsDeclaration(f):
                self.externs.add(n)
                rt = self.ty(L.GetReturnType(L.GlobalGetValueType(f)))
                body = '  __CPROVER_assert(0, "VF-UNSUPPORTED: unmodelled external %s"); __CPROVER_assume(0);\n' % n
                if rt != "void": body += "  return %s;\n" % self.nd(rt)
                self.funcs_out.append(self.fproto(f) + "\n{\n" + body + "}\n")
            else:
                try: self.emit_function(f)
                except Unsupported as e:
                    self.unsupported.append("%s: %s" % (n, e))
                    rt = self.ty(L.GetReturnType(L.GlobalGetValueType(f)))
                    body = '  __CPROVER_assert(0, "VF-UNSUPPORTED: translation"); __CPROVER_assume(0);\n'
                    if rt != "void": body += "  return %s;\n" % self.nd(rt)
                    self.funcs_out.append(self.fproto(f) + "\n{\n" + body + "}\n")

def loop_layout(bbs):
    """Order blocks so that every loop's blocks are contiguous with a single backward jump at their end
    (cbmc then unwinds properly nested loops): [("b", block) | ("latch", header)], {header: members}."""
    loops = natural_loops(bbs)
    if not loops: return [("b", b) for b in bbs], {}
    idx = {b: i for i, b in enumerate(bbs)}; members = dict(loops); succ = {}
    for b in bbs:
        i = L.GetFirstInstruction(b); last = None
        while i: last = i; i = L.GetNextInstruction(i)
        succ[b] = [L.GetSuccessor(last, k) for k in range(L.GetNumSuccessors(last))]
    hs = [h for h, _ in loops]
    for h in hs:                       # irreducible or overlapping: keep the compiler's order
        for g in hs:
            if h != g and members[h] & members[g] and not (members[h] < members[g] or members[g] < members[h]): return [("b", b) for b in bbs], {}
    def region(entry, blocks, own):
        """topological order of blocks with the loops directly inside collapsed"""
        inner = [h for h in hs if h != own and h in blocks and members[h] <= blocks and (own is None or members[h] < members[own])]
        top = [h for h in inner if not any(h != g and members[h] < members[g] for g in inner)]
        rep = {}
        for h in top:
            for b in members[h]: rep[b] = h
        r = lambda b: rep.get(b, b)
        out = {}
        for b in blocks:
            for t in succ[b]:
                if t in blocks and t != own and r(t) != r(b): out.setdefault(r(b), []).append(r(t))
        post = []; seen = set()
        def dfs(root):
            st = [(root, iter(sorted(set(out.get(root, [])), key=lambda x: -idx[x])))]; seen.add(root)
            while st:
                n, it = st[-1]
                for t in it:
                    if t not in seen: seen.add(t); st.append((t, iter(sorted(set(out.get(t, [])), key=lambda x: -idx[x])))); break
                else: post.append(n); st.pop()
        dfs(r(entry))
        res = []
        for n in reversed(post):
            if n in members and n in top: res += region_loop(n)
            else: res.append(("b", n))
        return res
    def region_loop(h): return region(h, members[h], h) + [("latch", h)]
    def whole():
        blocks = set(bbs)
        return region(bbs[0], blocks, None)
    order = whole()
    got = {b for k, b in order if k == "b"}
    order += [("b", b) for b in bbs if b not in got]
    return order, members

def natural_loops(bbs):
    """natural loops in program (layout) order of their headers: [(header, set(blocks))]"""
    idx = {b: i for i, b in enumerate(bbs)}
    succ = {}
    for b in bbs:
        i = L.GetFirstInstruction(b); last = None
        while i: last = i; i = L.GetNextInstruction(i)
        succ[b] = [L.GetSuccessor(last, k) for k in range(L.GetNumSuccessors(last))]
    pred = {b: [] for b in bbs}
    for b in bbs:
        for s in succ[b]: pred[s].append(b)
    dom = {b: set(bbs) for b in bbs}; dom[bbs[0]] = {bbs[0]}
    ch = True
    while ch:
        ch = False
        for b in bbs[1:]:
            ps = [dom[p] for p in pred[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    loops = {}
    for b in bbs:
        for s in succ[b]:
            if s in dom[b]:
                body = {s, b}; st = [b] if b != s else []
                while st:
                    x = st.pop()
                    for p in pred[x]:
                        if p not in body: body.add(p); st.append(p)
                loops.setdefault(s, set()).update(body)
    return sorted(loops.items(), key=lambda x: idx[x[0]])

def main():
    src, out, entry = sys.argv[1:4]
    opts = json.load(open(sys.argv[4])) if len(sys.argv) > 4 else {}
    tr = Trans(src, entry.split(","), opts)
    txt = tr.run()
    open(out, "w").write(txt)
    json.dump({"translated": tr.translated, "externs": sorted(tr.externs), "models": sorted(tr.models_used),
               "unsupported": tr.unsupported, "checks": tr.check_names, "reach": tr.reach_names,
               "cuts": tr.cuts_applied, "cut_errors": tr.cut_errors}, open(out + ".json", "w"), indent=1)
if __name__ == "__main__":
    main()
