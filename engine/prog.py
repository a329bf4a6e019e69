"""LLVM IR -> Python: every function of the module becomes a Python function over symbolic values."""
import re
import subprocess

import llvmc
from llvmc import L
import rtl
import runtime
from runtime import Obj, UNDEF, Unsupported, q_of_float
from poly import R

TK = dict(void=0, half=1, float=2, double=3, fp80=4, int=8, struct=10, array=11, ptr=12, vector=13)

ICMP = {32: "==", 33: "!=", 34: ">", 35: ">=", 36: "<", 37: "<=", 38: ">", 39: ">=", 40: "<", 41: "<="}


class Program:
    def __init__(self, path):
        self.path = path
        self.mod = llvmc.load(path)
        self.td = L.LLVMGetModuleDataLayout(self.mod)
        self.gaddr = {}            # value -> address
        self.global_templates = {}  # object id -> Obj
        self.funcs = {}            # name -> llvm function value
        self.func_at = {}          # address -> name
        self.consts = {}
        self.ns = {}
        self.compiled = {}
        self.called_ext = set()
        self.executed = set()
        self._layout()
        self.ctors = self._ctors()

    def _ctors(self):
        g = None
        for x in self.global_init_todo:
            if llvmc.name(x) == "llvm.global_ctors":
                g = x
        if g is None:
            return []
        c = L.LLVMGetInitializer(g)
        out = []
        for i in range(L.LLVMGetNumOperands(c)):
            e = L.LLVMGetOperand(c, i)
            out.append((self.const_val(L.LLVMGetOperand(e, 0)), llvmc.name(L.LLVMGetOperand(e, 1))))
        return [n for _, n in sorted(out, key=lambda x: x[0])]

    # -------------------------------------------------------------- layout
    def _layout(self):
        nid = 16
        for f in llvmc.functions(self.mod):
            n = llvmc.name(f)
            self.funcs[n] = f
            self.gaddr[f] = nid << 32
            self.func_at[nid << 32] = n
            self.global_templates[nid] = Obj(1, {}, "function", n)
            nid += 1
        gs = list(llvmc.globals_(self.mod))
        self.globals = {}
        for g in gs:
            self.gaddr[g] = nid << 32
            self.globals[llvmc.name(g)] = nid << 32
            nid += 1
        for a in llvmc.aliases(self.mod):
            self.gaddr[a] = self.const_val(L.LLVMAliasGetAliasee(a))
        self.first_free_id = nid + 16
        self.global_init_todo = gs
        for g in gs:
            i = self.gaddr[g] >> 32
            ty = L.LLVMGlobalGetValueType(g)
            decl = L.LLVMIsDeclaration(g)
            size = L.LLVMABISizeOfType(self.td, ty) if self.sized(ty) else 8
            o = Obj(max(size, 4096 if decl else 1), {}, "extern" if decl else "global", llvmc.name(g))
            self.global_templates[i] = o
            if not decl:
                try:
                    self.init_cells(o.cells, 0, L.LLVMGetInitializer(g))
                except Unsupported as e:
                    o.name += " [initializer: %s]" % e

    def sized(self, ty):
        k = L.LLVMGetTypeKind(ty)
        if k == TK["struct"]:
            return True
        return k not in (0, 9)

    def init_cells(self, cells, off, c):
        k = L.LLVMGetValueKind(c)
        ty = L.LLVMTypeOf(c)
        tk = L.LLVMGetTypeKind(ty)
        if k in (14, 25):
            return
        if k in (15, 20) or (k == 15):
            n = L.LLVMStoreSizeOfType(self.td, ty)
            if tk == TK["ptr"]:
                cells[off] = (8, 0)
                return
            if n > 1 << 16:
                raise Unsupported("huge zero initializer")
            o = 0
            while n - o >= 8:
                cells[off + o] = (8, 0)
                o += 8
            while o < n:
                cells[off + o] = (1, 0)
                o += 1
            return
        if k in (11, 16):
            n = L.LLVMGetArrayLength2(ty)
            es = L.LLVMABISizeOfType(self.td, L.LLVMGetElementType(ty))
            for i in range(n):
                e = L.LLVMGetElementAsConstant(c, i) if k == 16 else L.LLVMGetOperand(c, i)
                self.init_cells(cells, off + i * es, e)
            return
        if k == 12:
            for i in range(L.LLVMCountStructElementTypes(ty)):
                self.init_cells(cells, off + L.LLVMOffsetOfElement(self.td, ty, i), L.LLVMGetOperand(c, i))
            return
        v = self.const_val(c)
        cells[off] = (L.LLVMStoreSizeOfType(self.td, ty), v)

    def const_val(self, c):
        """constant -> Python value"""
        k = L.LLVMGetValueKind(c)
        if k == 18:
            ty = L.LLVMTypeOf(c)
            w = L.LLVMGetIntTypeWidth(ty)
            if w > 64:
                m = re.search(r"i\d+ (-?\d+)$", L.LLVMPrintValueToString(c).decode())
                return int(m.group(1)) & ((1 << w) - 1)
            return L.LLVMConstIntGetZExtValue(c) & ((1 << w) - 1)
        if k == 19:
            import ctypes
            lost = ctypes.c_int()
            f = L.LLVMConstRealGetDouble(c, ctypes.byref(lost))
            if f != f or f in (float("inf"), float("-inf")):
                return f
            return R.const(q_of_float(f))
        if k == 20:
            return 0
        if k in (5, 8, 6):
            return self.gaddr[c]
        if k in (14, 25):
            return self.undef_of(L.LLVMTypeOf(c))
        if k == 15:
            return self.zero_of(L.LLVMTypeOf(c))
        if k in (11, 12):
            return tuple(self.const_val(L.LLVMGetOperand(c, i)) for i in range(L.LLVMGetNumOperands(c)))
        if k == 16:
            n = L.LLVMGetArrayLength2(L.LLVMTypeOf(c))
            return tuple(self.const_val(L.LLVMGetElementAsConstant(c, i)) for i in range(n))
        if k == 10:
            op = L.LLVMGetConstOpcode(c)
            ops = [self.const_val(L.LLVMGetOperand(c, i)) for i in range(L.LLVMGetNumOperands(c))]
            if op == 29:
                base, terms = self.gep_parts(c)
                v = ops[0] + base
                for (idx, scale), in zip(terms):
                    raise Unsupported("constant gep with non-constant index")
                return v & ((1 << 64) - 1)
            if op in (39, 40, 41, 60):
                return ops[0]
            if op == 30:
                return ops[0] & ((1 << L.LLVMGetIntTypeWidth(L.LLVMTypeOf(c))) - 1)
            if op == 10:
                return (ops[0] - ops[1]) & ((1 << 64) - 1)
            if op == 8:
                return (ops[0] + ops[1]) & ((1 << 64) - 1)
            raise Unsupported("constant expression opcode %d" % op)
        if k == 22:
            return None
        raise Unsupported("constant kind %d" % k)

    def undef_of(self, ty):
        k = L.LLVMGetTypeKind(ty)
        if k == TK["struct"]:
            return tuple(self.undef_of(L.LLVMStructGetTypeAtIndex(ty, i)) for i in range(L.LLVMCountStructElementTypes(ty)))
        if k == TK["array"]:
            return tuple(self.undef_of(L.LLVMGetElementType(ty)) for i in range(L.LLVMGetArrayLength2(ty)))
        if k == TK["vector"]:
            return tuple(self.undef_of(L.LLVMGetElementType(ty)) for i in range(L.LLVMGetVectorSize(ty)))
        return UNDEF

    def zero_of(self, ty):
        k = L.LLVMGetTypeKind(ty)
        if k == TK["struct"]:
            return tuple(self.zero_of(L.LLVMStructGetTypeAtIndex(ty, i)) for i in range(L.LLVMCountStructElementTypes(ty)))
        if k == TK["array"]:
            return tuple(self.zero_of(L.LLVMGetElementType(ty)) for i in range(L.LLVMGetArrayLength2(ty)))
        if k in (2, 3):
            return R.const(0)
        return 0

    def gep_parts(self, v):
        """(constant byte offset, [(index operand, scale)])"""
        n = L.LLVMGetNumOperands(v)
        ty = L.LLVMGetGEPSourceElementType(v)
        off = 0
        terms = []
        for i in range(1, n):
            idx = L.LLVMGetOperand(v, i)
            isc = L.LLVMGetValueKind(idx) == 18
            if i == 1:
                scale = L.LLVMABISizeOfType(self.td, ty)
            else:
                k = L.LLVMGetTypeKind(ty)
                if k == TK["struct"]:
                    c = self.const_val(idx)
                    off += L.LLVMOffsetOfElement(self.td, ty, c)
                    ty = L.LLVMStructGetTypeAtIndex(ty, c)
                    continue
                ty = L.LLVMGetElementType(ty)
                scale = L.LLVMABISizeOfType(self.td, ty)
            if isc:
                w = L.LLVMGetIntTypeWidth(L.LLVMTypeOf(idx))
                c = self.const_val(idx)
                if c >> (w - 1):
                    c -= 1 << w
                off += c * scale
            else:
                terms.append((idx, scale))
        return off, terms

    # -------------------------------------------------------------- code generation
    def function(self, name):
        f = self.compiled.get(name)
        if f is None:
            f = self.compiled[name] = self.compile(name)
        return f

    def compile_all(self, roots):
        """compile everything reachable (so that forked workers share it)"""
        todo = list(roots)
        seen = set()
        while todo:
            n = todo.pop()
            if n in seen or n not in self.funcs:
                continue
            seen.add(n)
            if L.LLVMIsDeclaration(self.funcs[n]):
                continue
            self.function(n)
        # the rest lazily
        return seen

    def compile(self, name):
        f = self.funcs[name]
        deep = set()
        while True:
            try:
                src = FuncGen(self, f, name, deep).generate()
                break
            except TooDeep as e:
                deep.add(e.args[0])
        self.ns_setup()
        code = compile(src, "<%s>" % name, "exec")
        exec(code, self.ns)
        return self.ns["F_%d" % (self.gaddr[f] >> 32)]

    def ns_setup(self):
        if self.ns:
            return
        for k in dir(rtl):
            if not k.startswith("__"):
                self.ns[k] = getattr(rtl, k)
        self.ns["RT"] = rtl
        self.ns["PROG"] = self
        self.ns["UNDEF"] = UNDEF

    def const_name(self, v):
        """name of a pooled constant object in the generated namespace"""
        if isinstance(v, R):
            k = ("R", v.key())
        elif type(v) is float:
            k = ("f", repr(v))
        elif type(v) is tuple:
            return "(" + "".join(self.const_name(x) + "," for x in v) + ")"
        elif type(v) is int:
            return str(v)
        elif v is UNDEF:
            return "UNDEF"
        elif v is None:
            return "None"
        else:
            raise Unsupported("constant %r" % (v,))
        n = self.consts.get(k)
        if n is None:
            n = self.consts[k] = "k%d" % len(self.consts)
            self.ns_setup()
            self.ns[n] = v
        return n

    def call_addr(self, addr):
        """callable for a function pointer value"""
        if type(addr) is not int:
            if addr is UNDEF:
                raise runtime.Abort("uninit", "call through an uninitialised pointer")
            raise Unsupported("symbolic function pointer")
        n = self.func_at.get(addr)
        if n is None:
            raise runtime.Abort("memory", "call through an invalid function pointer")
        return self.resolve(n)

    def resolve(self, n):
        import models
        h = models.override(n)
        if h is not None:
            return h
        f = self.funcs.get(n)
        if f is not None and not L.LLVMIsDeclaration(f):
            return self.function(n)
        return models.external(n)


class TooDeep(Exception):
    pass


class FuncGen:
    def __init__(self, prog, f, name, deep=()):
        self.deep = deep
        self.p = prog
        self.f = f
        self.name = name
        self.fid = prog.gaddr[f] >> 32
        self.names = {}
        self.lines = []
        self.bykind = L.LLVMGetEnumAttributeKindForName(b"byval", 5)

    def ty(self, v):
        return L.LLVMTypeOf(v)

    def width(self, ty):
        return 64 if L.LLVMGetTypeKind(ty) == 12 else L.LLVMGetIntTypeWidth(ty)

    def ref(self, v):
        k = L.LLVMGetValueKind(v)
        if k in (0, 24):
            n = self.names.get(v)
            if n is None:
                n = self.names[v] = "v%d" % len(self.names)
            return n
        if k == 23:
            raise Unsupported("inline asm")
        return self.p.const_name(self.p.const_val(v))

    def generate(self):
        p = self.p
        f = self.f
        blocks = list(llvmc.blocks(f))
        self.blocks = blocks
        idx = {b: i for i, b in enumerate(blocks)}
        self.idx = idx
        self.insts = {b: list(llvmc.insts(b)) for b in blocks}
        preds = {b: [] for b in blocks}
        for b in blocks:
            for s in self.succs(b):
                preds[s].append(b)
        self.preds = preds
        # blocks emitted inline into their only predecessor
        self.inline = {b for b in blocks if len(preds[b]) == 1 and b is not blocks[0] and preds[b][0] != b and b not in self.deep}
        # break cycles of single-pred blocks (unreachable loops)
        self.labels = [b for b in blocks if b not in self.inline]
        self.emitted = set()
        self.label_no = {b: i for i, b in enumerate(self.labels)}
        args = [self.ref(L.LLVMGetParam(f, i)) for i in range(L.LLVMCountParams(f))]
        out = self.lines
        out.append("def F_%d(%s*va):" % (self.fid, "".join(a + "," for a in args)))
        self.allocas = any(L.LLVMGetInstructionOpcode(i) == 26 for b in blocks for i in self.insts[b])
        for i, a in enumerate(args):
            at = L.LLVMGetEnumAttributeAtIndex(f, i + 1, self.bykind)
            if at:
                n = L.LLVMABISizeOfType(p.td, L.LLVMGetTypeAttributeValue(at))
                out.append(" _b=alloc(%d,'stack'); memcpy(_b,%s,%d); %s=_b" % (n, a, n, a))
        out.append(" S=RT.S")
        out.append(" S.prog.executed.add(%r)" % self.name)
        if self.allocas:
            out.append(" _lo=S.next_id")
        self.queue_depth = 0
        if len(self.labels) == 1 and not self.is_loop_head(self.labels[0]):
            self.emit_block(self.labels[0], 1)
        else:
            out.append(" bb=%d" % self.label_no[blocks[0]])
            out.append(" while True:")
            out.append("  S.steps+=1")
            out.append("  if S.steps>S.cfg.max_steps: raise Abort('steps','step limit')")
            self.dispatch(0, len(self.labels), 2)
        return "\n".join(out) + "\n"

    def is_loop_head(self, b):
        return len(self.preds[b]) > 0

    def dispatch(self, lo, hi, ind):
        if hi - lo == 1:
            self.emit_block(self.labels[lo], ind)
            return
        mid = (lo + hi) // 2
        self.lines.append(" " * ind + "if bb<%d:" % mid)
        self.dispatch(lo, mid, ind + 1)
        self.lines.append(" " * ind + "else:")
        self.dispatch(mid, hi, ind + 1)

    def succs(self, b):
        t = self.insts[b][-1]
        op = L.LLVMGetInstructionOpcode(t)
        if op == 5:
            return [L.LLVMGetNormalDest(t), L.LLVMGetUnwindDest(t)]
        if op in (2, 3):
            return [L.LLVMGetSuccessor(t, i) for i in range(L.LLVMGetNumSuccessors(t))]
        return []

    def goto(self, src, dst, ind):
        """code for the edge src->dst"""
        lhs, rhs = [], []
        for i in self.insts[dst]:
            if L.LLVMGetInstructionOpcode(i) != 44:
                break
            for k in range(L.LLVMCountIncoming(i)):
                if L.LLVMGetIncomingBlock(i, k) == src:
                    a, b = self.ref(i), self.ref(L.LLVMGetIncomingValue(i, k))
                    if a != b:
                        lhs.append(a)
                        rhs.append(b)
                    break
        if lhs:
            self.lines.append(" " * ind + ",".join(lhs) + "=" + ",".join(rhs))
        if dst in self.inline and dst not in self.emitted and ind < 60:
            self.emitted.add(dst)
            self.emit_block(dst, ind)
        else:
            if dst not in self.label_no:
                # inline block too deep: retried with a label of its own
                raise TooDeep(dst)
            self.lines.append(" " * ind + "bb=%d" % self.label_no[dst])
            self.lines.append(" " * ind + "continue")

    def emit_block(self, b, ind):
        for i in self.insts[b]:
            self.emit(b, i, ind)

    def sz(self, ty):
        return L.LLVMStoreSizeOfType(self.p.td, ty)

    def ops(self, i):
        return [self.ref(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumOperands(i))]

    def emit(self, b, i, ind):
        op = L.LLVMGetInstructionOpcode(i)
        o = self.lines
        sp = " " * ind
        ty = self.ty(i)
        tk = L.LLVMGetTypeKind(ty)
        if op == 44:
            return
        if tk == 13 or (op == 28 and L.LLVMGetTypeKind(self.ty(L.LLVMGetOperand(i, 0))) == 13):
            o.append(sp + "raise Unsupported('vector instruction')")
            if op in (1, 2, 3, 5, 7):
                return
            o.append(sp + "%s=UNDEF" % self.ref(i))
            return
        if op in (8, 10, 12, 20, 21, 23, 24, 25):
            a, c = self.ops(i)
            m = (1 << self.width(ty)) - 1
            w = self.width(ty)
            r = self.ref(i)
            if op == 8:
                o.append(sp + "%s=(%s+%s)&%d" % (r, a, c, m))
            elif op == 10:
                o.append(sp + "%s=(%s-%s)&%d" % (r, a, c, m))
            elif op == 12:
                o.append(sp + "%s=(%s*%s)&%d" % (r, a, c, m))
            elif op == 20:
                o.append(sp + "%s=(%s<<%s)&%d" % (r, a, c, m))
            elif op == 21:
                o.append(sp + "%s=%s>>%s" % (r, a, c))
            elif op == 23:
                o.append(sp + "%s=%s&%s" % (r, a, c))
            elif op == 24:
                o.append(sp + "%s=%s|%s" % (r, a, c))
            elif op == 25:
                o.append(sp + "%s=%s^%s" % (r, a, c))
            return
        if op in (14, 15, 17, 18, 22):
            a, c = self.ops(i)
            fn = {14: "udiv", 15: "sdiv", 17: "urem", 18: "srem", 22: "ashr"}[op]
            o.append(sp + "%s=%s(%s,%s,%d)" % (self.ref(i), fn, a, c, self.width(ty)))
            return
        if op in (9, 11, 13, 16, 19):
            a, c = self.ops(i)
            if op == 19:
                o.append(sp + "raise Unsupported('frem')")
            fn = {9: "fadd", 11: "fsub", 13: "fmul", 16: "fdiv", 19: "fdiv"}[op]
            o.append(sp + "%s=%s(%s,%s)" % (self.ref(i), fn, a, c))
            return
        if op == 66:
            o.append(sp + "%s=fneg(%s)" % (self.ref(i), self.ops(i)[0]))
            return
        if op == 26:
            n = self.p.const_val(L.LLVMGetOperand(i, 0)) if L.LLVMGetValueKind(L.LLVMGetOperand(i, 0)) == 18 else None
            es = L.LLVMABISizeOfType(self.p.td, L.LLVMGetAllocatedType(i))
            if n is None:
                o.append(sp + "%s=alloc(%s*%d,'stack')" % (self.ref(i), self.ops(i)[0], es))
            else:
                o.append(sp + "%s=alloc(%d,'stack')" % (self.ref(i), n * es))
            return
        if op == 27:
            a = self.ops(i)[0]
            o.append(sp + "%s=%s" % (self.ref(i), self.load_expr(a, ty)))
            return
        if op == 28:
            v, a = self.ops(i)
            vt = self.ty(L.LLVMGetOperand(i, 0))
            k = L.LLVMGetTypeKind(vt)
            if k in (TK["struct"], TK["array"]):
                o.append(sp + "st_agg(%s,%r,flat(%s))" % (a, self.layout(vt), v))
            else:
                o.append(sp + "st(%s,%d,%s)" % (a, self.sz(vt), v))
            return
        if op == 29:
            base = self.ref(L.LLVMGetOperand(i, 0))
            off, terms = self.p.gep_parts(i)
            e = base
            for idx, scale in terms:
                w = self.width(self.ty(idx))
                x = self.ref(idx)
                if w < 64:
                    x = "SX(%s,%d,64)" % (x, w)
                e += "+%s*%d" % (x, scale) if scale != 1 else "+" + x
            if off:
                e += "+%d" % off if off > 0 else "%d" % off
            o.append(sp + "%s=(%s)&%d" % (self.ref(i), e, (1 << 64) - 1) if (terms or off) else sp + "%s=%s" % (self.ref(i), e))
            return
        if op == 30:
            a = self.ops(i)[0]
            w = self.width(ty)
            r = self.ref(i)
            o.append(sp + "%s=%s&%d if type(%s) is int else TR(%s,%d)" % (r, a, (1 << w) - 1, a, a, w))
            return
        if op == 31:
            a = self.ops(i)[0]
            o.append(sp + "%s=%s if type(%s) is int else ZX(%s,%d)" % (self.ref(i), a, a, a, self.width(ty)))
            return
        if op == 32:
            a = self.ops(i)[0]
            o.append(sp + "%s=SX(%s,%d,%d)" % (self.ref(i), a, self.width(self.ty(L.LLVMGetOperand(i, 0))), self.width(ty)))
            return
        if op in (33, 34):
            o.append(sp + "%s=fptoint(%s,%d,%d)" % (self.ref(i), self.ops(i)[0], self.width(ty), op == 34))
            return
        if op in (35, 36):
            o.append(sp + "%s=inttofp(%s,%d,%d)" % (self.ref(i), self.ops(i)[0], self.width(self.ty(L.LLVMGetOperand(i, 0))), op == 36))
            return
        if op == 37:
            o.append(sp + "%s=fptrunc(%s)" % (self.ref(i), self.ops(i)[0]))
            return
        if op in (38, 39, 40, 60, 68):
            o.append(sp + "%s=%s" % (self.ref(i), self.ops(i)[0]))
            return
        if op == 41:
            st_ = L.LLVMGetTypeKind(self.ty(L.LLVMGetOperand(i, 0)))
            a = self.ops(i)[0]
            if st_ in (2, 3) and tk == 8:
                o.append(sp + "%s=bc_d2i(%s)" % (self.ref(i), a))
            elif st_ == 8 and tk in (2, 3):
                o.append(sp + "%s=bc_i2d(%s,%d)" % (self.ref(i), a, self.sz(ty)))
            else:
                o.append(sp + "%s=%s" % (self.ref(i), a))
            return
        if op == 42:
            pr = L.LLVMGetICmpPredicate(i)
            a, c = self.ops(i)
            if pr >= 38:
                w = self.width(self.ty(L.LLVMGetOperand(i, 0)))
                h = 1 << (w - 1)
                a, c = "(%s^%d)" % (a, h), "(%s^%d)" % (c, h)
            o.append(sp + "%s=1 if %s%s%s else 0" % (self.ref(i), a, ICMP[pr], c))
            return
        if op == 43:
            a, c = self.ops(i)
            pr = L.LLVMGetFCmpPredicate(i)
            if pr in (0, 15):
                o.append(sp + "%s=%d" % (self.ref(i), 1 if pr else 0))
            else:
                o.append(sp + "%s=fcmp(%d,%s,%s)" % (self.ref(i), pr, a, c))
            return
        if op == 46:
            c, a, d = self.ops(i)
            o.append(sp + "%s=%s if %s else %s" % (self.ref(i), a, c, d))
            return
        if op == 53:
            a = self.ops(i)[0]
            n = L.LLVMGetNumIndices(i)
            ix = L.LLVMGetIndices(i)
            o.append(sp + "%s=%s%s" % (self.ref(i), a, "".join("[%d]" % ix[k] for k in range(n))))
            return
        if op == 54:
            a, v = self.ops(i)[:2]
            n = L.LLVMGetNumIndices(i)
            ix = [L.LLVMGetIndices(i)[k] for k in range(n)]
            o.append(sp + "%s=insv(%s,%s,%r)" % (self.ref(i), a, v, tuple(ix)))
            return
        if op == 45:
            self.call(i, ind)
            return
        if op == 5:
            o.append(sp + "try:")
            self.call(i, ind + 1)
            o.append(sp + "except CppThrow as _e:")
            o.append(sp + " _exc=_e; _ok=0")
            o.append(sp + "else: _ok=1")
            o.append(sp + "if _ok:")
            self.goto(b, L.LLVMGetNormalDest(i), ind + 1)
            o.append(sp + "else:")
            self.goto(b, L.LLVMGetUnwindDest(i), ind + 1)
            return
        if op == 59:
            cl = []
            for k in range(L.LLVMGetNumClauses(i)):
                c = L.LLVMGetClause(i, k)
                if L.LLVMGetTypeKind(self.ty(c)) == 12:
                    cl.append(self.p.const_val(c))
            o.append(sp + "%s=landing(_exc,%d,%r)" % (self.ref(i), L.LLVMIsCleanup(i), cl))
            return
        if op == 58:
            o.append(sp + "raise _exc")
            return
        if op == 1:
            if self.allocas:
                o.append(sp + "free_allocas(_lo,S.next_id)")
            if L.LLVMGetNumOperands(i):
                o.append(sp + "return %s" % self.ops(i)[0])
            else:
                o.append(sp + "return None")
            return
        if op == 2:
            if L.LLVMIsConditional(i):
                c = self.ref(L.LLVMGetCondition(i))
                t, e = L.LLVMGetSuccessor(i, 0), L.LLVMGetSuccessor(i, 1)
                o.append(sp + "if %s:" % c)
                self.goto(b, t, ind + 1)
                o.append(sp + "else:")
                self.goto(b, e, ind + 1)
            else:
                self.goto(b, L.LLVMGetSuccessor(i, 0), ind)
            return
        if op == 3:
            v = self.ref(L.LLVMGetOperand(i, 0))
            first = True
            n = L.LLVMGetNumOperands(i)
            for k in range(2, n, 2):
                c = self.p.const_val(L.LLVMGetOperand(i, k))
                o.append(sp + "%s %s==%d:" % ("if" if first else "elif", v, c))
                first = False
                self.goto(b, L.LLVMGetSuccessor(i, k // 2), ind + 1)
            if first:
                self.goto(b, L.LLVMGetSuccessor(i, 0), ind)
            else:
                o.append(sp + "else:")
                self.goto(b, L.LLVMGetSuccessor(i, 0), ind + 1)
            return
        if op == 7:
            o.append(sp + "raise Abort('unreachable','reached code the compiler proved unreachable')")
            return
        if op == 55:
            return
        if op == 57:
            a, v = self.ops(i)[:2]
            n = self.sz(ty)
            m = (1 << (8 * n)) - 1
            bop = L.LLVMGetAtomicRMWBinOp(i)
            r = self.ref(i)
            o.append(sp + "%s=ldi(%s,%d)" % (r, a, n))
            e = {0: v, 1: "%s+%s" % (r, v), 2: "%s-%s" % (r, v), 3: "%s&%s" % (r, v), 5: "%s|%s" % (r, v), 6: "%s^%s" % (r, v)}.get(bop)
            if e is None:
                o.append(sp + "raise Unsupported('atomicrmw')")
            else:
                o.append(sp + "st(%s,%d,(%s)&%d)" % (a, n, e, m))
            return
        if op == 56:
            a, c, v = self.ops(i)[:3]
            n = self.sz(self.ty(L.LLVMGetOperand(i, 1)))
            r = self.ref(i)
            o.append(sp + "%s=ldi(%s,%d)" % (r, a, n))
            o.append(sp + "if %s==%s:" % (r, c))
            o.append(sp + " st(%s,%d,%s); %s=(%s,1)" % (a, n, v, r, r))
            o.append(sp + "else: %s=(%s,0)" % (r, r))
            return
        o.append(sp + "raise Unsupported('opcode %d in %s')" % (op, self.name))

    def load_expr(self, a, ty):
        k = L.LLVMGetTypeKind(ty)
        if k in (2, 3):
            return "ldd(%s,%d)" % (a, self.sz(ty))
        if k in (8, 12):
            w = self.width(ty) if k == 8 else 64
            e = "ldi(%s,%d)" % (a, self.sz(ty))
            return "(%s)&%d" % (e, (1 << w) - 1) if w % 8 else e
        if k == TK["struct"]:
            return "(" + "".join(self.load_expr("%s+%d" % (a, L.LLVMOffsetOfElement(self.p.td, ty, j)), L.LLVMStructGetTypeAtIndex(ty, j)) + ","
                                 for j in range(L.LLVMCountStructElementTypes(ty))) + ")"
        if k == TK["array"]:
            et = L.LLVMGetElementType(ty)
            es = L.LLVMABISizeOfType(self.p.td, et)
            return "(" + "".join(self.load_expr("%s+%d" % (a, j * es), et) + "," for j in range(L.LLVMGetArrayLength2(ty))) + ")"
        return "unsup('load of type kind %d')" % k

    def layout(self, ty, off=0):
        k = L.LLVMGetTypeKind(ty)
        if k == TK["struct"]:
            r = []
            for j in range(L.LLVMCountStructElementTypes(ty)):
                r += self.layout(L.LLVMStructGetTypeAtIndex(ty, j), off + L.LLVMOffsetOfElement(self.p.td, ty, j))
            return r
        if k == TK["array"]:
            et = L.LLVMGetElementType(ty)
            es = L.LLVMABISizeOfType(self.p.td, et)
            r = []
            for j in range(L.LLVMGetArrayLength2(ty)):
                r += self.layout(et, off + j * es)
            return r
        return [(off, self.sz(ty))]

    def call(self, i, ind):
        o = self.lines
        sp = " " * ind
        cv = L.LLVMGetCalledValue(i)
        n = L.LLVMGetNumArgOperands(i)
        args = []
        for k in range(n):
            a = L.LLVMGetOperand(i, k)
            if L.LLVMGetValueKind(a) == 22:
                args.append("None")
            else:
                args.append(self.ref(a))
        k = L.LLVMGetValueKind(cv)
        r = "" if L.LLVMGetTypeKind(self.ty(i)) == 0 else self.ref(i) + "="
        if k == 23:
            # inline asm: only empty barriers are accepted
            if r:
                o.append(sp + "%sunsup('inline asm')" % r)
            return
        if k == 6:
            cvv = self.p.gaddr.get(cv)
            o.append(sp + "%sPROG.call_addr(%d)(%s)" % (r, cvv, ",".join(args)))
            return
        if k == 5:
            name = llvmc.name(cv)
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch", "llvm.stackrestore", "llvm.donothing")):
                return
            fn = self.p_fn(name)
            o.append(sp + "%s%s(%s)" % (r, fn, ",".join(args)))
            return
        o.append(sp + "%sPROG.call_addr(%s)(%s)" % (r, self.ref(cv), ",".join(args)))

    def p_fn(self, name):
        """name in the namespace bound (lazily) to the callee"""
        ns = self.p.ns
        self.p.ns_setup()
        key = "C_" + re.sub(r"\W", "_", name)
        if key not in ns:
            prog = self.p

            def stub(*a, _n=name, _k=key):
                fn = prog.resolve(_n)
                ns[_k] = fn
                return fn(*a)
            ns[key] = stub
        return key


def flat(v):
    out = []
    for x in v:
        if type(x) is tuple:
            out.extend(flat(x))
        else:
            out.append(x)
    return out


def insv(a, v, ix):
    l = list(a)
    if len(ix) == 1:
        l[ix[0]] = v
    else:
        l[ix[0]] = insv(a[ix[0]], v, ix[1:])
    return tuple(l)


def unsup(what):
    raise Unsupported(what)


rtl.flat = flat
rtl.insv = insv
rtl.unsup = unsup


def demangle(names):
    names = list(names)
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.split("\n")[:len(names)] if r.returncode == 0 else names
