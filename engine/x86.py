"""x86-64 machine code: one function of an assembled object, interpreted over canonical values.

The object is assembled from the current source and disassembled (objdump). Registers hold public sizes, pointers or
data; vector registers are kept as 32-bit lanes. Control flow and addresses may only depend on public values.
"""
import itertools
import re

from absint import AnalysisError
from canon import CanonError, GARB, Lin, ladd, lmul, is_pub, lsym
from kern import KFrame, KPtr, KReg, KState, Machine

GPRS = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
PART = {}
for _r in GPRS:
    PART[_r] = (_r, 64, 0)
for _a in "abcd":
    PART.update({"e%sx" % _a: ("r%sx" % _a, 32, 0), "%sx" % _a: ("r%sx" % _a, 16, 0), "%sl" % _a: ("r%sx" % _a, 8, 0),
                 "%sh" % _a: ("r%sx" % _a, 8, 8)})
for _a in ("sp", "bp", "si", "di"):
    PART.update({"e" + _a: ("r" + _a, 32, 0), _a: ("r" + _a, 16, 0), _a + "l": ("r" + _a, 8, 0)})
for _i in range(8, 16):
    PART.update({"r%dd" % _i: ("r%d" % _i, 32, 0), "r%dw" % _i: ("r%d" % _i, 16, 0), "r%db" % _i: ("r%d" % _i, 8, 0)})
SIZES = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8, "XMMWORD": 16, "YMMWORD": 32, "OWORD": 16}
ARGS = {"unix": ["rdi", "rsi", "rdx", "rcx", "r8", "r9"], "wind": ["rcx", "rdx", "r8", "r9"]}
SAVED = {"unix": ["rbx", "rbp", "r12", "r13", "r14", "r15"],
         "wind": ["rbx", "rbp", "rdi", "rsi", "r12", "r13", "r14", "r15"] + ["xmm%d" % i for i in range(6, 16)]}


class Insn:
    __slots__ = ("addr", "next", "mn", "ops", "text", "where")


class Mem:
    __slots__ = ("size", "base", "index", "scale", "disp", "const")


class Vec:
    __slots__ = ("i", "lanes")


class Gpr:
    __slots__ = ("r", "w", "sh")


class Code:
    """an assembled object: instructions by address, symbols, constant data."""
    def __init__(self, listing, sections, data, symbols, name):
        self.name = name
        self.sections = {}
        for s, (size, align) in sections.items():
            r = KReg(s, size, "const")
            r.data = data.get(s, b"\0" * size)
            r.align = align
            self.sections[s] = r
        self.code, self.symbols = {}, symbols
        rows, label = [], None
        for line in listing.splitlines():
            m = re.match(r"^([0-9a-f]+) <(.+)>:$", line)
            if m:
                label = m.group(2)
                continue
            m = re.match(r"^\s*([0-9a-f]+):\t(\S+(?: \S+)*?)(?:\s{2,}|\s+(?=\S)|$)(.*)$", line)
            if not m:
                continue
            rows.append((int(m.group(1), 16), line.split("\t", 1)[1], label))
        for k, (addr, text, lab) in enumerate(rows):
            x = Insn()
            x.addr, x.next = addr, rows[k + 1][0] if k + 1 < len(rows) else None
            reloc = re.search(r"([0-9a-f]+): (R_X86_64_\S+)\s+(\S+)\s*$", text)
            body = re.split(r"\s+#|\t[0-9a-f]+: R_", text)[0].strip()
            body = re.sub(r"\s*<.*$", "", body)
            p = body.split(None, 1)
            x.mn = p[0]
            x.where = "%s %s" % (lab, body)
            x.text = body
            ops = [o.strip() for o in p[1].split(",")] if len(p) > 1 else []
            x.ops = [self.operand(o, x, reloc) for o in ops]
            self.code[addr] = x

    def operand(self, o, x, reloc):
        if o in PART:
            g = Gpr()
            g.r, g.w, g.sh = PART[o]
            return g
        m = re.match(r"^([xy])mm(\d+)$", o)
        if m:
            v = Vec()
            v.i, v.lanes = int(m.group(2)), 4 if m.group(1) == "x" else 8
            return v
        if x.mn[0] == "j" or x.mn in ("call", "loop"):
            return int(o, 16) if re.match(r"^[0-9a-f]+$", o) else o
        m = re.match(r"^-?(0x)?[0-9a-f]+$", o)
        if m:
            return int(o, 0)
        m = re.match(r"^(?:(\w+) PTR )?(?:\w\w:)?\[([^\]]*)\]$", o)
        if not m:
            raise AnalysisError("operand %s" % o)
        e = Mem()
        e.size = SIZES.get(m.group(1), 0)
        e.base = e.index = None
        e.scale, e.disp, e.const = 1, 0, None
        for sign, t in re.findall(r"([+-]?)([^+-]+)", m.group(2)):
            if t == "rip":
                e.const = True
            elif t in PART and PART[t][1] == 64:
                if e.base is None:
                    e.base = t
                else:
                    e.index = t
            elif "*" in t:
                e.index, k = t.split("*")
                e.scale = int(k)
            else:
                e.disp += int(t, 16) * (-1 if sign == "-" else 1)
        if e.const:
            if not reloc:
                raise AnalysisError("unresolved %s" % x.text)
            s, _, a = re.match(r"^(.*?)([+-]0x[0-9a-f]+)?$", reloc.group(3)).group(1), None, \
                re.match(r"^(.*?)([+-]0x[0-9a-f]+)?$", reloc.group(3)).group(2)
            e.const = (s, int(a or "0", 16), int(reloc.group(1), 16))
        return e


FLAGLESS = {"mov", "lea", "push", "pop", "xchg", "not", "movzx", "bswap", "nop", "movabs", "ret"}

JCC = {"je": "eq", "jz": "eq", "jne": "ne", "jnz": "ne", "jb": "ult", "jc": "ult", "jae": "uge", "jnc": "uge", "jbe": "ule",
       "ja": "ugt", "jl": "slt", "jge": "sge", "jle": "sle", "jg": "sgt", "js": "s", "jns": "ns"}


class XFrame:
    __slots__ = ("pc", "regs", "vec", "flags")

    def clone(self):
        f = XFrame()
        f.pc, f.flags = self.pc, self.flags
        f.regs, f.vec = dict(self.regs), dict(self.vec)
        return f


class X86(Machine):
    """abi: unix or wind. skew: address of the return address modulo 64."""
    def __init__(self, code, dom, abi, skew=8):
        super().__init__(dom)
        self.code, self.abi, self.skew = code, abi, skew
        self.stack = KReg("stack", None, "stack", 0, dom)
        self.used = {}              # (mnemonic, vector width) -> text
        self.lowest = 0
        self.problems = []          # broken rules of the calling convention
        self.accesses = 0

    # entering and leaving ------------------------------------------------------------
    def call(self, name, args):
        at = self.code.symbols.get(name)
        if at is None:
            raise AnalysisError("no symbol %s" % name)
        st = KState()
        f = XFrame()
        f.pc, f.flags = at, (GARB, GARB, GARB)
        D = self.dom
        f.regs = {r: GARB for r in GPRS}
        f.vec = {}
        for i in range(16):
            for j in range(8):
                f.vec[i, j] = D.atom("upper%d.%d" % (i, j), 32) if j >= 4 else GARB
        for r in SAVED[self.abi]:
            if r[0] == "r":
                f.regs[r] = D.atom("saved." + r, 64)
            else:
                for j in range(4):
                    f.vec[int(r[3:]), j] = D.atom("saved.%s.%d" % (r, j), 32)
        f.regs["rsp"] = KPtr(self.stack, 0)
        self.entry = f.clone()
        self.nargs = len(args)
        cells = st.mem.setdefault(self.stack, {}).setdefault((), {})
        self.back = KReg("return address", 1, "code", 0, D)
        cells[0] = (KPtr(self.back, 0), 8)
        for i, a in enumerate(args):
            if i < len(ARGS[self.abi]):
                f.regs[ARGS[self.abi][i]] = a
            elif self.abi == "wind":
                cells[8 + 8 * i] = (a, 8)
            else:
                cells[8 + 8 * (i - 6)] = (a, 8)
        self.top = 8 + 8 * max(len(args), 4) if self.abi == "wind" else 8 + 8 * max(len(args) - 6, 0)
        st.frames = [f]
        return self.explore(st)

    def leave(self, st):
        f = st.frames[0]
        bad = []
        for r in SAVED[self.abi]:
            if r[0] == "r":
                if f.regs[r] is not self.entry.regs[r]:
                    bad.append(r)
            elif any(f.vec[int(r[3:]), j] is not self.entry.vec[int(r[3:]), j] for j in range(4)):
                bad.append(r)
        if bad:
            self.problem("the caller's %s not restored" % ", ".join(bad))
        up = sorted({i for i in range(16) for j in range(4, 8)
                     if f.vec[i, j] is not self.entry.vec[i, j] and not (isinstance(f.vec[i, j], int) and f.vec[i, j] == 0)})
        if up:
            self.problem("the upper half of ymm%d is left in use: vzeroupper missing" % up[0])
        self.returns = getattr(self, "returns", 0) + 1
        st.ret = f.regs["rax"]
        st.extra = dict(st.extra)
        st.frames = []

    def problem(self, text):
        if text not in self.problems:
            self.problems.append(text)

    # machine interface -----------------------------------------------------------------
    def site(self, st):
        return ("pc", st.frames[0].pc)

    def registers(self, st):
        f = st.frames[0] if st.frames else None
        if f is None:
            return
        for r, v in f.regs.items():
            yield ("g", r), (v, 64)
        for k, v in f.vec.items():
            yield ("x", k), (v, 32)
        for i in range(3):
            yield ("f", i), (f.flags[i], 64)

    def setreg(self, st, key, v):
        f = st.frames[0]
        if key[0] == "g":
            f.regs[key[1]] = v
        elif key[0] == "x":
            f.vec[key[1]] = v
        else:
            f.flags = f.flags[:key[1]] + (v,) + f.flags[key[1] + 1:]

    def condition(self, st):
        from kern import Need
        try:
            s = st.clone()
            self.one(s)
        except Need as e:
            return e.c
        return None

    def go(self, st):
        while st.frames:
            self.steps += 1
            st.steps += 1
            if st.steps > self.max_steps:
                raise CanonError("too many steps")
            self.one(st)

    def align(self, p, n):
        if p.r is not self.stack or n > 64 or n & n - 1 or not isinstance(p.off, int):
            raise CanonError("pointer rounded to %d" % n)
        a = (p.off + self.skew) & -n
        return KPtr(p.r, a - self.skew)

    # operands -----------------------------------------------------------------------------
    def get(self, f, g):
        v = f.regs[g.r]
        if g.w == 64 or v is GARB:
            return v
        if isinstance(v, KPtr):
            raise CanonError("part of a pointer")
        if isinstance(v, int):
            return v >> g.sh & (1 << g.w) - 1
        if is_pub(v):
            if g.w == 32:
                return v                # sizes below 2^32
            raise CanonError("part of a size")
        return self.dom.trunc(g.w, self.dom.lshr(64, v, g.sh), 64)

    def set(self, f, g, v):
        if g.w == 64 or v is GARB and g.w == 32:
            f.regs[g.r] = v
        elif g.w == 32:
            f.regs[g.r] = v if is_pub(v) else self.dom.zext(64, v, 32)
        else:
            old = f.regs[g.r]
            if isinstance(old, int) and isinstance(v, int):
                m = (1 << g.w) - 1 << g.sh
                f.regs[g.r] = old & ~m | v << g.sh
            elif old is GARB or v is GARB:
                f.regs[g.r] = GARB
            else:
                o = self.word(64, old)
                parts = [(self.dom.trunc(g.sh, o, 64), g.sh)] if g.sh else []
                parts += [(self.word(g.w, v), g.w),
                          (self.dom.trunc(64 - g.sh - g.w, self.dom.lshr(64, o, g.sh + g.w), 64), 64 - g.sh - g.w)]
                f.regs[g.r] = self.dom.cat(parts)

    def address(self, f, e, x):
        if e.const:
            s, add, place = e.const
            r = self.code.sections.get(s)
            off = add + (x.next if x.next is not None else place + 4) - place
            if r is None:
                if s in self.code.symbols:
                    raise AnalysisError("%s refers to %s" % (x.text, s))
                raise AnalysisError("%s refers to %s" % (x.text, s))
            return KPtr(r, off)
        v = 0
        if e.base:
            v = f.regs[e.base]
        if e.index:
            i = f.regs[e.index]
            v = self.arith("add", 64, v, self.arith("mul", 64, i, e.scale) if e.scale != 1 else i)
        if e.disp:
            v = self.arith("add", 64, v, e.disp & (1 << 64) - 1)
        return v

    def place(self, f, e, x):
        p = self.address(f, e, x)
        if not isinstance(p, KPtr):
            raise CanonError("an address that depends on data or on nothing known (%s)" % x.where)
        return p

    def access(self, st, p, n, kind, x, aligned=0):
        """bounds of the stack, alignment."""
        f = st.frames[0]
        self.accesses += 1
        if p.r is self.stack:
            sp = f.regs["rsp"]
            lo = sp.off - (128 if self.abi == "unix" else 0) if isinstance(sp, KPtr) and isinstance(sp.off, int) else 0
            hi = self.top if kind == "r" else (self.top if self.abi == "wind" else 0)
            if not isinstance(p.off, int) or p.off < lo or p.off + n > hi or kind == "w" and p.off < 8 and p.off + n > 0:
                self.problem("%s of %d bytes outside the function's part of the stack, at %r with the stack pointer at %r (%s)" % (
                    "read" if kind == "r" else "write", n, p.off, sp.off, x.where))
            if isinstance(p.off, int):
                self.lowest = min(self.lowest, p.off)
        elif p.r.kind == "code":
            raise CanonError("the return address is dereferenced")
        elif p.r.kind == "const":
            if kind == "w":
                raise CanonError("a constant is written (%s)" % x.where)
            if not isinstance(p.off, int) or p.off < 0 or p.off + n > p.r.size:
                raise CanonError("constants read out of bounds (%s)" % x.where)
        if aligned > 1:
            if p.r is self.stack:
                ok = (p.off + self.skew) % aligned == 0
            elif p.r.kind == "const":
                ok = p.r.align % aligned == 0 and isinstance(p.off, int) and p.off % aligned == 0
            else:
                ok = False
            if not ok:
                self.problem("the instruction needs %d-byte alignment, which %s+%r does not have (%s)" % (
                    aligned, p.r.name, p.off, x.where))

    def read(self, st, f, o, x, w=None):
        """a general operand as w bits."""
        if isinstance(o, Gpr):
            return self.get(f, o)
        if isinstance(o, int):
            return o & (1 << (w or 64)) - 1
        if isinstance(o, Mem):
            n = o.size or w // 8
            p = self.place(f, o, x)
            self.access(st, p, n, "r", x)
            return self.load(st, p.r, p.off, n, x.where)
        raise AnalysisError("operand of %s" % x.text)

    def write(self, st, f, o, v, x, w=None):
        if isinstance(o, Gpr):
            self.set(f, o, v)
        else:
            n = o.size or w // 8
            p = self.place(f, o, x)
            self.access(st, p, n, "w", x)
            self.store(st, p.r, p.off, n, v, x.where)

    def lanes(self, st, f, o, x, n, aligned=0):
        """a vector operand as n lanes."""
        if isinstance(o, Vec):
            return [f.vec[o.i, j] for j in range(n)]
        p = self.place(f, o, x)
        self.access(st, p, 4 * n, "r", x, aligned)
        return [self.load(st, p.r, ladd(p.off, 4 * j), 4, x.where) for j in range(n)]

    def setvec(self, f, o, vs, vex):
        for j, v in enumerate(vs):
            f.vec[o.i, j] = v
        if vex:
            for j in range(len(vs), 8):
                f.vec[o.i, j] = 0

    def stvec(self, st, f, o, vs, x, aligned=0):
        p = self.place(f, o, x)
        self.access(st, p, 4 * len(vs), "w", x, aligned)
        for j, v in enumerate(vs):
            self.store(st, p.r, ladd(p.off, 4 * j), 4, v, x.where)

    # bytes of lanes ----------------------------------------------------------------------
    def gather(self, bs):
        """a lane from four (lane value, byte number) or None for zero."""
        if all(b is None for b in bs):
            return 0
        if any(b is not None and b[0] is GARB for b in bs):
            return GARB
        if all(b is not None for b in bs) and all(b[0] is bs[0][0] for b in bs):
            v = bs[0][0]
            k = bs[0][1]
            if all(b[1] == (k + i) % 4 for i, b in enumerate(bs)):
                if k == 0:
                    return v
                return self.dom.rotl(32, self.word(32, v), 32 - 8 * k)
        parts = []
        for b in bs:
            parts.append((0, 8) if b is None else (self.dom.byte(32, self.word(32, b[0]), b[1]), 8))
        return self.dom.cat(parts)

    @staticmethod
    def split(vs):
        return [(v, i) for v in vs for i in range(4)]

    def join(self, bs):
        return [self.gather(bs[4 * i:4 * i + 4]) for i in range(len(bs) // 4)]

    def lane2(self, op, a, b, n=None):
        return [self.arith(op, 32, x, y) for x, y in zip(a, b)]

    def quads(self, vs, fn):
        out = []
        for i in range(0, len(vs), 2):
            a, b = vs[i], vs[i + 1]
            if a is GARB or b is GARB:
                out += [GARB, GARB]
                continue
            r = fn(self.dom.cat([(self.word(32, a), 32), (self.word(32, b), 32)]), i)
            r = self.word(64, r)
            out += [self.dom.trunc(32, r, 64), self.dom.trunc(32, self.dom.lshr(64, r, 32), 64)]
        return out

    # flags ---------------------------------------------------------------------------------
    def setflags(self, f, kind, a, b):
        f.flags = (kind, a, b)

    def holds(self, st, f, p):
        kind, a, b = f.flags
        if kind is GARB or not isinstance(kind, tuple):
            raise CanonError("a branch on flags that are not set")
        k, w = kind
        if k == "sub":
            if p in ("s", "ns"):
                a, b, p = self.arith("sub", w, a, b), 0, {"s": "slt", "ns": "sge"}[p]
        elif p in ("eq", "ne"):
            b = 0
        elif p in ("s", "ns"):
            b, p = 0, {"s": "slt", "ns": "sge"}[p]
        elif k == "logic":
            b = 0
            if p in ("ult", "uge"):
                return p == "uge"
            p = {"ule": "eq", "ugt": "ne"}.get(p, p)
        else:
            raise CanonError("a branch on the carry or overflow of %s" % k)
        return self.truth(st, self.compare(p, w, a, b))

    # one instruction -------------------------------------------------------------------------
    def one(self, st):
        f = st.frames[0]
        x = self.code.code.get(f.pc)
        if x is None or x.next is None and x.mn not in ("ret", "jmp"):
            raise CanonError("execution runs out of the code")
        mn, ops = x.mn, x.ops
        self.loc = x.where
        width = max([o.lanes for o in ops if isinstance(o, Vec)] + [0])
        self.used.setdefault((mn, width), x.where)
        if mn in JCC:
            t = self.holds(st, f, JCC[mn])
            f.pc = ops[0] if t else x.next
            return
        if mn == "jmp":
            if not isinstance(ops[0], int):
                raise CanonError("an indirect jump")
            f.pc = ops[0]
            return
        if mn in ("ret",):
            p = f.regs["rsp"]
            if not isinstance(p, KPtr) or p.r is not self.stack:
                raise CanonError("the stack pointer is lost")
            v = self.peek(st, p.r, p.off, 8)
            if v != KPtr(self.back, 0):
                raise CanonError("the function returns with the stack pointer at %r, not at its return address" % (p.off,))
            f.regs["rsp"] = KPtr(p.r, ladd(p.off, 8))
            self.leave(st)
            return
        self.step(st, f, x, mn, ops, width)
        f.pc = x.next

    def step(self, st, f, x, mn, ops, width):
        if width or mn in ("vzeroupper", "vzeroall"):
            return self.vector(st, f, x, mn, ops, width)
        w = next((o.w for o in ops if isinstance(o, Gpr)), None) or next((8 * o.size for o in ops if isinstance(o, Mem)), 64)
        if mn in ("nop", "endbr64", "pause", "lfence", "sfence", "mfence", "cld") or mn.startswith("prefetch"):
            return
        if mn in ("mov", "movabs"):
            v = self.read(st, f, ops[1], x, w)
            self.write(st, f, ops[0], v, x, w)
            return
        if mn == "movzx":
            o = ops[1]
            n = o.w if isinstance(o, Gpr) else 8 * o.size
            v = self.read(st, f, o, x, n)
            self.write(st, f, ops[0], v if is_pub(v) or v is GARB else self.dom.zext(w, v, n), x, w)
            return
        if mn == "lea":
            self.write(st, f, ops[0], self.address(f, ops[1], x), x, w)
            return
        if mn == "push":
            v = self.read(st, f, ops[0], x, 64)
            p = f.regs["rsp"] = self.arith("sub", 64, f.regs["rsp"], 8)
            self.access(st, p, 8, "w", x)
            self.store(st, p.r, p.off, 8, v, x.where)
            return
        if mn == "pop":
            p = f.regs["rsp"]
            self.access(st, p, 8, "r", x)
            v = self.load(st, p.r, p.off, 8, x.where)
            f.regs["rsp"] = self.arith("add", 64, p, 8)
            self.write(st, f, ops[0], v, x, 64)
            return
        if mn == "leave":
            f.regs["rsp"] = f.regs["rbp"]
            p = f.regs["rsp"]
            self.access(st, p, 8, "r", x)
            f.regs["rbp"] = self.load(st, p.r, p.off, 8, x.where)
            f.regs["rsp"] = self.arith("add", 64, p, 8)
            return
        if mn == "xchg":
            a, b = self.read(st, f, ops[0], x, w), self.read(st, f, ops[1], x, w)
            self.write(st, f, ops[0], b, x, w)
            self.write(st, f, ops[1], a, x, w)
            return
        if mn == "cpuid":
            leaf, sub = f.regs["rax"], f.regs["rcx"]
            D = self.dom
            leaf, sub = [v if v is GARB else D.trunc(32, self.word(64, v), 64) if not isinstance(v, int) else v & 0xffffffff
                         for v in (leaf, sub)]
            st.events += ((leaf, sub),)
            for i, r in enumerate(("rax", "rbx", "rcx", "rdx")):
                f.regs[r] = D.zext(64, D.atom("cpuid%d.%s" % (len(st.events), r), 32), 32)
            return
        if mn in ("add", "sub", "and", "or", "xor"):
            b = self.read(st, f, ops[1], x, w)
            if mn in ("xor", "sub") and isinstance(ops[0], Gpr) and isinstance(ops[1], Gpr) and ops[0].r == ops[1].r:
                a, v = 0, 0
                b = 0
            else:
                a = self.read(st, f, ops[0], x, w)
                v = self.arith(mn, w, a, b)
            self.write(st, f, ops[0], v, x, w)
            self.result(f, {"add": "add", "sub": "sub"}.get(mn, "logic"), w, a if mn == "sub" else v, b)
            return
        if mn in ("cmp", "test"):
            a, b = self.read(st, f, ops[0], x, w), self.read(st, f, ops[1], x, w)
            if mn == "cmp":
                self.setflags(f, ("sub", w), a, b)
            else:
                same = isinstance(ops[0], Gpr) and isinstance(ops[1], Gpr) and ops[0].r == ops[1].r and ops[0].w == ops[1].w
                self.result(f, "logic", w, a if same else self.arith("and", w, a, b), 0)
            return
        if mn in ("inc", "dec"):
            a = self.read(st, f, ops[0], x, w)
            v = self.arith("add" if mn == "inc" else "sub", w, a, 1)
            self.write(st, f, ops[0], v, x, w)
            self.result(f, "inc", w, v, 0)
            return
        if mn in ("shl", "sal", "shr", "sar", "rol", "ror"):
            a = self.read(st, f, ops[0], x, w)
            b = self.read(st, f, ops[1], x, 8) if len(ops) > 1 else 1
            if not isinstance(b, int):
                raise CanonError("shift by a variable")
            b %= w
            if mn == "ror":
                b = (w - b) % w
            v = a if b == 0 else self.arith({"shl": "shl", "sal": "shl", "shr": "lshr", "sar": "ashr", "rol": "rotl", "ror": "rotl"}[mn], w, a, b)
            self.write(st, f, ops[0], v, x, w)
            self.result(f, "shift", w, v, 0)
            return
        if mn == "neg":
            a = self.read(st, f, ops[0], x, w)
            v = self.arith("sub", w, 0, a)
            self.write(st, f, ops[0], v, x, w)
            self.result(f, "neg", w, v, 0)
            return
        if mn == "not":
            a = self.read(st, f, ops[0], x, w)
            self.write(st, f, ops[0], self.arith("xor", w, a, (1 << w) - 1), x, w)
            return
        if mn == "imul" and len(ops) > 1:
            a, b = (self.read(st, f, o, x, w) for o in ops[-2:])
            v = self.arith("mul", w, a, b)
            self.write(st, f, ops[0], v, x, w)
            f.flags = (GARB, GARB, GARB)
            return
        if mn.startswith("cmov") and "j" + mn[4:] in JCC:
            t = self.holds(st, f, JCC["j" + mn[4:]])
            v = self.read(st, f, ops[1] if t else ops[0], x, w)
            self.write(st, f, ops[0], v, x, w)
            return
        if mn.startswith("set") and "j" + mn[3:] in JCC:
            self.write(st, f, ops[0], int(self.holds(st, f, JCC["j" + mn[3:]])), x, w)
            return
        raise AnalysisError("instruction %s" % x.where)

    def result(self, f, kind, w, a, b):
        self.setflags(f, (kind, w), a, b if kind == "sub" else 0)

    def vector(self, st, f, x, mn, ops, width):
        D = self.dom
        if mn in ("vzeroupper", "vzeroall"):
            for (i, j) in f.vec:
                if j >= 4 or mn == "vzeroall":
                    f.vec[i, j] = 0
            return
        vex = mn[0] == "v"
        b = mn[1:] if vex else mn
        need = 0 if vex else 4 * width

        def v(o, n=width):
            return self.lanes(st, f, o, x, n, need if n == width else 0)
        # moves
        if b in ("movdqa", "movdqu", "movaps", "movups", "movapd", "movupd", "lddqu", "movntdq", "movntps", "movntdqa"):
            al = 4 * width if b in ("movdqa", "movaps", "movapd", "movntdq", "movntps", "movntdqa") else 0
            if isinstance(ops[0], Vec):
                vs = self.lanes(st, f, ops[1], x, width, al)
                self.setvec(f, ops[0], vs, vex)
            else:
                self.stvec(st, f, ops[0], [f.vec[ops[1].i, j] for j in range(width)], x, al)
            return
        if b in ("movd", "movq", "movss", "movsd"):
            n = 2 if b in ("movq", "movsd") else 1
            if isinstance(ops[0], Vec):
                if isinstance(ops[1], Vec):
                    if b in ("movss", "movsd"):
                        raise AnalysisError(x.text)
                    vs = [f.vec[ops[1].i, j] for j in range(n)]
                elif isinstance(ops[1], Gpr):
                    g = self.get(f, ops[1])
                    if g is GARB:
                        vs = [GARB] * n
                    else:
                        g = self.word(64, f.regs[ops[1].r])
                        vs = [D.trunc(32, D.lshr(64, g, 32 * j), 64) for j in range(n)]
                else:
                    vs = self.lanes(st, f, ops[1], x, n)
                self.setvec(f, ops[0], vs + [0] * (4 - n), vex)
            else:
                vs = [f.vec[ops[1].i, j] for j in range(n)]
                if isinstance(ops[0], Gpr):
                    g = GARB if any(q is GARB for q in vs) else D.cat([(self.word(32, q), 32) for q in vs] + ([(0, 32)] if n == 1 else []))
                    f.regs[ops[0].r] = g
                else:
                    self.stvec(st, f, ops[0], vs, x)
            return
        if b in ("pbroadcastd", "broadcastss"):
            s = self.lanes(st, f, ops[1], x, 1)
            self.setvec(f, ops[0], s * width, vex)
            return
        if b in ("pbroadcastq",):
            s = self.lanes(st, f, ops[1], x, 2)
            self.setvec(f, ops[0], s * (width // 2), vex)
            return
        if b in ("broadcasti128", "broadcastf128"):
            s = self.lanes(st, f, ops[1], x, 4)
            self.setvec(f, ops[0], s + s, vex)
            return
        if b in ("extracti128", "extractf128"):
            vs = [f.vec[ops[1].i, 4 * (ops[2] & 1) + j] for j in range(4)]
            if isinstance(ops[0], Vec):
                self.setvec(f, ops[0], vs, True)
            else:
                self.stvec(st, f, ops[0], vs, x)
            return
        if b in ("inserti128", "insertf128"):
            a = [f.vec[ops[1].i, j] for j in range(8)]
            s = self.lanes(st, f, ops[2], x, 4)
            k = 4 * (ops[3] & 1)
            a[k:k + 4] = s
            self.setvec(f, ops[0], a, True)
            return
        if b in ("pextrd", "pextrq"):
            n = 1 if b == "pextrd" else 2
            k = ops[2] % (4 // n) * n
            vs = [f.vec[ops[1].i, k + j] for j in range(n)]
            if isinstance(ops[0], Gpr):
                g = GARB if any(q is GARB for q in vs) else D.cat([(self.word(32, q), 32) for q in vs] + ([(0, 32)] if n == 1 else []))
                f.regs[ops[0].r] = g
            else:
                self.stvec(st, f, ops[0], vs, x)
            return
        if b in ("pinsrd", "pinsrq"):
            n = 1 if b == "pinsrd" else 2
            src, base = ops[-2], ops[1] if vex else ops[0]
            a = [f.vec[base.i, j] for j in range(4)]
            k = ops[-1] % (4 // n) * n
            if isinstance(src, Gpr):
                g = f.regs[src.r]
                vs = [GARB] * n if g is GARB else [D.trunc(32, D.lshr(64, self.word(64, g), 32 * j), 64) for j in range(n)]
            else:
                vs = self.lanes(st, f, src, x, n)
            a[k:k + n] = vs
            self.setvec(f, ops[0], a, vex)
            return
        # one source and an immediate
        if b == "pshufd" or b == "permilps":
            s, im = v(ops[1]), ops[2]
            self.setvec(f, ops[0], [s[g + (im >> 2 * j & 3)] for g in range(0, width, 4) for j in range(4)], vex)
            return
        if b in ("pshuflw", "pshufhw"):
            s, im = self.split(v(ops[1])), ops[2]
            out = []
            for g in range(0, 4 * width, 16):
                q = s[g:g + 16]
                o = 0 if b == "pshuflw" else 8
                r = list(q)
                for j in range(4):
                    k = im >> 2 * j & 3
                    r[o + 2 * j:o + 2 * j + 2] = q[o + 2 * k:o + 2 * k + 2]
                out += r
            self.setvec(f, ops[0], self.join(out), vex)
            return
        if b == "permq":
            s, im = v(ops[1]), ops[2]
            out = []
            for j in range(4):
                k = im >> 2 * j & 3
                out += s[2 * k:2 * k + 2]
            self.setvec(f, ops[0], out, vex)
            return
        if b in ("pslld", "psrld", "psllq", "psrlq", "pslldq", "psrldq", "prold", "prord", "psrad"):
            dst, s, im = ops[0], f_src(ops, vex), ops[-1]
            if not isinstance(im, int):
                raise AnalysisError("shift by a vector: %s" % x.text)
            a = v(s)
            if b in ("pslldq", "psrldq"):
                q, out = self.split(a), []
                im = min(im, 16)
                for g in range(0, 4 * width, 16):
                    p = q[g:g + 16]
                    out += [None] * im + p[:16 - im] if b == "pslldq" else p[im:] + [None] * im
                r = self.join(out)
            elif b in ("pslld", "psrld"):
                r = [0 if im > 31 else e if e is GARB or im == 0 else self.arith("shl" if b == "pslld" else "lshr", 32, e, im) for e in a]
            elif b in ("psllq", "psrlq"):
                r = self.quads(a, lambda e, i: 0 if im > 63 else getattr(D, "shl" if b == "psllq" else "lshr")(64, self.word(64, e), im) if im else e)
            else:
                raise AnalysisError(x.text)
            self.setvec(f, dst, r, vex)
            return
        if b in ("sha1nexte", "sha1msg1", "sha1msg2", "sha1rnds4", "sha256rnds2", "sha256msg1", "sha256msg2"):
            return self.sha(st, f, x, b, ops, v)
        # two sources
        if vex:
            dst, s1, s2, rest = ops[0], ops[1], ops[2] if len(ops) > 2 else None, ops[3:]
        else:
            dst, s1, s2, rest = ops[0], ops[0], ops[1] if len(ops) > 1 else None, ops[2:]
        if s2 is None or not isinstance(dst, Vec):
            raise AnalysisError("instruction %s" % x.where)
        if b in ("pxor", "xorps", "xorpd", "psubd") and isinstance(s1, Vec) and isinstance(s2, Vec) and s1.i == s2.i:
            self.setvec(f, dst, [0] * width, vex)
            return
        a, c = [f.vec[s1.i, j] for j in range(width)], v(s2)
        table = {"paddd": "add", "psubd": "sub", "pxor": "xor", "xorps": "xor", "xorpd": "xor", "pand": "and", "andps": "and",
                 "andpd": "and", "por": "or", "orps": "or", "orpd": "or"}
        if b in table:
            r = self.lane2(table[b], a, c)
        elif b in ("pandn", "andnps", "andnpd"):
            r = [self.arith("and", 32, self.arith("xor", 32, p, 0xffffffff), q) for p, q in zip(a, c)]
        elif b == "paddq":
            r = self.quads(a, lambda e, i: GARB if c[i] is GARB or c[i + 1] is GARB else
                           D.add(64, self.word(64, e), self.word(64, D.cat([(self.word(32, c[i]), 32), (self.word(32, c[i + 1]), 32)]))))
        elif b in ("punpckldq", "punpckhdq", "unpcklps", "unpckhps"):
            o = 0 if "l" in b[5:7] else 2
            r = [y for g in range(0, width, 4) for j in range(2) for y in (a[g + o + j], c[g + o + j])]
        elif b in ("punpcklqdq", "punpckhqdq", "unpcklpd", "unpckhpd", "movlhps"):
            o = 0 if b in ("punpcklqdq", "unpcklpd", "movlhps") else 2
            r = [y for g in range(0, width, 4) for y in a[g + o:g + o + 2] + c[g + o:g + o + 2]]
        elif b == "movhlps":
            r = c[2:4] + a[2:4]
        elif b == "palignr":
            im, out = rest[0], []
            p, q = self.split(a), self.split(c)
            for g in range(0, 4 * width, 16):
                z = (q[g:g + 16] + p[g:g + 16] + [None] * 32)
                out += z[min(im, 32):min(im, 32) + 16]
            r = self.join(out)
        elif b == "pshufb":
            p, out = self.split(a), []
            for g in range(0, 4 * width, 16):
                for j in range(16):
                    k = c[(g + j) // 4]
                    if not isinstance(k, int):
                        raise CanonError("bytes shuffled by something that is not constant (%s)" % x.where)
                    k = k >> 8 * (j % 4) & 255
                    out.append(None if k & 128 else p[g + (k & 15)])
            r = self.join(out)
        elif b in ("shufps",):
            im = rest[0]
            r = [(a, a, c, c)[j][g + (im >> 2 * j & 3)] for g in range(0, width, 4) for j in range(4)]
        elif b in ("shufpd",):
            im, r = rest[0], []
            for g in range(0, width, 4):
                for j, s in enumerate((a, c)):
                    k = im >> (g // 2 + j) & 1
                    r += s[g + 2 * k:g + 2 * k + 2]
        elif b in ("blendps", "pblendd"):
            r = [c[j] if rest[0] >> j & 1 else a[j] for j in range(width)]
        elif b == "pblendw":
            p, q, out = self.split(a), self.split(c), []
            for k in range(2 * width):
                out += (q if rest[0] >> k % 8 & 1 else p)[2 * k:2 * k + 2]
            r = self.join(out)
        elif b in ("perm2i128", "perm2f128"):
            im, r = rest[0], []
            for j in range(2):
                k = im >> 4 * j
                r += [0] * 4 if k & 8 else (a, a, c, c)[k & 3][4 * (k & 1):4 * (k & 1) + 4]
        elif b == "permd":
            r = []
            for k in a:
                if not isinstance(k, int):
                    raise CanonError("lanes chosen by data")
                r.append(c[k & 7])
        else:
            raise AnalysisError("instruction %s" % x.where)
        self.setvec(f, dst, r, vex)

    def sha(self, st, f, x, b, ops, v):
        """Intel SHA extensions, lanes numbered from the least significant."""
        D = self.dom
        a = [f.vec[ops[0].i, j] for j in range(4)]
        c = v(ops[1], 4)
        if any(e is GARB for e in a[3:] + c) or b not in ("sha1nexte",) and any(e is GARB for e in a):
            vals = [GARB] * 4
            return self.setvec(f, ops[0], vals, False)
        W = [self.word(32, e) if e is not GARB else GARB for e in a]
        S = [self.word(32, e) for e in c]

        def rol(e, k):
            return D.rotl(32, e, k)

        def add(*es):
            r = es[0]
            for e in es[1:]:
                r = D.add(32, r, e)
            return r

        def xor(*es):
            r = es[0]
            for e in es[1:]:
                r = D.xor(32, r, e)
            return r
        if b == "sha1nexte":
            r = S[:3] + [add(S[3], rol(W[3], 30))]
        elif b == "sha1msg1":
            # dst = w0..w3 from the top, src top half = w4, w5
            r = [xor(W[0], W[2]), xor(W[1], W[3]), xor(W[2], S[0]), xor(W[3], S[1])]
            w0, w1, w2, w3, w4, w5 = W[3], W[2], W[1], W[0], S[3], S[2]
            r = [xor(w5, w3), xor(w4, w2), xor(w3, w1), xor(w2, w0)]
        elif b == "sha1msg2":
            w13, w14, w15 = S[2], S[1], S[0]
            w16 = rol(xor(W[3], w13), 1)
            w17 = rol(xor(W[2], w14), 1)
            w18 = rol(xor(W[1], w15), 1)
            w19 = rol(xor(W[0], w16), 1)
            r = [w19, w18, w17, w16]
        elif b == "sha1rnds4":
            fn = ops[2] & 3
            K = (0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6)[fn]

            def F(p, q, s):
                if fn == 0:
                    return xor(D.and_(32, p, q), D.and_(32, xor(p, 0xffffffff), s))
                if fn == 2:
                    return xor(D.and_(32, p, q), D.and_(32, p, s), D.and_(32, q, s))
                return xor(p, q, s)
            A, B, C, Dd, E = W[3], W[2], W[1], W[0], None
            for i in range(4):
                t = add(F(B, C, Dd), rol(A, 5), S[3 - i], K)
                if E is not None:
                    t = add(t, E)
                A, B, C, Dd, E = t, A, rol(B, 30), C, Dd
            r = [Dd, C, B, A]
        elif b == "sha256msg1":
            def s0(e):
                return xor(rol(e, 32 - 7), rol(e, 32 - 18), D.lshr(32, e, 3))
            nxt = W[1:] + [S[0]]
            r = [add(W[i], s0(nxt[i])) for i in range(4)]
        elif b == "sha256msg2":
            def s1(e):
                return xor(rol(e, 32 - 17), rol(e, 32 - 19), D.lshr(32, e, 10))
            w16 = add(W[0], s1(S[2]))
            w17 = add(W[1], s1(S[3]))
            r = [w16, w17, add(W[2], s1(w16)), add(W[3], s1(w17))]
        else:
            k = [f.vec[0, 0], f.vec[0, 1]]
            if any(e is GARB for e in k):
                return self.setvec(f, ops[0], [GARB] * 4, False)
            A, B, E, F_ = S[3], S[2], S[1], S[0]
            C, Dd, G, H = W[3], W[2], W[1], W[0]
            for i in range(2):
                ch = xor(D.and_(32, E, F_), D.and_(32, xor(E, 0xffffffff), G))
                mj = xor(D.and_(32, A, B), D.and_(32, A, C), D.and_(32, B, C))
                t1 = add(ch, xor(rol(E, 26), rol(E, 21), rol(E, 7)), self.word(32, k[i]), H)
                t2 = add(mj, xor(rol(A, 30), rol(A, 19), rol(A, 10)))
                A, B, C, Dd, E, F_, G, H = add(t1, t2), A, B, C, add(t1, Dd), E, F_, G
            r = [F_, E, B, A]
        self.setvec(f, ops[0], r, False)


def f_src(ops, vex):
    return ops[1] if vex else ops[0]


# ---- extensions ---------------------------------------------------------------------------------------------------
SSSE3 = {"pshufb", "palignr", "phaddd", "pabsd", "psignd", "pmaddubsw"}
SSE41 = {"pblendw", "pinsrd", "pinsrq", "pinsrb", "pextrd", "pextrq", "pextrb", "ptest", "blendps", "pmulld", "movntdqa", "pmuldq", "pmaxud", "pminud"}
SSE3 = {"lddqu", "movddup", "movshdup", "movsldup", "haddps"}
AVX1_YMM = {"movdqa", "movdqu", "movaps", "movups", "movapd", "movupd", "xorps", "xorpd", "andps", "orps", "andnps", "broadcastf128",
            "insertf128", "extractf128", "perm2f128", "shufps", "shufpd", "unpcklps", "unpckhps", "unpcklpd", "unpckhpd", "permilps",
            "lddqu", "movntdq", "movntps", "broadcastss", "zeroupper", "zeroall", "blendps", "ptest"}
AVX2_XMM = {"pbroadcastd", "pbroadcastq", "pbroadcastb", "pbroadcastw", "pblendd", "psllvd", "psrlvd", "broadcasti128", "inserti128",
            "extracti128", "perm2i128", "permq", "permd"}


def needs(mn, width):
    """the extension an instruction belongs to beyond x86-64's own (sse_1, sse_2)."""
    if mn.startswith("sha1"):
        return "sha_1"
    if mn.startswith("sha256"):
        return "sha_2"
    if mn in ("vzeroupper", "vzeroall"):
        return "avx_1"
    if not width:
        return {"rorx": "bmi_2", "andn": "bmi_1", "mulx": "bmi_2", "adcx": "adx", "adox": "adx", "sarx": "bmi_2", "shlx": "bmi_2",
                "shrx": "bmi_2"}.get(mn)
    if mn[0] == "v":
        b = mn[1:]
        if b in AVX2_XMM:
            return "avx_2"
        return "avx_1" if width == 4 or b in AVX1_YMM else "avx_2"
    return "ssse_3" if mn in SSSE3 else "sse_4_1" if mn in SSE41 else "sse_3" if mn in SSE3 else None


# ---- building -------------------------------------------------------------------------------------------------------
def assemble(rel, abi):
    """assemble /repo/src/milo/REL for an ABI and load it."""
    import os
    import build
    src = os.path.join(build.REPO, "src/milo", rel)
    out = os.path.join(build.tmpdir(), os.path.basename(rel) + "." + abi + ".o")
    inc = os.path.join(build.REPO, "src/milo/internal/arch/x86_64/")
    r = build.run(["nasm", "-f", "elf64", "-i", inc, "-DMILO_INTERNAL_ABI_" + abi.upper(), src, "-o", out])
    if r.returncode:
        raise build.BuildError("%s does not assemble:\n%s" % (rel, r.stderr[:2000]))
    text = build.run(["objdump", "-drw", "-M", "intel", "--no-show-raw-insn", "-j", ".text", out]).stdout
    heads = build.run(["objdump", "-hw", out]).stdout
    sections = {}
    for line in heads.splitlines():
        m = re.match(r"^\s*\d+\s+(\S+)\s+([0-9a-f]+)\s+\S+\s+\S+\s+\S+\s+2\*\*(\d+)", line)
        if m:
            sections[m.group(1)] = (int(m.group(2), 16), 1 << int(m.group(3)))
    data = {}
    for s, (n, _) in sections.items():
        if s.startswith((".rodata", ".data")) and n:
            b = bytearray()
            for line in build.run(["objdump", "-s", "-j", s, out]).stdout.splitlines():
                m = re.match(r"^ ([0-9a-f]+) ((?:[0-9a-f]{2,8} ?){1,4}) ", line)
                if m:
                    b += bytes.fromhex(m.group(2).replace(" ", ""))
            if len(b) != n:
                raise AnalysisError("section %s: %d bytes of %d read" % (s, len(b), n))
            data[s] = bytes(b)
    syms = {}
    for line in build.run(["objdump", "-tw", out]).stdout.splitlines():
        m = re.match(r"^([0-9a-f]+) g\s.*\s\.text\s+[0-9a-f]+\s+(\S+)$", line)
        if m:
            syms[m.group(2)] = int(m.group(1), 16)
    return Code(text, sections, data, syms, rel)


def files():
    """the assembly files of this architecture, relative to src/milo."""
    import os
    import build
    root = os.path.join(build.REPO, "src/milo")
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".asm") and f != "abi.asm" and "x86_32" not in d:
                out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)
