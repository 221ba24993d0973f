"""Turn threads into step functions.

The sources and a driver are compiled to LLVM IR, everything is inlined into the thread functions, and each thread
function becomes a C function that runs from one scheduling point (taking a mutex, waiting on a condition, signalling,
running a task, joining) to the next.  The harness then chooses the thread of each step symbolically."""
import os, re, subprocess
import engine

YIELDS = {"apr_thread_mutex_lock": "vp_y_lock", "apr_thread_cond_wait": "vp_y_cond_wait", "apr_thread_cond_timedwait": "vp_y_cond_timedwait",
          "apr_thread_cond_signal": "vp_y_signal", "apr_thread_cond_broadcast": "vp_y_broadcast", "apr_thread_join": "vp_y_join", "apr_thread_yield": "vp_y_yield"}
# with finer steps: others may act between a release and what follows it, and between the last look and the wait
FINE = {"apr_thread_mutex_unlock": "vp_y_unlock"}
PRE = {"apr_thread_cond_wait", "apr_thread_cond_timedwait"}
DROP = {"vp_fprintf", "vp_printf", "vp_fflush", "apr_strerror", "vp_puts", "vp_fputs"}
INT = {"i1": "uint8_t", "i8": "uint8_t", "i16": "uint16_t", "i32": "uint32_t", "i64": "uint64_t"}
SINT = {"i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t"}


class Unsupported(Exception):
    pass


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.structs, self.funcs, self.globals = {}, {}, {}
        cur = None
        for l in text.splitlines():
            m = re.match(r"(%[\w.]+) = type \{(.*)\}", l)
            if m:
                self.structs[m.group(1)] = split_top(m.group(2))
                continue
            m = re.match(r"@([\w.]+) = .*?(global|constant) (.*)", l)
            if m and cur is None:
                self.globals[m.group(1)] = m.group(3)
                continue
            m = re.match(r"define .*?@([\w.]+)\((.*?)\)[^{]*\{", l)
            if m:
                cur = (m.group(1), m.group(2), [])
                continue
            if l.startswith("}"):
                self.funcs[cur[0]] = cur
                cur = None
                continue
            if cur is not None:
                cur[2].append(l)

    def size(self, t):
        """(size, alignment)"""
        if t in INT:
            n = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8}[t]
            return n, n
        if t == "ptr":
            return 8, 8
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            s, a = self.size(m.group(2))
            return int(m.group(1)) * s, a
        if t in self.structs:
            off, al = 0, 1
            for f in self.structs[t]:
                s, a = self.size(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("type " + t)

    def ctype(self, t):
        if t in INT:
            return INT[t]
        if t == "ptr":
            return "char *"
        if t in self.structs:
            return "struct S_" + re.sub(r"\W", "_", t[1:])
        raise Unsupported("type " + t)

    def decl(self, t, name):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            return self.decl(m.group(2), "%s[%s]" % (name, max(1, int(m.group(1)))))
        return "%s %s" % (self.ctype(t), name)


def type_prefix(s):
    """'i32 noundef %3' -> ('i32', '%3')"""
    s = s.strip()
    if s[0] == "[":
        d = 0
        for i, ch in enumerate(s):
            d += ch == "["
            d -= ch == "]"
            if d == 0:
                break
        t, rest = s[:i + 1], s[i + 1:]
    else:
        m = re.match(r"(%[\w.]+|\w+)\s*(.*)", s)
        t, rest = m.group(1), m.group(2)
    rest = re.sub(r"\b(noundef|nonnull|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|nocapture|readonly|immarg|signext|zeroext|returned|noalias|writeonly)(?=\s|$)", "", rest).strip()
    return t, rest


class Thread:
    def __init__(self, mod, name, prefix, ctx):
        self.m, self.p, self.ctx = mod, prefix, ctx
        self.name, args, lines = mod.funcs[name]
        self.args = []
        for a in split_top(args):
            self.args.append(type_prefix(a))
        self.blocks = [("entry", [])]
        first = len(self.args)
        for l in lines:
            l = l.split(" ; ")[0].rstrip()
            if not l.strip():
                continue
            g = re.match(r"([\w.$-]+):", l)
            if g and not l.startswith(" "):
                self.blocks.append((g.group(1), []))
                continue
            l = re.sub(r", ![\w.]+ ![0-9]+", "", l.strip())
            self.blocks[-1][1].append(l)
        # switch instructions span lines
        for i, (b, ls) in enumerate(self.blocks):
            out = []
            for l in ls:
                if out and out[-1].startswith("switch") and not out[-1].endswith("]"):
                    out[-1] += " " + l
                else:
                    out.append(l)
            self.blocks[i] = (b, out)
        self.entry_label = str(first)
        self.vtype = {}
        self.stat = set()
        self.decls, self.body = [], []
        self.npc = 0
        self.tmp = 0

    # --- values ---
    def var(self, v):
        return "%s_%s" % (self.p, re.sub(r"\W", "_", v[1:]))

    def lab(self, l):
        l = l.lstrip("%")
        if l == self.entry_label:
            l = "entry"
        return "%s_L_%s" % (self.p, re.sub(r"\W", "_", l))

    def val(self, t, v):
        v = v.strip()
        if v.startswith("%"):
            return self.var(v)
        if v in ("null",):
            return "((char *) 0)"
        if v in ("undef", "poison"):
            return "0" if t != "ptr" else "((char *) 0)"
        if v == "zeroinitializer":
            return "0"
        if v == "true":
            return "1"
        if v == "false":
            return "0"
        if v.startswith("@"):
            return self.ctx.glob(v[1:])
        if re.match(r"-?\d+$", v):
            n = int(v)
            if n < 0:
                n += 1 << (8 * self.m.size(t)[0])
            return "%dull" % n if t == "i64" else "%du" % n
        g = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", v)
        if g:
            return self.gep(g.group(1))
        g = re.match(r"inttoptr \((i64) (-?\d+) to ptr\)$", v)
        if g:
            return "((char *) %s)" % self.val("i64", g.group(2))
        raise Unsupported("value %s %s" % (t, v))

    def gep(self, s):
        parts = split_top(s)
        base_t = parts[0]
        pt, pv = type_prefix(parts[1])
        p = self.val("ptr", pv)
        idx = [type_prefix(x) for x in parts[2:]]
        ty = base_t
        def n(t, v):
            return int(v) if re.match(r"-?\d+$", v) else None
        k = n(*idx[0])
        def c(t):
            m = re.match(r"\[(\d+) x (.*)\]$", t)
            if m:
                return None
            return self.m.ctype(t)
        if k == 0 and len(idx) == 1:
            return p
        if len(idx) == 1:
            ix = str(k) if k is not None else "(int64_t) %s" % self.val(*idx[0]) if idx[0][0] == "i64" else "(int32_t) %s" % self.val(*idx[0])
            if c(ty):
                return "((char *) ((%s *) %s + %s))" % (c(ty), p, ix)
            return "(%s + %d * (%s))" % (p, self.m.size(ty)[0], ix)
        if k != 0:
            p = "(%s + %d * (%s))" % (p, self.m.size(ty)[0], k if k is not None else "(int64_t) " + self.val(*idx[0]))
        e = p
        for t, v in idx[1:]:
            k = n(t, v)
            if ty in self.m.structs:
                e = "((char *) &((%s *) %s)->f%d)" % (self.m.ctype(ty), e, k)
                ty = self.m.structs[ty][k]
            else:
                m = re.match(r"\[(\d+) x (.*)\]$", ty)
                if not m:
                    raise Unsupported("gep into " + ty)
                ty = m.group(2)
                ix = str(k) if k is not None else ("(int64_t) " + self.val(t, v) if t == "i64" else "(int32_t) " + self.val(t, v))
                if c(ty):
                    e = "((char *) ((%s *) %s + %s))" % (c(ty), e, ix)
                else:
                    e = "(%s + %d * (%s))" % (e, self.m.size(ty)[0], ix)
        return e

    # --- translation ---
    def define(self, v, t):
        self.vtype[v] = t
        name = self.var(v)
        return name

    def edge(self, frm, to):
        """phi copies for the edge, then the jump"""
        copies = []
        for l in self.block[to.lstrip("%") if to.lstrip("%") != self.entry_label else "entry"]:
            g = re.match(r"(%[\w.]+) = phi (\S+|\[.*?\]) (.*)", l)
            if not g:
                break
            t = g.group(2)
            for arm in re.findall(r"\[ (.*?), %([\w.$-]+) \]", g.group(3)):
                if arm[1] == frm or (frm == "entry" and arm[1] == self.entry_label):
                    copies.append((g.group(1), t, self.val(t, arm[0])))
        out = ""
        if len(copies) == 1:
            out += "%s = %s; " % (self.var(copies[0][0]), copies[0][2])
        elif copies:
            for i, (v, t, e) in enumerate(copies):
                out += "%s vt%d = %s; " % (self.m.ctype(t), i, e)
            for i, (v, t, e) in enumerate(copies):
                out += "%s = vt%d; " % (self.var(v), i)
        return "{ %sgoto %s; }" % (out, self.lab(to))

    def emit(self, s):
        self.body.append("    " + s)

    def do_yield(self, cond=""):
        self.npc += 1
        self.emit("%s{ %s_pc = %d; return; } %s_Y%d: ;" % (cond, self.p, self.npc, self.p, self.npc))

    def call(self, dst, t, callee, args):
        a = [type_prefix(x) for x in args]
        name = callee[1:] if callee.startswith("@") else None
        if name and (name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name.startswith("llvm.assume") or name.startswith("llvm.experimental.noalias")):
            return
        def setres(e):
            if dst:
                self.emit("%s = (%s) %s;" % (self.define(dst, t), self.m.ctype(t), e))
            else:
                self.emit("(void) %s;" % e)
        if name and name.startswith("llvm.memset"):
            if a[0][1] not in self.used:
                return
            self.emit("__builtin_memset(%s, (int) %s, %s);" % (self.val("ptr", a[0][1]), self.val("i8", a[1][1]), self.val("i64", a[2][1])))
            return
        if name and name.startswith("llvm.memcpy"):
            self.emit("__builtin_memcpy(%s, %s, %s);" % (self.val("ptr", a[0][1]), self.val("ptr", a[1][1]), self.val("i64", a[2][1])))
            return
        if name and name.startswith("llvm."):
            raise Unsupported(name)
        if name in DROP:
            if dst:
                self.emit("%s = 0;" % self.define(dst, t))
            return
        vals = [self.val(x[0], x[1]) for x in a]
        if name in ("apr_palloc", "apr_pcalloc", "malloc", "calloc"):
            if name == "calloc":
                vals = ["0", "%s * %s" % (vals[0], vals[1])]
            if name == "malloc":
                vals = ["0", vals[0]]
            sz = a[-1][1]
            setres(self.ctx.alloc(name, vals, int(sz) if re.match(r"\d+$", sz) else None))
            return
        if name is None or name == "vp_task":
            # a task is run
            fn = self.val("ptr", callee) if name is None else "((char *) &vp_task)"
            self.emit("vp_y_task_begin(%s, %s, %s);" % (fn, vals[0] if vals else "0", vals[1] if len(vals) > 1 else "0"))
            self.do_yield()
            setres("vp_y_task_end()") if dst else self.emit("vp_y_task_end();")
            return
        if name in YIELDS or (self.ctx.fine and name in FINE):
            fn = YIELDS.get(name) or FINE[name]
            if self.ctx.fine and name in PRE:
                self.emit("vp_y_prewait();")
                self.do_yield()
            self.emit("%s(%s);" % (fn, ", ".join(vals)))
            self.do_yield("if (!vp_y_locked()) " if fn in ("vp_y_signal", "vp_y_broadcast") else "")
            r = "%s_done()" % fn
            setres(r) if dst else self.emit("(void) %s;" % r)
            return
        if name == "apr_thread_create":
            fn = a[2][1].lstrip("@")
            self.ctx.thread_fn(fn)
            self.emit("/* a new thread */")
            setres("vp_y_thread_create(%s, %s)" % (vals[0], vals[3]))
            return
        self.ctx.externs.setdefault(name, (t, [x[0] for x in a]))
        if t == "void":
            self.emit("%s(%s);" % (name, ", ".join(vals)))
        else:
            setres("%s(%s)" % (name, ", ".join(vals)))

    def inst(self, bname, l):
        l = re.sub(r",? #\d+$", "", l)
        g = re.match(r"(%[\w.]+) = (.*)", l)
        dst, r = (g.group(1), g.group(2)) if g else (None, l)
        op = r.split()[0]
        if op in ("tail", "musttail", "notail"):
            r = r[len(op) + 1:]
            op = r.split()[0]
        if op == "alloca":
            t = split_top(r[7:])[0]
            if dst not in self.used:
                return
            nm = self.var(dst) + "_mem"
            self.decls.append("static %s;" % self.m.decl(t, nm))
            self.vtype[dst] = "ptr"
            self.stat.add(dst)
            self.emit("%s = (char *) &%s;" % (self.var(dst), nm))
        elif op == "load":
            r = r.replace("load volatile", "load").replace("load atomic", "load")
            p = split_top(r[5:])
            t = p[0]
            self.emit("%s = *(%s *) %s;" % (self.define(dst, t), self.m.ctype(t), self.val("ptr", type_prefix(p[1])[1].split()[0] if not "(" in p[1] else type_prefix(p[1])[1])))
        elif op == "store":
            r = r.replace("store volatile", "store").replace("store atomic", "store")
            p = split_top(r[6:])
            t, v = type_prefix(p[0])
            self.emit("*(%s *) %s = %s;" % (self.m.ctype(t), self.val("ptr", type_prefix(p[1])[1]), self.val(t, v)))
        elif op == "getelementptr":
            self.emit("%s = %s;" % (self.define(dst, "ptr"), self.gep(re.sub(r"^getelementptr (inbounds )?", "", r))))
        elif op == "icmp":
            g = re.match(r"icmp (?:samesign )?(\w+) (\S+) (.*), (.*)", r)
            cc, t = g.group(1), g.group(2)
            x, y = self.val(t, g.group(3)), self.val(t, g.group(4))
            o = {"eq": "==", "ne": "!=", "ugt": ">", "uge": ">=", "ult": "<", "ule": "<=", "sgt": ">", "sge": ">=", "slt": "<", "sle": "<="}[cc]
            if cc[0] == "s":
                x, y = "(%s) %s" % (SINT[t], x), "(%s) %s" % (SINT[t], y)
            self.emit("%s = %s %s %s;" % (self.define(dst, "i1"), x, o, y))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "udiv", "urem"):
            g = re.match(r"\w+ ((?:nuw |nsw |exact |disjoint )*)(\S+) (.*), (.*)", r)
            t = g.group(2)
            o = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "lshr": ">>", "udiv": "/", "urem": "%"}[op]
            e = "(%s) (%s %s %s)" % (self.m.ctype(t), self.val(t, g.group(3)), o, self.val(t, g.group(4)))
            if t == "i1":
                e = "(%s) & 1" % e
            self.emit("%s = %s;" % (self.define(dst, t), e))
        elif op in ("zext", "trunc", "sext", "ptrtoint", "inttoptr", "bitcast"):
            g = re.match(r"\w+ (?:nneg |nuw |nsw )*(\S+) (.*) to (\S+)", r)
            ft, tt = g.group(1), g.group(3)
            v = self.val(ft, g.group(2))
            if op == "sext":
                e = "(%s) (%s) %s" % (INT[tt], SINT[tt], "(%s) %s" % (SINT[ft], v) if ft != "i1" else "(%s ? -1 : 0)" % v)
            elif op == "trunc" and tt == "i1":
                e = "%s & 1" % v
            elif op == "ptrtoint":
                e = "(%s) (uintptr_t) %s" % (INT[tt], v)
            elif op == "inttoptr":
                e = "(char *) (uintptr_t) %s" % v
            else:
                e = "(%s) %s" % (self.m.ctype(tt), v)
            self.emit("%s = %s;" % (self.define(dst, tt), e))
        elif op == "freeze":
            t, v = type_prefix(r[7:])
            self.emit("%s = %s;" % (self.define(dst, t), self.val(t, v)))
        elif op == "select":
            p = split_top(r[7:])
            c = self.val("i1", type_prefix(p[0])[1])
            t, x = type_prefix(p[1])
            _, y = type_prefix(p[2])
            self.emit("%s = %s ? %s : %s;" % (self.define(dst, t), c, self.val(t, x), self.val(t, y)))
        elif op == "phi":
            g = re.match(r"phi (\S+) ", r)
            self.define(dst, g.group(1))
        elif op == "br":
            g = re.match(r"br label (%\S+)", r)
            if g:
                self.emit(self.edge(bname, g.group(1)))
            else:
                g = re.match(r"br i1 (.*), label (%\S+), label (%\S+)", r)
                self.emit("if (%s) %s else %s" % (self.val("i1", g.group(1)), self.edge(bname, g.group(2)), self.edge(bname, g.group(3))))
        elif op == "switch":
            g = re.match(r"switch (\S+) (\S+), label (%\S+) \[(.*)\]", r)
            t, v = g.group(1), self.val(g.group(1), g.group(2))
            for c in re.findall(r"\S+ (-?\d+), label (%\S+)", g.group(4)):
                self.emit("if (%s == %s) %s" % (v, self.val(t, c[0]), self.edge(bname, c[1])))
            self.emit(self.edge(bname, g.group(3)))
        elif op == "ret":
            self.emit("%s_pc = -1; vp_y_finished(%d); return;" % (self.p, self.ctx.tid))
        elif op == "unreachable":
            self.emit("return;")
        elif op == "call":
            r2 = re.sub(r"^call (?:(?:fastcc|noundef|nonnull|zeroext|signext|noalias) )*", "", r)
            g = re.match(r"(\S+)(?: \([^()]*\))? (@[\w.]+|%[\w.]+)\((.*)\)$", r2)
            if not g:
                raise Unsupported(l)
            self.call(dst, g.group(1), g.group(2), split_top(g.group(3)))
        else:
            raise Unsupported(l)

    def run(self):
        self.block = dict(self.blocks)
        # buffers that only dropped calls see, and values that do not outlive a step
        self.used, where, where_def = set(), {}, {}
        for b, ls in self.blocks:
            y = 0
            for l in ls:
                g = re.match(r"(%[\w.]+) = (.*)", l)
                dst, r = (g.group(1), g.group(2)) if g else (None, l)
                g = re.search(r"\bcall .*?(@[\w.]+|%[\w.]+)\(", r)
                name = g.group(1).lstrip("@") if g and " = " not in g.group(1) else None
                names = set(re.findall(r"%[\w.]+", r))
                if self.ctx.fine and name in PRE:
                    y += 1
                if name and (name in DROP or name.startswith(("llvm.lifetime", "llvm.memset"))):
                    pass
                else:
                    self.used |= names
                phi = r.startswith("phi ")
                for n in names:
                    where.setdefault(n, set()).add(None if phi else (b, y))
                if dst:
                    where_def[dst] = None if phi else (b, y)
                if name and (name in YIELDS or (self.ctx.fine and name in FINE) or name.startswith("%") or name == "vp_task"):
                    y += 1
                    if dst:
                        where_def[dst] = (b, y)
        self.local = {v for v, w in where_def.items() if w is not None and where.get(v, set()) <= {w}}
        for b, ls in self.blocks:
            self.body.append("%s: ;" % self.lab(b))
            for l in ls:
                self.inst(b, l)
        for t, v in self.args:
            self.vtype[v if v.startswith("%") else "%0"] = t
        # every value is kept across scheduling points
        out = ["static int %s_pc;" % self.p]
        out += self.decls
        for v, t in self.vtype.items():
            if t != "void" and v not in self.local:
                out.append("static %s;" % self.m.decl(t, self.var(v)))
        out.append("static void %s_step(void)\n{" % self.p)
        for v, t in self.vtype.items():
            if t != "void" and v in self.local:
                out.append("    %s;" % self.m.decl(t, self.var(v)))
        out.append("    switch (%s_pc) { case 0: goto %s; %s default: return; }" % (self.p, self.lab("entry"), " ".join("case %d: goto %s_Y%d;" % (k, self.p, k) for k in range(1, self.npc + 1))))
        out += self.body
        out.append("}")
        return "\n".join(out)


class Context:
    def __init__(self, mod):
        self.m, self.externs, self.fns, self.arenas, self.gl = mod, {}, [], {}, {}
        self.tid = 0

    def thread_fn(self, fn):
        if fn not in self.fns:
            self.fns.append(fn)

    def glob(self, name):
        if name.startswith("vp_"):
            return "((char *) &%s)" % name
        if name in self.m.funcs:
            return "((char *) vp_fn_%s)" % re.sub(r"\W", "_", name)
        self.gl[name] = 1
        return "((char *) &G_%s)" % re.sub(r"\W", "_", name)

    def alloc(self, name, vals, size):
        if size is None:
            return "vp_y_alloc(%s)" % vals[1]
        t = next((t for t in self.m.structs if "_IO_" not in t and self.m.size(t)[0] == size), None)
        key = re.sub(r"\W", "_", t[1:]) if t else "bytes_%d" % size
        key = "%s_%d" % (key, len(self.arenas))
        self.arenas[key] = (t, size)
        return "vp_arena_%s()" % key


def generate(sources, driver, defs, work, main="vp_main", nworkers=2, fine=False):
    """Returns the C text of the step functions."""
    lls = []
    for f, red in [(driver, False)] + [(s, True) for s in sources]:
        o = os.path.join(work, "coro_%d_%s.ll" % (len(lls), os.path.basename(f)))
        cmd = ["clang", "-w"] + engine.cppflags() + ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in defs.items()]
        if red:
            cmd += ["-include", os.path.join(engine.LIB, "redirect.h")]
        cmd += ["-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-o", o, f]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise engine.BuildError("clang: " + p.stderr[-1000:])
        t = open(o).read()
        open(o, "w").write(re.sub(r"^(define .*?)( #\d+)", r"\1 alwaysinline\2", re.sub(r"\b(noinline|alwaysinline) ", "", t), flags=re.M))
        lls.append(o)
    a, b = os.path.join(work, "coro_all.ll"), os.path.join(work, "coro_opt.ll")
    for cmd in (["llvm-link", "-S"] + lls + ["-o", a],
                ["opt", "-S", "-passes=internalize,always-inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce",
                 "-internalize-public-api-list=" + main, a, "-o", b]):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise engine.BuildError("%s: %s" % (cmd[0], p.stderr[-1000:]))
    mod = Module(open(b).read())
    ctx = Context(mod)
    ctx.fine = fine
    try:
        parts = [Thread(mod, main, "T0", ctx).run()]
        if len(ctx.fns) != 1:
            raise Unsupported("thread functions: %s" % ctx.fns)
        for k in range(1, nworkers + 1):
            ctx.tid = k
            t = Thread(mod, ctx.fns[0], "T%d" % k, ctx)
            parts.append(t.run())
            arg = t.args[1][1] or "%1"
            parts.append("static void T%d_arg(char *rec) { %s = rec; }" % (k, t.var(arg)))
    except Unsupported as e:
        raise engine.BuildError("the threads cannot be encoded: %s" % e)
    except (AttributeError, KeyError, IndexError) as e:
        raise engine.BuildError("the threads cannot be encoded: %r" % e)
    out = ["#include <stdint.h>"]
    for s in mod.structs:
        if "_IO_" in s:
            continue
        out.append("struct S_%s { %s };" % (re.sub(r"\W", "_", s[1:]), " ".join("%s;" % mod.decl(f, "f%d" % i) for i, f in enumerate(mod.structs[s]))))
    for g in ctx.gl:
        t = mod.globals[g]
        try:
            t = type_prefix(t)[0]
            out.append("static %s;" % mod.decl(t, "G_" + re.sub(r"\W", "_", g)))
        except Unsupported:
            out.append("static char G_%s;" % re.sub(r"\W", "_", g))
    for f in ctx.fns:
        out.append("static char vp_fn_%s[1];" % re.sub(r"\W", "_", f))
    for key, (t, size) in ctx.arenas.items():
        ty = mod.ctype(t) if t else "struct V_%s { uint64_t w[%d]; }" % (key, (size + 7) // 8)
        if not t:
            out.append(ty + ";")
            ty = "struct V_" + key
        out.append("static %s vp_obj_%s; static int vp_num_%s;" % (ty, key, key))
        out.append("static char *vp_arena_%s(void) { VP_ASSUME(!vp_num_%s); vp_num_%s = 1; return (char *) &vp_obj_%s; }" % (key, key, key, key))
    for n, (t, a) in ctx.externs.items():
        if n.startswith("vp_"):
            continue
        out.append("%s %s(%s);" % ("void" if t == "void" else mod.ctype(t), n, ", ".join(mod.ctype(x) for x in a) or "void"))
    out += parts
    return "\n".join(out) + "\n"


def pool_driver(script, nworkers):
    """A caller of the thread pool: A adds a task, W waits, S shuts down."""
    out = ['#include "napr_threadpool.h"', "extern char vp_data[8];", "apr_pool_t *vp_pool(void);", "apr_status_t vp_task(void *ctx, void *data);",
           "void vp_p_add(int i); void vp_p_added(int i, int status); void vp_p_wait(void); void vp_p_waited(int status); void vp_p_down(int status);",
           "void vp_main(void)\n{\n    napr_threadpool_t *tp = 0;", "    if (napr_threadpool_init(&tp, &vp_data[7], %d, vp_task, vp_pool()) != APR_SUCCESS) return;" % nworkers]
    n = 0
    for c in script:
        if c == "A":
            out.append("    vp_p_add(%d); vp_p_added(%d, napr_threadpool_add(tp, &vp_data[%d]));" % (n, n, n))
            n += 1
        elif c == "W":
            out.append("    vp_p_wait(); vp_p_waited(napr_threadpool_wait(tp));")
        else:
            out.append("    vp_p_down(napr_threadpool_shutdown(tp));")
    return "\n".join(out + ["}", ""])


def pool_gen(b, u):
    """For Unit(gen=...): writes the driver and, from the current sources, the step functions; returns (definitions, native sources)."""
    d = b.tmp("_drv.c")
    open(d, "w").write(pool_driver(u.script, u.defs["VP_NW"]))
    return d


def pool_steps(b, u, extra):
    d = pool_gen(b, u)
    w = d + ".d"
    os.makedirs(w)
    g = b.tmp("_gen.c")
    open(g, "w").write(generate([os.path.join(engine.SRC, s) for s in list(u.srcs) + list(extra)], d, u.srcdefs, w, nworkers=u.defs["VP_NW"], fine="VP_FINE" in u.defs))
    return g
