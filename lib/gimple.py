"""Parser for GCC GIMPLE SSA dumps (-fdump-tree-ssa-lineno-asmname).

The dump is the compiler's own, type-checked intermediate representation of /repo's current
sources; nothing here runs the code.  Everything textual about formatting, comments, macro use,
local names, loop syntax etc. is gone at this level.
"""
import os, re, subprocess, sys, tempfile, shutil, functools

REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++-10"
CC = "gcc-10"
BASEFLAGS = ["-DLIBICONV_PLUG", "-w", "-msse2", "-mcx16", "-O0"]


class AnalysisBroken(Exception):
    """The analysis could not be carried out (neither verdict)."""


def compile_dump(src_path, std="c++17", lang="c++", extra=(), noexc=True, defs=()):
    """Compile one translation unit and return the text of its SSA dump."""
    d = tempfile.mkdtemp(prefix="vgimple.")
    try:
        out = os.path.join(d, "x.o")
        dump = os.path.join(d, "x.ssa")
        if lang == "c":
            cmd = [CC, "-std=gnu11"]
        else:
            cmd = [CXX, "-std=" + std]
            if noexc:
                cmd.append("-fno-exceptions")
        cmd += BASEFLAGS + ["-I" + os.path.join(REPO, "include")] + list(extra) + list(defs)
        cmd += ["-c", src_path, "-o", out, "-fdump-tree-ssa-lineno-asmname=" + dump]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode != 0 or not os.path.exists(dump):
            raise AnalysisBroken("compile failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-3000:]))
        with open(dump, encoding="utf8", errors="replace") as f:
            return f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


LOC_RE = re.compile(r"\[([^\[\]\s\"]+:\d+:\d+|0:0)(?: discrim \d+)?\] ?")
HDR_RE = re.compile(r"^;; Function (.*) \(([^\s,()]+), funcdef_no=")


class Func:
    __slots__ = ("name", "mangled", "params", "types", "blocks", "entry", "labels", "preds", "file", "line",
                 "loopheads", "_live", "backedges", "loopbody", "rpo", "text", "static_vars")

    def __repr__(self):
        return "<Func %s>" % self.name


class Block:
    __slots__ = ("id", "phis", "stmts", "succ", "term")

    def __init__(self, id):
        self.id = id
        self.phis = []   # (dst, {pred: expr})
        self.stmts = []  # Stmt
        self.succ = []
        self.term = None


class Stmt:
    __slots__ = ("kind", "a", "loc", "text", "idx")
    # kinds: assign(lhs, rhs) call(lhs, callee, args) if(cond, t, f) goto(b) switch(expr, cases, default)
    #        return(expr) asm(template, outs, ins, clob) nop clobber(lhs) unreachable

    def __init__(self, kind, a, loc, text):
        self.kind, self.a, self.loc, self.text = kind, a, loc, text

    def __repr__(self):
        return "%s:%s" % (self.loc, self.text)


INT_RE = re.compile(r"^-?\d+$")
NAME_RE = re.compile(r"^(?:<retval>(?:_\d+)?|[A-Za-z_$][\w$#]*(?:\.\d+(?:_\d+)?)*)(?:\(D\))?")
BINOPS = ["/[ex]", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<=", ">=", "<", ">", "r<<", "r>>",
          "<>", "unord", "ord", "u<", "u>", "u<=", "u>=", "u==", "w*"]


def _match(s, i, o, c):
    """index just after the bracket matching s[i]==o, honouring strings"""
    d = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            i += 1
            while i < n and s[i] != '"':
                if s[i] == "\\":
                    i += 1
                i += 1
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return -1


def split_top(s, sep=","):
    out, cur, d, i = [], [], 0, 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            j = i + 1
            while j < n and s[j] != '"':
                if s[j] == "\\":
                    j += 1
                j += 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        elif ch == "<" and re.match(r"<[\w(]", s[i:i + 2]) and not (i and s[i - 1] == " " and s[i + 1:i + 2] == " "):
            d += 1
        elif ch == ">" and d > 0 and not (s[i - 1:i] == "-") and not (s[i - 1:i] == " " and s[i + 1:i + 2] == " "):
            d -= 1
        if ch == sep and d == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(ch)
        i += 1
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


class ParseError(Exception):
    pass


SSA_RE = re.compile(r"^(?:<retval>|[A-Za-z_$][\w$#]*(?:\.\d+)*)?_\d+(?:\(D\))?$|^_\d+$")


def is_ssa(n):
    return bool(SSA_RE.match(n))


@functools.lru_cache(maxsize=200000)
def parse_operand(s):
    """operand/reference -> expr tuple

    ('int',n) ('flt',s) ('str',s) ('ssa',name) ('var',name) ('addr',ref) ('deref',ptr,off,type)
    ('fld',ref,name) ('idx',ref,expr) ('view',ref) ('bits',ref,n,o) ('real',x) ('opaque',text)
    """
    e, rest = _prim(s.strip())
    if rest.strip():
        raise ParseError("trailing %r in operand %r" % (rest, s))
    return e


def _postfix(e, s):
    while s:
        if s.startswith("->"):
            m = re.match(r"->(D\.\d+|_vptr\.[\w$]+|[\w$]+)", s)
            if not m:
                raise ParseError(s)
            e = ("fld", ("deref", e, 0, None), m.group(1))
            s = s[m.end():]
        elif s.startswith(".") and not s.startswith("..."):
            m = re.match(r"\.(D\.\d+|_vptr\.[\w$]+|[A-Za-z_$][\w$]*)", s)
            if not m:
                raise ParseError(s)
            e = ("fld", e, m.group(1))
            s = s[m.end():]
        elif s.startswith("["):
            j = _match(s, 0, "[", "]")
            e = ("idx", e, parse_operand(s[1:j - 1].split("{")[0]))
            s = s[j:]
            m = re.match(r"\{lb: .*?\}", s)
            if m:
                s = s[m.end():]
        else:
            break
    return e, s


def _prim(s):
    if not s:
        raise ParseError("empty")
    if s[0] == "&":
        e, r = _prim(s[1:])
        return ("addr", e), r
    if s[0] == "*":
        # *p  (binds looser than postfix in the GIMPLE printer only for (*p))
        m = NAME_RE.match(s[1:])
        if not m:
            e, r = _prim(s[1:])
            return ("deref", e, 0, None), r
        nm = m.group(0)
        e = _name(nm)
        return ("deref", e, 0, None), s[1 + m.end():]
    if s[0] == "(":
        j = _match(s, 0, "(", ")")
        inner = s[1:j - 1]
        if inner.startswith("*"):
            e, r = _prim(inner)
            if not r:
                return _postfix(e, s[j:])
        if s[j:j + 1] == " " or re.match(r"[\w&*(]", s[j:j + 1] or "x"):
            # cast inside an operand
            e, r = _prim(s[j:].strip())
            return ("cast", inner, e), r
        raise ParseError("paren %r" % s)
    if s[0] == '"':
        i = 1
        while s[i] != '"':
            if s[i] == "\\":
                i += 1
            i += 1
        return _postfix(("str", s[1:i]), s[i + 1:])
    if s.startswith("MEM"):
        m = re.match(r"MEM(?: <(.*?)>)? ?\[", s)
        if m:
            i = m.end() - 1
            j = _match(s, i, "[", "]")
            body = s[i + 1:j - 1]
            typ = m.group(1)
            if body.startswith("("):
                k = _match(body, 0, "(", ")")
                typ = typ or body[1:k - 1]
                body = body[k:]
            off = 0
            mm = re.match(r"^(.*?)(?: \+ (-?\d+)B)?$", body)
            p = mm.group(1)
            if mm.group(2):
                off = int(mm.group(2))
            if off >= 1 << 63:
                off -= 1 << 64
            return _postfix(("deref", parse_operand(p), off, typ), s[j:])
    if s.startswith("TARGET_MEM_REF"):
        return ("opaque", s), ""
    m = re.match(r"VIEW_CONVERT_EXPR<", s)
    if m:
        i = _match(s, m.end() - 1, "<", ">")
        j = _match(s, i, "(", ")")
        e = parse_operand(s[i + 1:j - 1])
        return _postfix(("view", e), s[j:])
    m = re.match(r"BIT_FIELD_REF <", s)
    if m:
        i = _match(s, m.end() - 1, "<", ">")
        parts = split_top(s[m.end():i - 1])
        return _postfix(("bits", parse_operand(parts[0]), parts[1], parts[2]), s[i:])
    m = re.match(r"(REALPART_EXPR|IMAGPART_EXPR) <", s)
    if m:
        i = _match(s, m.end() - 1, "<", ">")
        return ("fld", parse_operand(s[m.end():i - 1]), m.group(1)), s[i:]
    m = re.match(r"-?\d+(\.\d*)?(e[+-]\d+)?B?", s)
    if m and m.end() and (s[0].isdigit() or s[0] == "-"):
        t = m.group(0)
        if m.group(1) or m.group(2):
            return ("flt", t), s[m.end():]
        return ("int", int(t.rstrip("B"))), s[m.end():]
    if s.startswith("{"):
        j = _match(s, 0, "{", "}")
        body = s[1:j - 1].strip()
        if body == "CLOBBER":
            return ("clobber",), s[j:]
        if body == "":
            return ("zero",), s[j:]
        return ("ctor", body), s[j:]
    m = NAME_RE.match(s)
    if not m:
        raise ParseError("operand %r" % s)
    nm = m.group(0)
    # names may carry .NN suffixes: name.12_3 ; a trailing ".field" is a field access
    return _postfix(_name(nm), s[m.end():])


def _name(nm):
    if is_ssa(nm):
        return ("ssa", nm)
    return ("var", nm)


@functools.lru_cache(maxsize=200000)
def parse_rhs(s):
    s = s.strip()
    # cast
    if s.startswith("(") and not s.startswith("(*"):
        j = _match(s, 0, "(", ")")
        rest = s[j:].strip()
        if rest:
            return ("cast", s[1:j - 1], parse_operand(rest))
    m = re.match(r"^(MIN_EXPR|MAX_EXPR|ABS_EXPR|ABSU_EXPR|COMPLEX_EXPR|FMA_EXPR|VEC_PERM_EXPR|VEC_COND_EXPR) <(.*)>$", s)
    if m:
        return ("op", m.group(1), tuple(parse_operand(x) for x in split_top(m.group(2))))
    if s.startswith("~"):
        return ("op", "~", (parse_operand(s[1:]),))
    if s.startswith("!"):
        return ("op", "!", (parse_operand(s[1:]),))
    if s.startswith("-") and not re.match(r"^-[\d]", s):
        return ("op", "neg", (parse_operand(s[1:]),))
    # ternary
    toks = _top_tokens(s)
    if len(toks) == 5 and toks[1] == "?" and toks[3] == ":":
        return ("op", "?:", (parse_operand(toks[0]), parse_operand(toks[2]), parse_operand(toks[4])))
    if len(toks) == 3 and toks[1] in BINOPS:
        op = toks[1]
        if op == "/[ex]":
            op = "/"
        return ("op", op, (parse_operand(toks[0]), parse_operand(toks[2])))
    if len(toks) > 5 and "?" in toks:
        i = toks.index("?")
        k = toks.index(":")
        return ("op", "?:", (parse_rhs(" ".join(toks[:i])), parse_rhs(" ".join(toks[i + 1:k])), parse_rhs(" ".join(toks[k + 1:]))))
    return parse_operand(s)


def _top_tokens(s):
    out, cur, i, n = [], "", 0, len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            j = i + 1
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                j += 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if ch in "([{":
            j = _match(s, i, ch, {"(": ")", "[": "]", "{": "}"}[ch])
            cur += s[i:j]
            i = j
            continue
        if ch == "<" and (cur.endswith("MEM") or cur.endswith("VIEW_CONVERT_EXPR") or s[:i].endswith("MEM ") or s[:i].endswith("BIT_FIELD_REF ")
                          or s[:i].endswith("PART_EXPR ") or s.startswith("<retval>", i)):
            j = _match(s, i, "<", ">")
            if s[:i].endswith(" ") and out and not cur:
                cur = out.pop() + " "
            cur += s[i:j]
            i = j
            if s[i:i + 2] == " [" and cur.startswith("MEM"):
                cur += " "
                i += 1
            continue
        if ch == " ":
            if cur:
                out.append(cur)
            cur = ""
            i += 1
            continue
        cur += ch
        i += 1
    if cur:
        out.append(cur)
    return out


CALL_RE = re.compile(r"^(\*?[A-Za-z_.$][\w.$#]*(?:\(D\))?|OBJ_TYPE_REF\(.*?\)) \(")
LHS_SPLIT = re.compile(r"^(.*?) =(?:\{v\})? (.*)$", re.S)


def strip_locs(s):
    """strip [file:l:c] markers outside string literals; return (text, first loc)"""
    first = None
    out = []
    i, n = 0, len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            j = i + 1
            while j < n and s[j] != '"':
                if s[j] == "\\":
                    j += 1
                j += 1
            out.append(s[i:j + 1])
            i = j + 1
            continue
        if ch == "[":
            m = LOC_RE.match(s, i)
            if m:
                if first is None and m.group(1) != "0:0":
                    first = m.group(1)
                i = m.end()
                continue
        out.append(ch)
        i += 1
    return "".join(out), first


def parse_stmt(text, loc):
    t = text.strip()
    t = re.sub(r"^\[(?:LP|MNT) \d+\] ", "", t)
    t = re.sub(r";\s*(\[(?:return slot optimization|tail call|must tail call)\]\s*)+$", " [return slot]" if "return slot" in t[-60:] else "", t)
    t = t.rstrip(";").strip()
    if t.startswith("//") or t == "" or t.startswith("GIMPLE_NOP") or t.startswith("# DEBUG") or t.startswith("GIMPLE_PREDICT"):
        return Stmt("nop", (), loc, t)
    if t.startswith("__asm__"):
        return parse_asm(t, loc)
    if t == "return":
        return Stmt("return", (None,), loc, t)
    if t.startswith("return "):
        return Stmt("return", (parse_rhs(t[7:]),), loc, t)
    if t.startswith("__builtin_unreachable"):
        return Stmt("unreachable", (), loc, t)
    if t.startswith("resx ") or t.startswith("eh_dispatch"):
        return Stmt("resx", (), loc, t)
    lhs = None
    body = t
    m = LHS_SPLIT.match(t)
    if m and not CALL_RE.match(t):
        lhs_s, body = m.group(1), m.group(2)
        if body == "{CLOBBER}":
            return Stmt("clobber", (parse_operand(lhs_s),), loc, t)
        lhs = parse_operand(lhs_s)
    m = CALL_RE.match(body)
    if m:
        i = m.end() - 1
        j = _match(body, i, "(", ")")
        tail = body[j:].strip()
        if tail == "" or tail.startswith("["):
            callee = m.group(1).lstrip("*")
            args = tuple(parse_rhs(a) for a in split_top(body[i + 1:j - 1]))
            return Stmt("call", (lhs, callee, args, "return slot" in tail), loc, t)
    if lhs is None:
        raise ParseError("statement %r" % t)
    return Stmt("assign", (lhs, parse_rhs(body)), loc, t)


def parse_asm(t, loc):
    i = t.index("(")
    body = t[i + 1:t.rindex(")")]
    # split on top-level ':' outside strings
    parts, cur, k, d = [], "", 0, 0
    while k < len(body):
        ch = body[k]
        if ch == '"':
            j = k + 1
            while body[j] != '"':
                if body[j] == "\\":
                    j += 1
                j += 1
            cur += body[k:j + 1]
            k = j + 1
            continue
        if ch in "([":
            d += 1
        if ch in ")]":
            d -= 1
        if ch == ":" and d == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
        k += 1
    parts.append(cur)
    tmpl = parts[0].strip().strip('"')

    def ops(s):
        out = []
        for x in split_top(s):
            m = re.match(r'^(?:\[?\"?\w+\"?\]? (?="))?"([^"]*)" (.*)$', x.strip(), re.S)
            if m:
                e = m.group(2).strip()
                if e.startswith("(") and _match(e, 0, "(", ")") == len(e):
                    e = e[1:-1]
                try:
                    e2 = parse_rhs(e)
                except ParseError:
                    e2 = ("opaque", e)
                out.append((m.group(1), e2))
        return tuple(out)
    outs = ops(parts[1]) if len(parts) > 1 else ()
    ins = ops(parts[2]) if len(parts) > 2 else ()
    clob = tuple(re.findall(r'"([^"]*)"', parts[3])) if len(parts) > 3 else ()
    return Stmt("asm", (tmpl, outs, ins, clob), loc, t)


def parse_dump(text):
    """-> dict mangled -> Func"""
    funcs = {}
    lines = text.split("\n")
    i, n = 0, len(lines)
    while i < n:
        m = HDR_RE.match(lines[i])
        if not m:
            i += 1
            continue
        j = i + 1
        while j < n and lines[j] != "}":
            j += 1
        f = parse_func(m.group(1), m.group(2), lines[i + 1:j])
        if f is not None:
            funcs[f.mangled] = f
        i = j + 1
    return funcs


def parse_func(name, mangled, lines):
    f = Func()
    f.name, f.mangled = name, mangled
    f.params, f.types, f.blocks, f.labels = [], {}, {}, {}
    f.file = f.line = None
    f.loopheads = None
    f._live = None
    f.static_vars = set()
    k = 0
    while k < len(lines) and lines[k] != "{":
        k += 1
    sig = " ".join(l for l in lines[:k] if l.strip() and not l.startswith(";;") and not l.startswith("__attribute__"))
    sig, _ = strip_locs(sig)
    # parameters: after the last top-level '(' group
    j = sig.rfind(")")
    d = 0
    i = j
    while i >= 0:
        if sig[i] == ")":
            d += 1
        elif sig[i] == "(":
            d -= 1
            if d == 0:
                break
        i -= 1
    for p in split_top(sig[i + 1:j]) if i >= 0 else []:
        m = re.match(r"^(.*?)\b([\w$.]+|<retval>)$", p)
        fm = re.match(r"^(.*\(\*+\s*(?:const )?)([\w$.]+)(\).*)$", p)
        tail = re.match(r"^(.*\(\*.*\)(?:\s*(?:&|\*|const\b|&&))*)\s*([A-Za-z_$][\w$.]*)$", p)
        if tail:
            f.params.append((tail.group(2), tail.group(1)))
            f.types[tail.group(2)] = tail.group(1)
        elif fm:
            f.params.append((fm.group(2), p))
            f.types[fm.group(2)] = p
        elif m:
            ty, nm = m.group(1).strip(), m.group(2)
            if ty == "" or nm in ("int", "char", "long", "unsigned", "bool", "float", "double"):
                ty, nm = p, "<anon%d>" % len(f.params)
            f.params.append((nm, ty))
            f.types[nm] = ty
        else:
            f.params.append(("<anon%d>" % len(f.params), p))
    k += 1
    # declarations
    while k < len(lines) and not lines[k].lstrip().startswith("<bb "):
        l = lines[k].strip()
        k += 1
        if not l.endswith(";"):
            continue
        l, _ = strip_locs(l[:-1])
        if l.startswith("static ") or l.startswith("extern "):
            mm = re.match(r"^(?:static|extern) (.*?)\b([\w$.]+)(\[.*)?$", l.split("[value-expr")[0].split(" = ")[0].strip())
            if mm:
                f.static_vars.add(mm.group(2))
            continue
        l = re.sub(r" \[value-expr:.*\]$", "", l)
        l = l.split(" = ")[0]
        m = re.match(r"^(.*?)\s*([A-Za-z_$<][\w$.>]*)((?:\[[^\]]*\])*)$", l)
        if m and m.group(1):
            f.types[m.group(2)] = m.group(1) + m.group(3)
        else:
            m = re.match(r"^(.*)\(\*+\s*(?:const )?([\w$.]+)\)(.*)$", l)
            if m:
                f.types[m.group(2)] = m.group(1) + "(*)" + m.group(3)
    # body
    cur = None
    pend = None
    body = []
    while k < len(lines):
        l = lines[k]
        k += 1
        s = l.strip()
        if pend is not None:
            pend += "\n" + s
            if _asm_complete(pend):
                body.append(pend)
                pend = None
            continue
        if "__asm__" in s and not _asm_complete(s):
            pend = s
            continue
        body.append(s)
    i = 0
    while i < len(body):
        s = body[i]
        i += 1
        if not s:
            continue
        m = re.match(r"^<bb (\d+)> (?:\[[^\]]*\] )?:", s)
        if m:
            b = Block(int(m.group(1)))
            if cur is not None and cur.term is None:
                cur.succ = [b.id]
                cur.term = Stmt("goto", (b.id,), None, "fallthru")
            f.blocks[b.id] = b
            if cur is None:
                f.entry = b.id
            cur = b
            continue
        if cur is None:
            continue
        ph = re.match(r"^# (\S+) = PHI <(.*)>$", s)
        if ph:
            inner, _ = strip_locs(ph.group(2))
            d = {}
            for x in split_top(inner):
                m = re.match(r"^(.*)\((\d+)\)$", x)
                d[int(m.group(2))] = parse_operand(m.group(1))
            cur.phis.append((ph.group(1), d))
            continue
        if s.startswith("# "):
            continue
        m = re.match(r"^(?:\[[^\]]*\] )?(<L\d+>|[A-Za-z_]\w*|<D\.\d+>):$", s)
        if m:
            f.labels[m.group(1)] = cur.id
            continue
        m = re.match(r"^(?:\[[^\]]*\] )?(<L\d+>|<D\.\d+>|[A-Za-z_]\w*): \[.*\]$", s)
        if m and " " not in m.group(1):
            f.labels[m.group(1)] = cur.id
            continue
        txt, loc = strip_locs(s)
        txt = txt.strip()
        if f.file is None and loc and not txt.startswith("//"):
            f.file, f.line = loc.split(":")[0], int(loc.split(":")[1])
        m = re.match(r"^if \((.*)\)$", txt)
        if m:
            t1, _ = strip_locs(body[i])
            t2, _ = strip_locs(body[i + 1])
            t3, _ = strip_locs(body[i + 2])
            a = int(re.search(r"<bb (\d+)>", t1).group(1))
            b_ = int(re.search(r"<bb (\d+)>", t3).group(1))
            i += 3
            cur.term = Stmt("if", (parse_rhs(m.group(1)), a, b_), loc, txt)
            cur.succ = [a, b_]
            continue
        m = re.match(r"^goto <bb (\d+)>;", txt)
        if m:
            cur.term = Stmt("goto", (int(m.group(1)),), loc, txt)
            cur.succ = [int(m.group(1))]
            continue
        m = re.match(r"^switch \((.*)\) <(.*)>$", txt)
        if m:
            cases, dflt = [], None
            for c in split_top(m.group(2)):
                mm = re.match(r"^default: (\S+)", c)
                if mm:
                    dflt = mm.group(1)
                    continue
                mm = re.match(r"^case (-?\d+)(?: \.\.\. (-?\d+))?: (\S+)", c)
                lo = int(mm.group(1))
                hi = int(mm.group(2) or lo)
                cases.append((lo, hi, mm.group(3)))
            cur.term = Stmt("switch", (parse_operand(m.group(1)), cases, dflt), loc, txt)
            continue
        if txt.startswith("goto "):
            # computed goto / label goto
            m = re.match(r"^goto (<?[\w.]+>?);", txt)
            cur.term = Stmt("gotolabel", (m.group(1) if m else txt,), loc, txt)
            continue
        try:
            st = parse_stmt(txt, loc)
        except (ParseError, AttributeError, IndexError, ValueError) as e:
            st = Stmt("opaque", (txt,), loc, txt)
        if st.kind == "nop":
            continue
        if st.kind == "return" or st.kind in ("unreachable", "resx"):
            cur.term = st
            cur.succ = []
            continue
        cur.stmts.append(st)
    if cur is None:
        return None
    for b in f.blocks.values():
        if b.term is None:
            b.term = Stmt("unreachable", (), None, "noreturn")
            b.succ = []
        elif b.term.kind == "switch":
            e, cases, dflt = b.term.a
            # at the ssa pass switch labels are printed either as <Ln> or <bb n>
            def res(x):
                m = re.match(r"<bb (\d+)>", x)
                return f.labels.get(x) if x in f.labels else f.labels.get(x.strip("<>"))
            cs = [(lo, hi, res(l)) for lo, hi, l in cases]
            dv = res(dflt)
            b.term = Stmt("switch", (e, tuple(cs), dv), b.term.loc, b.term.text)
            b.succ = list(dict.fromkeys([c[2] for c in cs] + [dv]))
        elif b.term.kind == "gotolabel":
            t = f.labels.get(b.term.a[0])
            b.term = Stmt("goto", (t,), b.term.loc, b.term.text)
            b.succ = [t]
        for k2, st in enumerate(b.stmts):
            st.idx = k2
    # a block that ends in a noreturn call and "falls through" must not have a successor
    for b in f.blocks.values():
        for st in b.stmts:
            if st.kind == "call" and st.a[1] in NORETURN:
                b.succ = []
                b.term = Stmt("unreachable", (), st.loc, "noreturn")
                break
    f.preds = {b: [] for b in f.blocks}
    for b in f.blocks.values():
        for s in b.succ:
            f.preds[s].append(b.id)
    return f


NORETURN = {"__assert_fail", "_Z12verif_thrownv", "abort", "exit", "_exit", "__builtin_unreachable", "__builtin_trap", "_ZSt9terminatev",
            "_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc",
            "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt25__throw_bad_function_callv",
            "_ZSt20__throw_system_errori", "__cxa_throw", "__cxa_rethrow", "__cxa_pure_virtual", "_ZSt16__throw_bad_castv",
            "_ZSt28__throw_bad_array_new_lengthv", "__cxa_throw_bad_array_new_length", "_ZSt24__throw_invalid_argumentPKc"}


def _asm_complete(s):
    # quotes balanced and ends with ");"
    q, i = False, 0
    while i < len(s):
        if s[i] == "\\" and q:
            i += 2
            continue
        if s[i] == '"':
            q = not q
        i += 1
    return (not q) and s.rstrip().endswith(");")


def analyse_cfg(f):
    """loop heads (targets of DFS back edges), liveness of SSA names."""
    if f.loopheads is not None:
        return
    heads, back = set(), set()
    color = {}
    stack = [(f.entry, iter(f.blocks[f.entry].succ))]
    color[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1
                stack.append((s, iter(f.blocks[s].succ)))
                break
            if c == 1:
                heads.add(s)
                back.add((b, s))
        else:
            color[b] = 2
            stack.pop()
    f.loopheads = heads
    f.backedges = back
    pred = {b: set() for b in f.blocks}
    for b in f.blocks.values():
        for x in b.succ:
            pred[x].add(b.id)
    f.loopbody = {}
    for b, h in back:
        body = f.loopbody.setdefault(h, {h})
        wl = [b]
        while wl:
            x = wl.pop()
            if x not in body:
                body.add(x)
                wl += pred[x]
    # reverse post-order in which a loop's body precedes what follows the loop
    depth = {b: sum(b in body for body in f.loopbody.values()) for b in f.blocks}
    order, seen = [], {f.entry}

    def succs(b):
        return iter(sorted(f.blocks[b].succ, key=lambda x: depth[x]))
    stack = [(f.entry, succs(f.entry))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, succs(x)))
                break
        else:
            order.append(b)
            stack.pop()
    f.rpo = {b: i for i, b in enumerate(reversed(order))}
    # liveness
    use, defs = {}, {}
    for b in f.blocks.values():
        u, d = set(), set()
        for dst, _ in b.phis:
            d.add(dst)
        for st in b.stmts + [b.term]:
            for n in stmt_uses(st):
                if n not in d:
                    u.add(n)
            dn = stmt_def(st)
            if dn:
                d.add(dn)
        use[b.id], defs[b.id] = u, d
    livein = {b: set() for b in f.blocks}
    changed = True
    order = sorted(f.blocks, reverse=True)
    while changed:
        changed = False
        for b in order:
            blk = f.blocks[b]
            out = set()
            for s in blk.succ:
                out |= livein[s]
                for dst, args in f.blocks[s].phis:
                    if b in args:
                        expr_uses(args[b], out)
            new = use[b] | (out - defs[b])
            if new != livein[b]:
                livein[b] = new
                changed = True
    f._live = livein


def expr_uses(e, acc):
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == "ssa":
        acc.add(e[1])
        return
    if e[0] in ("int", "flt", "str", "var", "opaque", "ctor", "zero", "clobber"):
        if e[0] in ("opaque", "ctor"):
            for m in re.findall(r"[\w.$#<>]*_\d+(?:\(D\))?", e[1]):
                acc.add(m)
        return
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    expr_uses(y, acc)
            else:
                expr_uses(x, acc)


def stmt_uses(st):
    acc = set()
    if st is None:
        return acc
    k, a = st.kind, st.a
    if k == "assign":
        if a[0][0] != "ssa":
            expr_uses(a[0], acc)
        expr_uses(a[1], acc)
    elif k == "call":
        if a[0] is not None and a[0][0] != "ssa":
            expr_uses(a[0], acc)
        for x in a[2]:
            expr_uses(x, acc)
        for m in re.findall(r"[\w.$#<>]*_\d+(?:\(D\))?", a[1]):
            acc.add(m)
    elif k == "if":
        expr_uses(a[0], acc)
    elif k == "switch":
        expr_uses(a[0], acc)
    elif k == "return":
        if a[0] is not None:
            expr_uses(a[0], acc)
    elif k == "asm":
        for c, e in a[1]:
            if e[0] != "ssa" or "+" in c:
                expr_uses(e, acc)
        for c, e in a[2]:
            expr_uses(e, acc)
    elif k == "clobber":
        expr_uses(a[0], acc)
    elif k == "opaque":
        for m in re.findall(r"[\w.$#<>]*_\d+(?:\(D\))?", a[0]):
            acc.add(m)
    return acc


def stmt_def(st):
    if st is None:
        return None
    if st.kind in ("assign", "call") and st.a[0] is not None and st.a[0][0] == "ssa":
        return st.a[0][1]
    return None


class Program:
    """Functions merged from several dumps."""

    def __init__(self):
        self.funcs = {}
        self.units = []

    def add(self, path, **kw):
        txt = compile_dump(path, **kw)
        fs = parse_dump(txt)
        for k, v in fs.items():
            self.funcs.setdefault(k, v)
        self.units.append(path)
        return fs

    def by_name(self, regex):
        r = re.compile(regex)
        return [f for f in self.funcs.values() if r.search(f.name)]


if __name__ == "__main__":
    t = open(sys.argv[1]).read() if sys.argv[1].endswith(".ssa") else compile_dump(sys.argv[1])
    fs = parse_dump(t)
    print(len(fs), "functions")
    bad = 0
    for f in fs.values():
        analyse_cfg(f)
        for b in f.blocks.values():
            for s in b.stmts:
                if s.kind == "opaque":
                    print("OPAQUE", f.name, s.text)
                    bad += 1
            for x in b.succ:
                if x is None:
                    print("BADSUCC", f.name, b.id, b.term)
    print("opaque", bad)
