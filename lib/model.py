"""Program model loaded from hxdump's JSON: functions, syntax trees, CFGs, classes."""
import json, os, re, functools

class Node:
    __slots__ = ("id", "k", "t", "l", "c", "x", "parent", "fn")
    def __init__(s, fn, i, raw, strs):
        s.fn = fn; s.id = i
        s.k = strs[raw["k"]] if "k" in raw else "?"
        s.t = strs[raw["t"]] if "t" in raw else ""
        s.l = raw.get("l", 0)
        s.c = raw.get("c", ())
        s.x = raw
        s.parent = None
    def get(s, k, d=None): return s.x.get(k, d)
    def s_(s, k):
        v = s.x.get(k); return s.fn.model.strs[v] if v is not None else ""
    @property
    def name(s): return s.s_("n")
    @property
    def mname(s): return s.s_("m")
    @property
    def op(s): return s.x.get("op")
    @property
    def kids(s): return [s.fn.nodes[i] for i in s.c if i >= 0]
    def kid(s, i):
        ks = s.kids
        return ks[i] if i < len(ks) else None
    def ref(s, key):
        v = s.x.get(key)
        return s.fn.nodes[v] if v is not None and v >= 0 else None
    def walk(s):
        st = [s]; seen = set()
        while st:
            n = st.pop()
            if n.id in seen: continue
            seen.add(n.id)
            yield n
            st.extend(reversed(n.kids))
    def up(s):
        n = s.parent
        while n is not None:
            yield n; n = n.parent
    def __repr__(s): return f"<{s.k}#{s.id}@{s.l} {s.name or s.mname or s.op or s.get('v','')}>"

TRANSPARENT = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
               "ConstantExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr",
               "CXXConstCastExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "OpaqueValueExpr", "AttributedStmt", "FullExpr"}

class Block:
    __slots__ = ("id", "e", "s", "tk", "ts", "tc", "lab", "nr", "tdb")

class Fn:
    def __init__(s, model, raw):
        s.model = model; s.raw = raw
        s.id = raw["id"]; s.n = raw["n"]; s.full = raw["full"]; s.file = raw["file"]; s.line = raw["l"]; s.end = raw["end"]
        s.coro = bool(raw.get("coro")); s.cls = raw.get("cls"); s.clsn = raw.get("clsn", ""); s.clsfull = raw.get("clsfull", "")
        s.ret = model.strs[raw["ret"]]
        s.params = [(p["id"], p["n"], model.strs[p["t"]]) for p in raw["params"]]
        s.lam = bool(raw.get("lam")); s.encl = raw.get("encl"); s.imp = bool(raw.get("imp")); s.ne = bool(raw.get("ne"))
        s.ctor = bool(raw.get("ctor")); s.dtor = bool(raw.get("dtor"))
        s.short = s.n.split("::")[-1]
        s._nodes = None; s._blocks = None
    @property
    def rel(s): return s.file.split("include/HXLibs/")[-1]
    @property
    def where(s): return f"{s.rel}:{s.line} {s.n}"
    @property
    def nodes(s):
        if s._nodes is None:
            st = s.model.strs
            s._nodes = [Node(s, i, r, st) for i, r in enumerate(s.raw["nodes"])]
            for n in s._nodes:
                for k in n.kids:
                    if k.parent is None and k is not n: k.parent = n
        return s._nodes
    @property
    def body(s): return s.nodes[s.raw["body"]] if s.raw["body"] >= 0 else None
    @property
    def inits(s): return [(a, s.nodes[b] if b >= 0 else None, w) for a, b, w in s.raw.get("inits", [])]
    @property
    def blocks(s):
        if s._blocks is None:
            s._blocks = {}
            st = s.model.strs
            for b in s.raw["blocks"]:
                B = Block(); B.id = b["id"]; B.e = b["e"]; B.s = b["s"]
                B.tk = st[b["tk"]] if "tk" in b else None; B.ts = b.get("ts"); B.tc = b.get("tc"); B.lab = b.get("lab")
                B.nr = b.get("nr"); B.tdb = b.get("tdb")
                s._blocks[B.id] = B
        return s._blocks
    def walk(s):
        if s.body is None: return
        for _, n, _w in s.inits:
            if n is not None: yield from n.walk()
        yield from s.body.walk()
    def __repr__(s): return f"Fn({s.full} @{s.rel}:{s.line})"

class Cls:
    def __init__(s, model, raw):
        s.model = model; s.raw = raw; s.id = raw["id"]; s.n = raw["n"]; s.full = raw["full"]; s.file = raw["file"]; s.line = raw["l"]
        st = model.strs
        s.bases = [st[b] for b in raw["bases"]]
        s.fields = [dict(f, t=st[f["t"]]) for f in raw["fields"]]
        s.methods = raw["methods"]; s.lam = bool(raw.get("lam")); s.short = s.n.split("::")[-1]
        s._nodes = None
    @property
    def nodes(s):
        if s._nodes is None:
            st = s.model.strs
            s._nodes = [Node(s, i, r, st) for i, r in enumerate(s.raw["nodes"])]
        return s._nodes
    @property
    def rel(s): return s.file.split("include/HXLibs/")[-1]
    def kind(s, k): return [m for m in s.methods if m["kind"] == k]
    def __repr__(s): return f"Cls({s.full})"

class Var:
    def __init__(s, model, raw):
        s.model = model; s.raw = raw; s.id = raw["id"]; s.n = raw["n"]; s.full = raw["full"]; s.file = raw["file"]; s.line = raw["l"]
        s.t = model.strs[raw["t"]]; s.val = raw.get("val"); s._nodes = None
    @property
    def nodes(s):
        if s._nodes is None:
            st = s.model.strs
            s._nodes = [Node(s, i, r, st) for i, r in enumerate(s.raw["nodes"])]
        return s._nodes
    @property
    def init(s): return s.nodes[s.raw["i"]] if s.raw.get("i", -1) >= 0 else None
    @property
    def rel(s): return s.file.split("include/HXLibs/")[-1]

class Model:
    def __init__(s, path, name=""):
        d = json.load(open(path)); s.name = name
        s.strs = d["strings"]
        s.errors = d["errors"]
        s.fns = {}; s.by = {}
        for r in d["functions"]:
            f = Fn(s, r); s.fns[f.id] = f; s.by.setdefault(f.n, []).append(f)
        s.classes = {}; s.clsby = {}
        for r in d["classes"]:
            c = Cls(s, r); s.classes[c.id] = c; s.clsby.setdefault(c.n, []).append(c)
        s.enums = {e["n"]: e for e in d["enums"]}
        s.vars = {}; s.varby = {}
        for r in d["vars"]:
            v = Var(s, r); s.vars[v.id] = v; s.varby.setdefault(v.n, []).append(v)
        s.patterns = d["patterns"]
    def named(s, *names):
        """functions whose template-free qualified name ends with one of the given suffixes"""
        out = []
        for n, l in s.by.items():
            for w in names:
                if n == w or n.endswith("::" + w): out += l; break
        return out
    def enclosed_lambdas(s, fn):
        return [f for f in s.fns.values() if f.lam and f.encl == fn.id]

# ------------------------------------------------------------------ expression helpers
def strip(n):
    """drop value-preserving wrappers"""
    while n is not None:
        if n.k in TRANSPARENT and n.kids: n = n.kid(0); continue
        if n.k in ("CallExpr",) and n.name in ("std::move", "std::forward", "std::as_const", "std::launder", "std::addressof", "std::__addressof", "__builtin_expect") and len(n.kids) >= 2:
            n = n.kid(1); continue
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.get("cpy") or n.get("mov")) and len(n.kids) == 1:
            n = n.kid(0); continue
        if n.k == "InitListExpr" and len(n.kids) == 1 and n.kid(0).t.replace("const ", "") == n.t.replace("const ", ""):
            n = n.kid(0); continue
        break
    return n

CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral")
CTORS = ("CXXConstructExpr", "CXXTemporaryObjectExpr")

def is_call(n): return n.k in CALLS
def callee(n):
    """qualified template-free name of callee"""
    return n.name
def call_short(n): return n.name.split("::")[-1]
def call_obj(n):
    """object expression of a member call / member operator call, else None"""
    if n.k == "CXXMemberCallExpr":
        me = n.kid(0)
        while me is not None and me.k == "ParenExpr": me = me.kid(0)
        if me is not None and me.k == "MemberExpr": return me.kid(0)
        return None
    if n.k == "CXXOperatorCallExpr" and n.get("oo") == 1: return n.kid(1)
    return None
def call_args(n):
    ks = n.kids
    if n.k == "CXXMemberCallExpr": return ks[1:]
    if n.k == "CXXOperatorCallExpr": return ks[2:] if n.get("oo") == 1 else ks[1:]
    if n.k in CALLS: return ks[1:]
    if n.k in CTORS: return ks
    return ks
def const_int(n):
    if n is None: return None
    if "cv" in n.x: return n.x["cv"]
    if n.k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"): return n.x.get("v")
    if n.k in TRANSPARENT and n.kids: return const_int(n.kid(0))
    if n.k == "UnaryOperator" and n.op == "-":
        v = const_int(n.kid(0)); return -v if v is not None else None
    if n.k == "CXXNullPtrLiteralExpr" or n.k == "GNUNullExpr": return 0
    return None
def str_lits(n): return [m.get("v") for m in n.walk() if m.k == "StringLiteral"]
