"""Path-sensitive abstract interpreter over clang syntax trees.

Property simulation in the style of ESP: states carry (store, facts, monitor); states with
the same monitor value are joined at statement boundaries, facts by implication, stores by
value number (differing values become a fresh join symbol).  HX functions, lambdas and
coroutines (at the point they are awaited) are analysed inline; everything else is a
havoc / pure-function summary.  Numeric facts live in a linear-inequality domain with
syntactic implication only (no solver)."""
from model import *

# ------------------------------------------------------------------ terms
def C(v): return ("c", int(v))
def is_c(t): return t[0] == "c"

def lin(t):
    if t[0] == "lin": return t
    if t[0] == "c": return ("lin", t[1], ())
    return ("lin", 0, ((t, 1),))
def mklin(k, d):
    items = tuple(sorted(((t, c) for t, c in d.items() if c), key=repr))
    if not items: return ("c", k)
    if k == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return ("lin", k, items)
def ladd(a, b, s=1):
    a = lin(a); b = lin(b); d = dict(a[2])
    for t, c in b[2]: d[t] = d.get(t, 0) + s * c
    return mklin(a[1] + s * b[1], d)
def lmul(a, k):
    a = lin(a); return mklin(a[1] * k, {t: c * k for t, c in a[2]})
def T_ge0(L):
    if is_c(L): return C(L[1] >= 0)
    return ("ge0", lin(L))
def T_eq0(L):
    if is_c(L): return C(L[1] == 0)
    L = lin(L)
    if L[2][0][1] < 0: L = lin(lmul(L, -1))
    g = abs(L[2][0][1])
    if g > 1 and all(c % g == 0 for _, c in L[2]):
        if L[1] % g: return C(0)
        L = lin(mklin(L[1] // g, {t: c // g for t, c in L[2]}))
    return ("eq0", L)
def T_not(t):
    k = t[0]
    if k == "c": return C(not t[1])
    if k == "ge0": return T_ge0(ladd(lmul(t[1], -1), C(-1)))
    if k == "eq0": return ("ne0", t[1])
    if k == "ne0": return ("eq0", t[1])
    return T_eq0(t)
def T_truth(t):
    """boolean term for 't is non-zero / true'"""
    if t[0] in ("c",): return C(bool(t[1]))
    if t[0] in ("ge0", "eq0", "ne0"): return t
    if t[0] == "addr":
        p = t[1]
        if p and p[-1] == "*": return ("ne0", lin(("ptr", p[:-1])))
        return C(1)
    if t[0] in ("lam", "s", "new", "lazy"): return C(1)
    if t[0] == "sym" and t[1][0] in ("current_exception", "make_exception_ptr"): return C(1)
    if t[0] == "empty" and isinstance(t[1], str) and t[1].endswith("exception_ptr"): return C(0)
    return T_not(T_eq0(t))
def is_unsigned(t):
    t = t.replace("const ", "").strip()
    return t.startswith("unsigned") or t in ("size_t", "std::size_t", "uint64_t", "uint32_t", "uint16_t", "uint8_t", "std::uint64_t", "std::uint32_t", "size_type") or t.endswith("::size_type")
def T_cmp(op, a, b):
    if op == "<": return T_ge0(ladd(ladd(b, a, -1), C(-1)))
    if op == "<=": return T_ge0(ladd(b, a, -1))
    if op == ">": return T_cmp("<", b, a)
    if op == ">=": return T_cmp("<=", b, a)
    if op in ("==", "!="):
        if a == b: return C(op == "==")
        for x, y in ((a, b), (b, a)):
            if is_c(y) and y[1] == 0 and (x[0] == "empty" or x[0] == "sym") and is_c(T_truth(x)): return C((T_truth(x)[1] == 0) == (op == "=="))
        if a[0] == "addr" and b[0] == "addr" and a[1] and b[1] and a[1][0] != b[1][0] and "v" in (a[1][0][0], b[1][0][0]): return C(op == "!=")  # a local is not another object
        if a[0] == "s" and b[0] == "s": return C((a[1] == b[1]) == (op == "=="))
        if a[0] == "addr" and is_c(b) and b[1] == 0: t = T_truth(a); return T_not(t) if op == "==" else t
        if b[0] == "addr" and is_c(a) and a[1] == 0: t = T_truth(b); return T_not(t) if op == "==" else t
        if a[0] in ("ge0", "eq0", "ne0") and is_c(b): t = a if b[1] else T_not(a); return t if op == "==" else T_not(t)
        if b[0] in ("ge0", "eq0", "ne0") and is_c(a): return T_cmp(op, b, a)
        t = T_eq0(ladd(a, b, -1)); return t if op == "==" else T_not(t)
def mentions(t, sub):
    if t == sub: return True
    if isinstance(t, tuple): return any(mentions(x, sub) for x in t)
    return False
def subst(t, a, b):
    if t == a: return b
    if isinstance(t, tuple):
        r = tuple(subst(x, a, b) for x in t)
        if r != t and r and r[0] == "lin":
            try:
                d = {}
                for x, c in r[2]: d[x] = d.get(x, 0) + c
                return lin(mklin(r[1], d)) if t[0] == "lin" else r
            except Exception: return r
        if r != t and len(r) == 2 and r[0] in ("ge0", "eq0", "ne0") and isinstance(r[1], tuple) and r[1] and r[1][0] != "lin": return (r[0], lin(r[1]))
        return r
    return t
def walk_term(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple): yield from walk_term(x)
def show(t, d=0):
    if not isinstance(t, tuple) or not t: return str(t)
    k = t[0]
    if d > 6: return ".."
    if not isinstance(k, str): return show_path(t)
    if k == "c": return str(t[1])
    if k == "s": return repr(t[1])
    if k in ("in", "phi") : return show_path(t[1] if k == "in" else t[2])
    if k == "lin": return "(" + " + ".join(([str(t[1])] if t[1] else []) + [(f"{c}*" if c != 1 else "") + show(x, d+1) for x, c in t[2]]) + ")"
    if k == "m": return show(t[2], d+1) + "." + t[1] + "(" + ", ".join(show(x, d+1) for x in t[3:]) + ")"
    if k == "ge0": return show(t[1], d+1) + " >= 0"
    if k == "eq0": return show(t[1], d+1) + " == 0"
    if k == "ne0": return show(t[1], d+1) + " != 0"
    if k == "addr": return "&" + show_path(t[1])
    if k == "sym": return f"<{t[1][0]}@{t[1][1]}>" if isinstance(t[1], tuple) else f"<{t[1]}>"
    return k + "(" + ", ".join(show(x, d+1) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
def show_path(p):
    if not isinstance(p, tuple): return str(p)
    o = []
    for x in p:
        if isinstance(x, tuple):
            if x[0] == "v": o.append(x[3] if len(x) > 3 else f"v{x[2]}")
            elif x[0] == "root": o.append(x[1])
            elif x[0] == "*": o.append("*" + show(x[1]))
            elif x[0] == "t": o.append(show(x[1]))
            else: o.append(str(x[0]) + (":" + show(x[1]) if len(x) > 1 and isinstance(x[1], tuple) else ""))
        else: o.append(str(x))
    return ".".join(o)

FIELDS = {}
def item(t, f):
    """member f of value t; elements of initialiser lists by constant index"""
    if isinstance(f, tuple) and f[0] == "[]" and t[0] == "init" and f[1][0] == "c":
        while t[0] == "init" and len(t) == 3 and isinstance(t[2], tuple) and t[2][0] == "init": t = t[2]
        if 0 <= f[1][1] < len(t) - 2: return t[2 + f[1][1]]
    if t[0] == "init" and isinstance(f, str) and f in (k := FIELDS.get(t[1], ())) and len(t) > 2 + k.index(f): return t[2 + k.index(f)]
    if t[:2] == ("ctor", "std::from_chars_result") and len(t) == 4 and f in ("ptr", "ec"): return t[2 + (f == "ec")]
    if t[:2] == ("ctor", "std::pair") and len(t) == 4 and f in ("first", "second"): return t[2 + (f == "second")]
    return ("fld", t, f)
class Loc:
    __slots__ = ("p",)
    def __init__(s, p): s.p = p
    def __repr__(s): return "Loc" + show_path(s.p)
    def __eq__(s, o): return isinstance(o, Loc) and s.p == o.p
    def __hash__(s): return hash(s.p)

class St:
    __slots__ = ("env", "facts", "mon", "live", "tr")
    def __init__(s, env=None, facts=frozenset(), mon=None, live=(), tr=()):
        s.env = env if env is not None else {}; s.facts = facts; s.mon = mon; s.live = live; s.tr = tr
    def cp(s): return St(dict(s.env), s.facts, s.mon, s.live, s.tr)
    def with_mon(s, m):
        n = s.cp(); n.mon = m; return n
    def note(s, x):
        n = s.cp(); n.tr = (s.tr + (x,))[-40:]; return n
    # ---------------- store
    def vers(s, p):
        return tuple(v for i in range(1, len(p) + 1) for v in ((s.env.get(("ver", p[:i]))),) if v is not None)
    def read(s, p):
        v = s.env.get(p)
        if v is not None: return v
        if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "t": return p[0][1]
        # a field of an object that has a whole value
        for i in range(len(p) - 1, 0, -1):
            v = s.env.get(p[:i])
            if v is not None:
                t = v
                for f in p[i:]:
                    t = item(t, f)
                return t
        if isinstance(p[0], tuple) and p[0][0] == "t":
            t = p[0][1]
            for f in p[1:]: t = item(t, f)
            return t
        return ("in", p, s.vers(p))
    def write(s, p, t):
        n = s.cp()
        for k in [k for k in n.env if isinstance(k, tuple) and k[0] not in ("ver", "ref") and len(k) > len(p) and k[:len(p)] == p]: del n.env[k]
        n.env[p] = t
        return n
    def havoc(s, p, site):
        n = s.cp()
        for k in [k for k in n.env if k[0] not in ("ver", "ref") and len(k) >= len(p) and k[:len(p)] == p]: del n.env[k]
        for k in [k for k in n.env if k[0] == "ver" and len(k[1]) > len(p) and k[1][:len(p)] == p]: del n.env[k]
        n._kill_site(("h", site))
        n.env[("ver", p)] = ("h", site)
        # whole-object value in a strict prefix no longer describes this field
        for i in range(len(p) - 1, 0, -1):
            if p[:i] in n.env:
                n.env[p] = ("sym", ("hv", site, p))
                n.forget(("sym", ("hv", site, p))); break
        return n
    def _kill_site(s, ver):
        """a fresh version/symbol named by site is being re-created: age older mentions"""
        old = ("old", ver)
        hit = [k for k, v in s.env.items() if mentions(v, ver) or mentions(k, ver)]
        for k in hit:
            v = s.env.pop(k); s.env[subst(k, ver, old)] = subst(v, ver, old)
        if hit:
            # store entries below an aged value that nothing holds any more cannot be reached again
            dead = [k for k in s.env if mentions(k, old)]
            if dead and not any(mentions(v, old) for k, v in s.env.items() if not mentions(k, old)):
                for k in dead: del s.env[k]
        if any(mentions(f, ver) for f in s.facts):
            s.facts = frozenset(subst(f, ver, old) for f in s.facts if not mentions(f, old))
    def forget(s, sym): s.facts = frozenset(f for f in s.facts if not mentions(f, sym))
    def copy_sub(s, src, dst):
        """copy field entries below src to dst"""
        for k, v in list(s.env.items()):
            if k[0] not in ("ver", "ref") and len(k) > len(src) and k[:len(src)] == src: s.env[dst + k[len(src):]] = v
    # ---------------- facts
    def holds(s, t):
        """True / False / None for boolean term t"""
        t = T_truth(t)
        if t[0] == "c": return bool(t[1])
        if t in s.facts: return True
        n = T_not(t)
        if n[0] == "c": return not n[1]
        if n in s.facts: return False
        if s._imp(t): return True
        if s._imp(n): return False
        return None
    def _ge(s):
        for f in s.facts:
            if f[0] == "ge0": yield f[1]
            elif f[0] == "eq0": yield f[1]; yield lin(lmul(f[1], -1))
    def _imp(s, t):
        if t[0] == "ge0": return s._prove_ge(t[1])
        if t[0] == "eq0":
            return s._prove_ge(t[1]) and s._prove_ge(lin(lmul(t[1], -1)))
        if t[0] == "ne0":
            L = t[1]
            return s._prove_ge(lin(ladd(L, C(-1)))) or s._prove_ge(lin(ladd(lmul(L, -1), C(-1))))
        return False
    def _triv(s, L):
        """const part >= 0 and every remaining term known non-negative with positive coefficient"""
        if L[0] == "c": return L[1] >= 0
        L = lin(L)
        k = L[1]
        for t, c in L[2]:
            if c > 0 and nonneg(t): continue
            if c < 0 and t[0] in ("bits", "byte", "be"): k += c * ((1 << (8 if t[0] == "byte" else 8 * t[2] if t[0] == "be" else t[3])) - 1); continue
            return False
        return k >= 0
    def _prove_ge(s, L, depth=2):
        if s._triv(L): return True
        if depth == 0: return False
        L = lin(L); Lt = {t for t, _ in L[2]}
        if not Lt: return L[1] >= 0
        for F in list(s._ge()):
            if not any(t in Lt for t, _ in F[2]): continue
            R = ladd(L, F, -1)
            if s._triv(R): return True
            if depth > 1:
                R = lin(R)
                if len(R[2]) <= len(L[2]) + 1 and s._prove_ge(R, depth - 1): return True
        # x != k with x >= k  =>  x >= k+1
        if depth > 1:
            for f in s.facts:
                if f[0] == "ne0":
                    for sg in (1, -1):
                        G = lin(lmul(f[1], sg))
                        R = ladd(L, ladd(G, C(-1)), -1)
                        if s._triv(R) and s._prove_ge(G, 1): return True
        return False
    def assume(s, t, val=True):
        """state refined by t == val, or None if contradictory"""
        t = T_truth(t)
        if not val: t = T_not(t)
        h = s.holds(t)
        if h is True: return s
        if h is False: return None
        n = s.cp(); n.facts = s.facts | {t}
        if t[0] == "eq0" and len(t[1][2]) == 1:
            x, c = t[1][2][0]
            v = -t[1][1] / c
            if v == int(v) and x[0] in ("sym", "phi", "in"):
                for k, e in list(n.env.items()):
                    if e == x: n.env[k] = C(int(v))
        return n

def nonneg(t):
    k = t[0]
    if k == "c": return t[1] >= 0
    if k == "m": return t[1] in ("size", "length", "ssize")
    if k in ("u", "bits", "byte", "be"): return True
    if k == "op" and t[1] in ("&", "%u", ">>u", "*u"): return True
    return False

NPOS = 2**64 - 1
def size_of(t):
    """length of a view / container term"""
    if t[0] == "m" and t[1] in ("subspan", "substr") and len(t) == 4: return ladd(size_of(t[2]), t[3], -1)
    if t[0] == "m" and t[1] == "subspan" and len(t) == 5: return t[4]
    if t[0] == "m" and t[1] in ("first", "last") and len(t) == 4: return t[3]
    return ("m", "size", t)
class Budget(Exception): pass
class Frame:
    __slots__ = ("fn", "id", "this", "bind", "depth", "exc", "caps", "rets", "scope", "parent", "node")
    def __init__(s, fn, id, this, depth, parent=None, node=None):
        s.fn = fn; s.id = id; s.this = this; s.bind = {}; s.depth = depth; s.caps = {}; s.parent = parent; s.node = node
    def stack(s):
        f = s; o = []
        while f: o.append(f.fn.n.replace("HX::", "")); f = f.parent
        return " <- ".join(o)

UNS = ("unsigned", "size_t", "uint", "bool", "char8_t")
def is_unsigned(t): return t.startswith(("unsigned", "bool"))

PURE_M = {"size", "length", "empty", "data", "begin", "end", "cbegin", "cend", "c_str", "capacity", "find", "find_first_of", "rfind", "find_last_of", "find_first_not_of",
          "count", "contains", "at", "operator[]", "front", "back", "has_value", "starts_with", "ends_with", "substr", "compare", "index", "load",
          "string", "rbegin", "rend", "max_size", "bucket_count", "get", "first", "last", "subspan", "size_bytes", "time_since_epoch", "joinable", "value", "value_or", "extension", "filename"}
ALIAS_M = {"value", "operator*", "front", "back", "at", "operator[]"}
SP = ("std::unique_ptr<", "std::shared_ptr<", "std::optional<", "std::__shared_ptr", "HX::container::Uninitialized<", "std::__uniq")

class Engine:
    """Subclass or pass hooks; one instance per exploration."""
    max_depth = 14
    patience = 8          # loop iterations before facts are given up
    budget = 400000
    inline_tiny = 40
    def __init__(self, model, **kw):
        self.m = model
        if not getattr(model, "_fields_in", 0):
            model._fields_in = 1
            for c in model.classes.values():
                if not c.bases and not c.lam and c.fields: FIELDS.setdefault(c.full, [f["n"] for f in c.fields])
        self.steps = 0; self.nframe = 0; self.stats = {"calls": 0, "inlined": 0, "states": 0, "fns": set(), "unresolved": 0}
        self._rel = {}; self._tiny = {}
        for k, v in kw.items(): setattr(self, k, v)
        self.fid = {}
    # ------------------------------------------------------------ hooks (override)
    def is_event(self, fn, node): return False          # does this node matter to the rule (drives relevance)
    def relevant_fn(self, fn): return False
    def no_inline(self, fn): return False
    def force_inline(self, fn): return False
    def on_call(self, st, fr, n, name, obj, args): return None
    def on_ctor(self, st, fr, n, name, path, args): return None
    def on_await(self, st, fr, n, v): return None
    def on_assign(self, st, fr, n, path, term): return None
    def on_move(self, st, fr, n, path): return None
    def on_dtor(self, st, fr, path, ty, var): return None
    def on_new(self, st, fr, n, args): return None
    def on_placement(self, st, fr, n, path): return None
    def on_delete(self, st, fr, n, v): return None
    def on_enter(self, st, fr): return None
    def range_exit(self, st, rv): return st
    def on_return(self, st, fr, n, v): return None
    def on_throw(self, st, fr, n): return None
    def on_branch(self, st, fr, n, t, val): return None
    def on_index(self, st, fr, n, base, idx): return None
    def on_deref(self, st, fr, n, v): return None
    def lib_throws(self, name, n): return False
    def skey(self, st): return None
    # ------------------------------------------------------------ relevance
    def relevant(self, fn, depth=0):
        r = self._rel.get(fn.id)
        if r is not None: return r
        self._rel[fn.id] = False
        # iterative closure over call graph
        order = []; seen = set()
        def dfs(f):
            st = [(f, iter(self._callees(f)))]
            seen.add(f.id)
            while st:
                g, it = st[-1]
                for h in it:
                    if h.id not in seen:
                        seen.add(h.id); st.append((h, iter(self._callees(h)))); break
                else:
                    order.append(g); st.pop()
        dfs(fn)
        rel = {g.id: bool(self.relevant_fn(g) or any(self.is_event(g, n) for n in g.walk())) for g in order}
        ch = True
        while ch:
            ch = False
            for g in order:
                if not rel[g.id] and any((rel.get(h.id) or self._rel.get(h.id)) and not self.no_inline(h) for h in self._callees(g)):
                    rel[g.id] = True; ch = True
        self._rel.update(rel)
        return rel[fn.id]
    def _callees(self, fn):
        c = self.__dict__.setdefault("_cc", {})
        if fn.id in c: return c[fn.id]
        out = []
        for n in fn.walk():
            for k in ("fn", "resume"):
                v = n.get(k)
                if v is not None and v in self.m.fns: out.append(self.m.fns[v])
            if n.k == "DeclRefExpr" and n.get("d") in self.m.fns: out.append(self.m.fns[n.get("d")])
        c[fn.id] = out; return out
    def tiny(self, fn):
        t = self._tiny.get(fn.id)
        if t is None:
            t = self._tiny[fn.id] = (not fn.coro) and len(fn.raw["nodes"]) <= self.inline_tiny and not any(n.k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt") for n in fn.walk())
        return t
    def want_inline(self, fn, fr):
        if self.no_inline(fn): return False
        if fr.depth >= self.max_depth: return False
        f = fr; 
        while f:
            if f.fn is fn: return False
            f = f.parent
        return self.force_inline(fn) or self.relevant(fn) or self.tiny(fn)
    # ------------------------------------------------------------ running
    def run(self, fn, mon, st=None, this=None):
        """explore fn from an unconstrained state; returns list of (kind, state, value)"""
        fr = Frame(fn, self._fid((0, fn.id)), this if this is not None else (("root", "this"),), 0)
        st = st or St(mon=mon)
        for pid, pn, pt in fn.params:
            if pt.rstrip().endswith("&"): fr.bind[pid] = Loc((("root", pn, pid),))
        return self.run_frame(fr, [st])
    def _fid(self, key):
        """frame identity: by call string, so that re-exploring a call site names the same locations"""
        if key not in self.fid: self.fid[key] = len(self.fid) + 1
        return self.fid[key]
    def run_frame(self, fr, sts):
        self.stats["fns"].add(fr.fn.n)
        fr.exc = []; fr.rets = []
        out = []
        cur = []
        for s in sts:
            r = self.on_enter(s, fr)
            cur += [s] if r is None else r
        if fr.fn.ctor:
            for name, node, written in fr.fn.inits:
                if node is None: continue
                nxt = []
                for s in cur:
                    if name in ("(base)", "(delegate)"): nxt += self.init_to(node, s, fr, fr.this)
                    else:
                        nxt += self.init_to(node, s, fr, fr.this + (name,))
                cur = nxt
        res = self.exec(fr.fn.body, cur, fr)
        for s in res["n"]: out.append(("ret", s, ("void",)))
        for s, v in res["r"]: out.append(("ret", s, v))
        for s, t in fr.exc: out.append(("exc", s, t))
        # frame-local store is dead
        fin = []
        for k, s, v in out:
            s = self.drop_frame(s, fr, v)
            fin.append((k, s, v))
        return self.merge_out(fin, fr)
    def drop_frame(self, s, fr, v):
        dead = [k for k in s.env if self._of_frame(k, fr.id)]
        if isinstance(v, Loc): dead = [k for k in dead if (k[1] if k[0] in ("ver", "ref") else k)[:1] != v.p[:1]]
        if dead:
            keep = set()
            if isinstance(v, tuple):
                for t in walk_term(v):
                    if t[:1] == ("addr",) or t[:1] == ("in",): keep.add(t[1][:1] if len(t) > 1 and isinstance(t[1], tuple) else None)
            n = s.cp()
            for k in dead:
                if k[:1] not in keep: n.env.pop(k, None)
            return n
        return s
    @staticmethod
    def _of_frame(k, fid):
        p = k[1] if k[0] in ("ver", "ref") else k
        r = p[0]
        return isinstance(r, tuple) and r[0] == "v" and r[1] == fid
    def on_elem(self, s, fr, n, rv, sym): return s
    def merge_out(self, outs, fr):
        if fr.depth == 0 and len(outs) <= 400: return outs
        groups = {}; distinct = {}
        for k, s, v in outs: distinct.setdefault((k, s.mon, s.live), set()).add(v)
        for k, s, v in outs:
            vk = v if (len(distinct[(k, s.mon, s.live)]) <= 4 or isinstance(v, Loc) or (isinstance(v, tuple) and v[0] in ("c", "void", "lam", "lazy", "addr", "ge0", "eq0", "ne0", "s"))) else ("*",)
            if k == "exc": vk = v
            key = (k, s.mon, s.live, vk, self.skey(s))
            if key in groups:
                k0, s0, v0 = groups[key]
                if v0 != v:
                    site = ("ret", fr.id)
                    j = self.join(s0, s, site); nv = ("phi", site, ("ret",))
                    j.forget(nv); groups[key] = (k, j, nv)
                else: groups[key] = (k, self.join(s0, s, ("ret", fr.id)), v)
            else: groups[key] = (k, s, v)
        return list(groups.values())
    def join(self, a, b, site):
        if a is b: return a
        n = St({}, frozenset(), a.mon, a.live, a.tr if len(a.tr) <= len(b.tr) else b.tr)
        keys = set(a.env) | set(b.env)
        phis = []
        for k in keys:
            if k[0] == "ref":
                n.env[k] = a.env.get(k) or b.env.get(k); continue
            if k[0] == "ver":
                x = a.env.get(k); y = b.env.get(k)
                if x == y: n.env[k] = x
                else: n.env[k] = ("j", site, k[1]); phis.append(n.env[k])
            else:
                x = a.env.get(k); y = b.env.get(k)
                if x is None: x = a.read(k)
                if y is None: y = b.read(k)
                if x == y:
                    n.env[k] = x
                else: n.env[k] = ("phi", site, k); phis.append(n.env[k])
        def conv(fs, env):
            # facts about a value that became a phi are restated for the phi when both sides agree
            return fs
        fa = {f for f in a.facts if b.holds(f) is True}
        fb = {f for f in b.facts if a.holds(f) is True}
        fs = fa | fb
        # aging: a phi that existed before in a or b under the same name
        res = frozenset(f for f in fs if not any(mentions(f, p) for p in phis))
        # carry per-value facts onto phi: for simple one-variable facts
        extra = set()
        for p in phis:
            if p[0] != "phi": continue
            x = a.env.get(p[2]) or a.read(p[2]); y = b.env.get(p[2]) or b.read(p[2])
            for s1, v1, s2, v2 in ((a, x, b, y), (b, y, a, x)):
                cand = set()
                for f in s1.facts:
                    if v1[0] != "c" and mentions(f, v1): cand.add(subst(f, v1, p))
                if is_c(v1):
                    cand.add(T_eq0(ladd(p, v1, -1))); cand.add(T_ge0(ladd(p, v1, -1))); cand.add(T_ge0(ladd(v1, p, -1))); cand.add(T_not(T_eq0(p)))
                    
                for f in cand:
                    if f[0] == "c": continue
                    if s1.holds(subst_norm(f, p, v1)) is True and s2.holds(subst_norm(f, p, v2)) is True and not any(mentions(f, q) for q in phis if q != p): extra.add(f)
        n.facts = res | frozenset(extra)
        return n
    def merge(self, sts, fr, site, loop=False):
        groups = {}
        for s in sts:
            if loop: key = (s.mon, s.live, self.skey(s))
            else: key = (s.mon, s.live, self.skey(s), self._bools(s))
            if key in groups: groups[key] = self.join(groups[key], s, site)
            else: groups[key] = s
        return list(groups.values())
    def _bools(self, s):
        if self.steps > self.budget // 2: return None
        return frozenset((k, v) for k, v in s.env.items() if v[0] == "c" and k[0] not in ("ver", "ref") and len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == "v")
    def tick(self, n=None):
        self.steps += 1
        if self.steps > self.budget: raise Budget(f"exploration budget exhausted ({self.budget} steps)")
    # ------------------------------------------------------------ statements
    def exec(self, n, sts, fr):
        """-> {'n': [st], 'b': [st], 'c': [st], 'r': [(st, val)]}"""
        R = {"n": [], "b": [], "c": [], "r": []}
        if not sts: return R
        if n is None: R["n"] = list(sts); return R
        self.tick()
        k = n.k
        if k == "CompoundStmt":
            depth = None
            base = sts[0].live
            cur = list(sts)
            exc0 = fr.exc; fr.exc = []
            for c in n.kids:
                if not cur: break
                r = self.exec(c, cur, fr)
                for key in "bcr": R[key] += r[key]
                cur = self.merge(r["n"], fr, (n.fn.id, c.id)) if len(r["n"]) > 1 else r["n"]
            d = len(base)
            R["n"] = [x for s in cur for x in self.unwind(s, d, fr)]
            R["b"] = [x for s in R["b"] for x in self.unwind(s, d, fr)]
            R["c"] = [x for s in R["c"] for x in self.unwind(s, d, fr)]
            R["r"] = [(x, v) for s, v in R["r"] for x in self.unwind(s, d, fr)]
            mine = fr.exc; fr.exc = exc0
            for s, t in mine:
                for x in self.unwind(s, d, fr): fr.exc.append((x, t))
            return R
        if k == "DeclStmt":
            cur = list(sts)
            for v in n.get("vars", []):
                nxt = []
                for s in cur: nxt += self.decl(v, n, s, fr)
                cur = nxt
            R["n"] = cur; return R
        if k == "IfStmt":
            ini = [c for c in n.kids if c.k == "DeclStmt"]
            cur = list(sts); d = len(sts[0].live)
            cond = n.ref("cond"); th = n.ref("then"); el = n.ref("else")
            for c in n.kids:
                if c.k == "DeclStmt" and c is not th and c is not el:
                    cur = self.exec(c, cur, fr)["n"]
                elif c is not cond and c is not th and c is not el and c.id < (cond.id if cond is not None else 0) and c.k not in ("DeclStmt",):
                    cur = [s for s0 in cur for s, _ in self.ev(c, s0, fr)]
            ts, fs = [], []
            for s in cur:
                a, b = self.cond(cond, s, fr); ts += a; fs += b
            if len(ts) > 1: ts = self.merge(ts, fr, (n.fn.id, n.id, 1))
            if len(fs) > 1: fs = self.merge(fs, fr, (n.fn.id, n.id, 2))
            r1 = self.exec(th, ts, fr); r2 = self.exec(el, fs, fr)
            for key in "nbcr": R[key] = r1[key] + r2[key]
            if ini:
                R["n"] = [x for s in R["n"] for x in self.unwind(s, d, fr)]
                R["b"] = [x for s in R["b"] for x in self.unwind(s, d, fr)]
                R["c"] = [x for s in R["c"] for x in self.unwind(s, d, fr)]
                R["r"] = [(x, v) for s, v in R["r"] for x in self.unwind(s, d, fr)]
            return R
        if k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"): return self.loop(n, sts, fr)
        if k == "BreakStmt": R["b"] = list(sts); return R
        if k == "ContinueStmt": R["c"] = list(sts); return R
        if k in ("ReturnStmt", "CoreturnStmt"):
            e = n.kid(0)
            for s in sts:
                if e is None: rs = [(s, ("void",))]
                elif k == "ReturnStmt" and fr.fn.ret.rstrip().endswith("&"):
                    rs = self.ev(e, s, fr)
                else:
                    rs = []
                    for s1, v in self.ev(e, s, fr):
                        # an object built field by field is handed over with its fields
                        whole = isinstance(v, Loc) and fr.depth > 0 and k == "ReturnStmt" and ("::" in fr.fn.ret or "<" in fr.fn.ret) and (self._of_frame(v.p, fr.id) or v.p[0][:2] == ("tmp", fr.id)) and self.has_sub(s1, v.p)
                        rs.append((s1, v if whole else self.val(s1, v)))
                for s1, v in rs:
                    o = self.on_return(s1, fr, n, v)
                    for s2 in ([s1] if o is None else o): R["r"].append((s2, v))
            return R
        if k == "CXXTryStmt": return self.try_(n, sts, fr)
        if k == "SwitchStmt": return self.switch(n, sts, fr)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt"):
            return self.exec(n.kids[-1], sts, fr)
        if k == "AttributedStmt":
            return self.exec(n.kids[-1], sts, fr)
        if k == "NullStmt": R["n"] = list(sts); return R
        # expression statement
        for s in sts:
            for s1, _ in self.ev(n, s, fr): R["n"].append(s1)
        return R
    @staticmethod
    def has_sub(s, p):
        k = len(p)
        return any(len(q) > k and q[:k] == p for q in s.env if q[0] not in ("ver", "ref"))
    def unwind(self, s, d, fr):
        cur = [s]
        while cur and len(cur[0].live) > d:
            nxt = []
            for x in cur:
                path, ty, var = x.live[-1]
                y = x.cp(); y.live = x.live[:-1]
                nxt += self.destroy(y, fr, path, ty, var)
            cur = nxt
            if any(len(c.live) != len(cur[0].live) for c in cur): break
        return cur
    def destroy(self, s, fr, path, ty, var):
        o = self.on_dtor(s, fr, path, ty, var)
        if o is not None: return o
        return [s]
    def decl(self, v, n, s, fr):
        if v.get("cx") and v.get("i") is None: return [s]
        path = (("v", fr.id, v["id"], v["n"]),)
        ty = self.m.strs[v["t"]]
        if any(mentions(f, ("ptr", path)) for f in s.facts): s = s.cp(); s.forget(("ptr", path))
        init = n.fn.nodes[v["i"]] if v.get("i", -1) is not None and v.get("i", -1) >= 0 else None
        out = []
        if v.get("static"):
            return [s]
        if ty.rstrip().endswith("&") and init is not None:
            for s1, x in self.ev(init, s, fr):
                s1 = s1.cp()
                if isinstance(x, Loc): s1.env[("ref", path)] = ("addr", x.p); 
                else: s1.env.pop(("ref", path), None); s1 = s1.write(path, x)
                out.append(s1)
        elif init is not None:
            out = self.init_to(init, s, fr, path)
        else:
            s1 = s.havoc(path, ("decl", fr.id, n.id)); 
            s1.env[path] = ("undef", fr.id, v["id"]); out = [s1]
        if "b" in v: out = [self.bindings(s1, fr, v, n, path) for s1 in out]
        res = []
        for s1 in out:
            if not ty.rstrip().endswith(("&", "*")) and ("::" in ty or "<" in ty):
                s1 = s1.cp(); s1.live = s1.live + ((path, ty, v["n"]),)
            res.append(s1)
        return res
    def bindings(self, s, fr, v, n, path):
        """structured bindings over a pair or tuple: names of its members"""
        s = s.cp(); base = self.resolve_ref(s, path); pair = "pair<" in self.m.strs[v["t"]]
        for i, b in enumerate(v["b"]):
            x = n.fn.nodes[b[2]] if len(b) > 2 else None
            if x is not None and x.k == "DeclRefExpr" and x.get("d") != b[0]:
                s.env[("ref", (("v", fr.id, x.get("d"), x.name.split("::")[-1]),))] = ("addr", base + ((("first", "second")[i] if pair and i < 2 else ("[]", C(i))),))
        return s
    def init_to(self, n, s, fr, path):
        """initialise location path from expression n"""
        e = n
        while e.k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ImplicitCastExpr", "ParenExpr", "CXXFunctionalCastExpr", "CXXDefaultInitExpr") and len(e.kids) == 1:
            if e.k in ("ImplicitCastExpr", "CXXFunctionalCastExpr") and e.s_("ck") not in ("NoOp", "ConstructorConversion", "UserDefinedConversion"): break
            e = e.kid(0)
        if e.k in CTORS:
            out = []
            for s1 in self.construct(e, s, fr, path): out.append(s1)
            return out
        if e.k == "InitListExpr" and e.t not in ("",) and ("::" in e.t) and not e.t.startswith("std::"):
            fn_fields = self._fields(e.t)
            if fn_fields is not None and len(e.kids) <= len(fn_fields):
                cur = [s.havoc(path, ("il", fr.id, e.id))]
                for i, kx in enumerate(e.kids):
                    cur = [y for x in cur for y in self.init_to(kx, x, fr, path + (fn_fields[i],))]
                return cur
        out = []
        for s1, v in self.ev(n, s, fr):
            if isinstance(v, Loc):
                t = s1.read(v.p); s2 = s1.write(path, t) if t[0] != "in" or True else s1
                s2.copy_sub(v.p, path)
            else: s2 = s1.write(path, v)
            o = self.on_assign(s2, fr, n, path, s2.read(path))
            out += [s2] if o is None else o
        return out
    def _fields(self, ty):
        ty = ty.replace("const ", "")
        c = self.__dict__.setdefault("_fc", None)
        if c is None:
            c = self._fc = {}
            for x in self.m.classes.values(): c.setdefault(x.full, [f["n"] for f in x.fields])
        return c.get(ty)
    def loop(self, n, sts, fr):
        R = {"n": [], "b": [], "c": [], "r": []}
        cur = list(sts); d = len(sts[0].live)
        cond = n.ref("cond"); body = n.ref("body"); inc = n.ref("inc"); init = n.ref("init")
        rng = None
        if k_is(n, "CXXForRangeStmt"):
            rng = n.ref("range")
            cur = [(s1, v) for s in cur for s1, v in self.ev(rng, s, fr)]
            lv = None
            for c in n.kids:
                if c.k == "DeclStmt":
                    for v in c.get("vars", []):
                        if not v["n"].startswith("__"): lv = (v, c)
            tmp = []
            for s1, v in cur: tmp.append(s1)
            rv = cur[0][1] if cur else None
            cur = tmp
        elif init is not None:
            cur = self.exec(init, cur, fr)["n"]
        exc0 = fr.exc
        site = (n.fn.id, n.id, "L", fr.id)
        if self.unroll:
            r = self.unrolled(n, cur, fr, rng, rv if rng is not None else None, lv if rng is not None else None, cond, body, inc, d, site)
            if r is not None: return r
            fr.exc = exc0
        head = {}   # mon-key -> joined state
        work = cur
        done_exit = []
        exits = []; rets = []; excs = []
        for it in range(self.patience + 6):
            fr.exc = []
            # join incoming with recorded heads
            changed = []
            newheads = dict(head)
            for s in work:
                if s.live and len(s.live) > d + 1: pass
                key = (s.mon, s.live, self.skey(s))
                if key in newheads:
                    o = newheads[key]
                    j = self.join(o, s, site)
                    if it > self.patience: j.facts = frozenset()
                    if j.env != o.env or j.facts != o.facts: newheads[key] = j; changed.append(key)
                else: newheads[key] = s; changed.append(key)
            head = newheads
            if not changed and it > 0: fr.exc = exc0; break
            pend = [head[k] for k in dict.fromkeys(changed)]
            nxt = []
            if k_is(n, "DoStmt"):
                b = self.exec(body, pend, fr)
                rets += b["r"]; exits += b["b"]
                for s in self.merge(b["n"] + b["c"], fr, site + ("b",), True) if len(b["n"] + b["c"]) > 1 else b["n"] + b["c"]:
                    t, f = self.cond(cond, s, fr); nxt += t; exits += f
            else:
                ts = []
                for s in pend:
                    for c in n.kids:
                        pass
                    if rng is not None:
                        exits += [x for x in (self.range_exit(s, rv) if it == 0 else s,) if x is not None]
                        if lv is not None:
                            v, c = lv
                            if isinstance(rv, Loc) and (o := s.env.get(rv.p)) is not None and o[0] == "empty" and str(o[1]).startswith("std::vector"): continue
                            path = (("v", fr.id, v["id"], v["n"]),)
                            s1 = s.cp(); sym = ("sym", ("elem", fr.id, n.id))
                            for k in [k for k in s1.env if k[:1] == path and k != path]: del s1.env[k]
                            s1._kill_site(sym)
                            ty = self.m.strs[v["t"]]
                            rp = rv.p if isinstance(rv, Loc) else (("t", rv),)
                            if ty.rstrip().endswith("&"): s1.env[("ref", path)] = ("addr", rp + (("[]", sym),))
                            else: s1.env[path] = sym
                            if "b" in v: s1 = self.bindings(s1, fr, v, n, path)
                            ts.append(self.on_elem(s1, fr, n, rv, sym))
                        else: ts.append(s)
                    elif cond is None: ts.append(s)
                    else:
                        cs = [s]
                        if n.k == "WhileStmt":
                            for c in n.kids:
                                if c.k == "DeclStmt" and c is not body: cs = self.exec(c, cs, fr)["n"]
                        for s1 in cs:
                            t, f = self.cond(cond, s1, fr); ts += t; exits += f
                if len(ts) > 1: ts = self.merge(ts, fr, site + ("t",))
                b = self.exec(body, ts, fr)
                rets += b["r"]; exits += b["b"]
                nx = b["n"] + b["c"]
                if len(nx) > 1: nx = self.merge(nx, fr, site + ("b",), True)
                if inc is not None:
                    nx = [s1 for s in nx for s1, _ in self.ev(inc, s, fr)]
                nxt = [x for s in nx for x in self.unwind(s, d, fr)] if n.k == "WhileStmt" else nx
            excs += fr.exc; fr.exc = exc0
            work = nxt
        fr.exc = exc0
        fr.exc += self._merge_pairs(excs, site + ("x",))
        R["r"] = self._merge_pairs(rets, site + ("r",))
        ex = self.merge(exits, fr, site + ("e",)) if len(exits) > 1 else exits
        R["n"] = [x for s in ex for x in self.unwind(s, d, fr)]
        R["r"] = [(x, v) for s, v in R["r"] for x in self.unwind(s, d, fr)]
        return R
    unroll = 0
    def unrolled(self, n, cur, fr, rng, rv, lv, cond, body, inc, d, site):
        """exact execution of loops whose trip count is known; None if it is not"""
        R = {"n": [], "b": [], "c": [], "r": []}
        exc0 = fr.exc; fr.exc = list(exc0); exits = []
        if n.k == "DoStmt": fr.exc = exc0; return None
        items = None
        if rng is not None:
            if lv is None or not cur: fr.exc = exc0; return None
            ts = {s.read(rv.p) if isinstance(rv, Loc) else rv for s in cur}
            t = ts.pop()
            if ts: fr.exc = exc0; return None
            while t[0] == "init" and len(t) == 3 and isinstance(t[2], tuple) and t[2][0] == "init": t = t[2]
            if t[0] != "init" or len(t) - 2 > self.unroll: fr.exc = exc0; return None
            items = list(t[2:])
        for it in range(self.unroll + 1):
            if not cur: break
            if items is not None:
                if it >= len(items): exits += cur; cur = []; break
                v, c = lv; path = (("v", fr.id, v["id"], v["n"]),); nxt = []
                for s in cur:
                    s1 = s.cp()
                    if self.m.strs[v["t"]].rstrip().endswith("&"): s1.env[("ref", path)] = ("addr", (("t", items[it]),))
                    else: s1.env.pop(("ref", path), None); s1.env[path] = items[it]
                    nxt.append(s1)
            else:
                nxt = []
                for s in cur:
                    cs = [s]
                    if n.k == "WhileStmt":
                        for c in n.kids:
                            if c.k == "DeclStmt" and c is not body: cs = self.exec(c, cs, fr)["n"]
                    for s1 in cs:
                        if cond is None: fr.exc = exc0; return None
                        t, f = self.cond(cond, s1, fr)
                        if bool(t) == bool(f): fr.exc = exc0; return None
                        nxt += t; exits += f
            if not nxt: cur = []; break
            b = self.exec(body, nxt, fr)
            R["r"] += b["r"]; exits += b["b"]
            nx = b["n"] + b["c"]
            if len(nx) > 1: nx = self.merge(nx, fr, site + ("b", it), True)
            if inc is not None: nx = [s1 for s in nx for s1, _ in self.ev(inc, s, fr)]
            cur = [x for s in nx for x in self.unwind(s, d, fr)] if n.k == "WhileStmt" else nx
        if cur: fr.exc = exc0; return None
        ex = self.merge(exits, fr, site + ("e",)) if len(exits) > 1 else exits
        R["n"] = [x for s in ex for x in self.unwind(s, d, fr)]
        R["r"] = [(x, v) for s, v in self._merge_pairs(R["r"], site + ("r",)) for x in self.unwind(s, d, fr)]
        exc = fr.exc; fr.exc = exc0; fr.exc += exc[len(exc0):]
        return R
    def _merge_pairs(self, prs, site):
        g = {}
        for s, v in prs:
            key = (s.mon, s.live, v, self.skey(s), self._bools(s))
            g[key] = (self.join(g[key][0], s, site), v) if key in g else (s, v)
        return list(g.values())
    def try_(self, n, sts, fr):
        R = {"n": [], "b": [], "c": [], "r": []}
        exc0 = fr.exc; fr.exc = []
        r = self.exec(n.ref("try"), sts, fr)
        for key in "nbcr": R[key] += r[key]
        thrown = self._merge_pairs(fr.exc, (n.fn.id, n.id, "try")); fr.exc = exc0
        for s, t in thrown:
            caught_all = False
            for h in n.get("h", []):
                hn = n.fn.nodes[h]
                m = self.catches(hn, t)
                if m == 0: continue
                s1 = s
                body = hn.kids[-1]
                for v in hn.get("vars", []):
                    s1 = s1.cp(); s1.env[(("v", fr.id, v["id"], v["n"]),)] = ("exc", t)
                self_cur = fr.__class__
                stack = self.__dict__.setdefault("_curexc", []); stack.append(t)
                o = self.on_catch(s1, fr, hn, t)
                r = self.exec(body, [s1] if o is None else o, fr)
                stack.pop()
                for key in "nbcr": R[key] += r[key]
                if m == 2: caught_all = True; break
            if not caught_all: fr.exc.append((s, t))
        if len(R["n"]) > 1: R["n"] = self.merge(R["n"], fr, (n.fn.id, n.id, "tn"))
        return R
    def on_catch(self, st, fr, n, t): return None
    def catches(self, hn, t):
        """2 = certainly, 1 = maybe, 0 = no"""
        if hn.get("ca"): return 2
        ct = hn.s_("ct").replace("const ", "").replace("&", "").strip()
        if t == ct: return 2
        if ct == "std::exception" and t.startswith("std::"): return 2
        if ct == "std::exception" and t.startswith("HX::"): return 1
        if t in ("?", "any"): return 1
        if ct == "std::runtime_error" and t in ("std::runtime_error", "std::system_error", "std::filesystem::filesystem_error", "std::range_error"): return 2
        if ct == "std::logic_error" and t in ("std::logic_error", "std::out_of_range", "std::invalid_argument", "std::length_error"): return 2
        return 0
    def throw(self, s, fr, t="?", n=None):
        o = self.on_throw(s, fr, n)
        for x in ([s] if o is None else o): fr.exc.append((x, t))
    def switch(self, n, sts, fr):
        R = {"n": [], "b": [], "c": [], "r": []}
        body = n.kids[-1]
        cond = n.ref("cond")
        items = []
        def flat(x, labels):
            if x.k == "CaseStmt":
                return flat(x.kids[-1], labels + [x.kid(0)])
            if x.k == "DefaultStmt": return flat(x.kids[-1], labels + ["default"])
            return labels, x
        for c in (body.kids if body.k == "CompoundStmt" else [body]): items.append(flat(c, []))
        cur = list(sts)
        for c in n.kids:
            if c.k == "DeclStmt" and c is not body: cur = self.exec(c, cur, fr)["n"]
        vals = []
        for s in cur:
            for s1, v in self.ev_val(cond, s, fr): vals.append((s1, v))
        labels = [(i, l) for i, (ls, _) in enumerate(items) for l in ls]
        entry = {}
        allc = [const_int(l) for _, l in labels if l != "default"]
        hasdef = False
        for s, v in vals:
            for i, l in labels:
                if l == "default": hasdef = True; continue
                cv = const_int(l)
                if cv is None: entry.setdefault(i, []).append(s); continue
                s1 = s.assume(T_cmp("==", v, C(cv)))
                if s1 is not None:
                    o = self.on_branch(s1, fr, n, T_cmp("==", v, C(cv)), True)
                    entry.setdefault(i, []).extend([s1] if o is None else o)
            s1 = s
            for cv in allc:
                if cv is None: continue
                s1 = s1.assume(T_cmp("!=", v, C(cv)))
                if s1 is None: break
            if s1 is not None:
                di = [i for i, l in labels if l == "default"]
                if di: entry.setdefault(di[0], []).append(s1)
                else: R["n"].append(s1)
        cur = []
        d = len(sts[0].live)
        for i, (ls, x) in enumerate(items):
            cur = cur + entry.get(i, [])
            if not cur: continue
            if len(cur) > 1: cur = self.merge(cur, fr, (n.fn.id, n.id, i))
            r = self.exec(x, cur, fr)
            R["n"] += r["b"]; R["c"] += r["c"]; R["r"] += r["r"]
            cur = r["n"]
        R["n"] += cur
        R["n"] = [x for s in R["n"] for x in self.unwind(s, d, fr)]
        return R
    # ------------------------------------------------------------ conditions
    def cond(self, n, s, fr):
        e = n
        while e.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr") and e.kids and e.s_("ck") != "UserDefinedConversion":
            if e.k == "ConstantExpr" and const_int(e) is not None: break
            e = e.kid(0)
        if e.k == "UnaryOperator" and e.op == "!":
            a, b = self.cond(e.kid(0), s, fr); return b, a
        if e.k == "BinaryOperator" and e.op == "&&":
            a, b = self.cond(e.kid(0), s, fr)
            ts, fs = [], list(b)
            for x in a:
                t, f = self.cond(e.kid(1), x, fr); ts += t; fs += f
            return ts, fs
        if e.k == "BinaryOperator" and e.op == "||":
            a, b = self.cond(e.kid(0), s, fr)
            ts, fs = list(a), []
            for x in b:
                t, f = self.cond(e.kid(1), x, fr); ts += t; fs += f
            return ts, fs
        if e.k == "BinaryOperator" and e.op == ",":
            ts, fs = [], []
            for s1, _ in self.ev(e.kid(0), s, fr):
                t, f = self.cond(e.kid(1), s1, fr); ts += t; fs += f
            return ts, fs
        ts, fs = [], []
        for s1, v in self.ev_val(n, s, fr):
            t = T_truth(v)
            a = s1.assume(t, True); b = s1.assume(t, False)
            if a is not None:
                o = self.on_branch(a, fr, e, t, True); ts += [a] if o is None else o
            if b is not None:
                o = self.on_branch(b, fr, e, t, False); fs += [b] if o is None else o
        return ts, fs
    # ------------------------------------------------------------ expressions
    def ev_val(self, n, s, fr, ret=False):
        out = []
        for s1, v in self.ev(n, s, fr):
            out.append((s1, self.val(s1, v)))
        return out
    def val(self, s, v): return s.read(v.p) if isinstance(v, Loc) else v
    def resolve_ref(self, s, p):
        for _ in range(8):
            r = s.env.get(("ref", p[:1]))
            if r is None: return p
            p = r[1] + p[1:]
        return p
    def var_loc(self, s, fr, d, name, n):
        if name.endswith("(anon)"): name = ""
        b = fr.bind.get(d)
        if b is not None: 
            return b
        f = fr
        while f is not None:
            if d in f.caps: return f.caps[d]
            f = None
        owner = fr
        p = (("v", fr.id, d, name.split("::")[-1]),)
        p = self.resolve_ref(s, p)
        return Loc(p)
    def fresh(self, s, fr, n, tag="call"):
        sym = ("sym", (n.name.split("::")[-1] or n.k, n.l, fr.id, n.id))
        s = s.cp(); s._kill_site(sym)
        return s, sym
    def typed(self, t, ty):
        return t
    def deref(self, t):
        if t[0] == "addr": return t[1]
        return (("*", t),)
    def ev(self, n, s, fr):
        """-> [(state, Loc | term)]; exceptions go to fr.exc"""
        self.tick()
        k = n.k
        if "cv" in n.x and k not in CALLS: return [(s, C(n.x["cv"]))]
        f = getattr(self, "ev_" + k, None)
        if f: return f(n, s, fr)
        if k in TRANSPARENT and n.kids: return self.ev(n.kid(0), s, fr)
        # default: evaluate children, unknown value
        cur = [s]
        for c in n.kids:
            if c.k.endswith("Stmt") and c.k not in ("CoawaitExpr",) and c.k not in ("NullStmt",):
                nx = []
                r = self.exec(c, cur, fr); cur = r["n"]
            else: cur = [s1 for s0 in cur for s1, _ in self.ev(c, s0, fr)]
        out = []
        for s0 in cur:
            s1, sym = self.fresh(s0, fr, n); out.append((s1, sym))
        return out
    def ev_IntegerLiteral(self, n, s, fr): return [(s, C(n.x["v"]))]
    ev_CXXBoolLiteralExpr = ev_CharacterLiteral = ev_IntegerLiteral
    def ev_StringLiteral(self, n, s, fr): return [(s, ("s", n.get("v")))]
    def ev_FloatingLiteral(self, n, s, fr): return [(s, ("f", n.get("v")))]
    def ev_CXXNullPtrLiteralExpr(self, n, s, fr): return [(s, C(0))]
    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr
    def ev_UnaryExprOrTypeTraitExpr(self, n, s, fr): return [(s, ("sizeof", n.s_("at")))]
    def ev_CXXThisExpr(self, n, s, fr): return [(s, ("addr", fr.this))]
    def ev_DeclRefExpr(self, n, s, fr):
        dk = n.s_("dk"); d = n.get("d")
        if dk in ("Function", "CXXMethod"): return [(s, ("fn", d, n.name))]
        if dk == "EnumConstant": return [(s, C(n.x["cv"]) if "cv" in n.x else ("enum", n.name))]
        if dk == "Binding":
            b = n.ref("bind")
            if b is not None and b.k != "DeclRefExpr" or (b is not None and b.get("d") != d):
                return self.ev(b, s, fr)
        v = self.m.vars.get(d)
        if v is not None and dk == "Var":
            if isinstance(v.val, int): return [(s, C(v.val))]
            if isinstance(v.val, str): return [(s, ("s", v.val))]
            return [(s, Loc((("g", n.name, d),)))]
        return [(s, self.var_loc(s, fr, d, n.name, n))]
    def ev_MemberExpr(self, n, s, fr):
        base = n.kid(0); out = []
        if base is None: return [(s, ("fn", n.get("d"), n.name))]
        for s1, v in self.ev(base, s, fr):
            if n.get("ar"):
                t = self.val(s1, v)
                o = self.on_deref(s1, fr, n, t)
                p = self.deref(t)
                for s2 in ([s1] if o is None else o): out.append((s2, Loc(self.resolve_ref(s2, p + (n.mname,)))))
            else:
                p = v.p if isinstance(v, Loc) else (("t", v),)
                q = p + (n.mname,)
                out.append((s1, Loc(q)))
        r = []
        for s1, l in out:
            rr = s1.env.get(("ref", l.p))
            r.append((s1, Loc(rr[1]) if rr is not None else l))
        return r
    def ev_ArraySubscriptExpr(self, n, s, fr):
        out = []
        for s1, b in self.ev(n.kid(0), s, fr):
            for s2, i in self.ev_val(n.kid(1), s1, fr):
                bt = self.val(s2, b) if not isinstance(b, Loc) else b
                p = b.p if isinstance(b, Loc) and not n.kid(0).t.endswith("*") else self.deref(self.val(s2, b))
                o = self.on_index(s2, fr, n, p, i)
                for s3 in ([s2] if o is None else o): out.append((s3, Loc(p + (("[]", i),))))
        return out
    def ev_ImplicitCastExpr(self, n, s, fr):
        ck = n.s_("ck")
        if ck == "UserDefinedConversion" or ck == "ConstructorConversion": return self.ev(n.kid(0), s, fr)
        if ck == "LValueToRValue":
            return self.ev_val(n.kid(0), s, fr)
        if ck == "ArrayToPointerDecay":
            return [(s1, ("addr", v.p) if isinstance(v, Loc) else v) for s1, v in self.ev(n.kid(0), s, fr)]
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return [(s1, T_truth(v)) for s1, v in self.ev_val(n.kid(0), s, fr)]
        if ck == "ToVoid": return [(s1, ("void",)) for s1, v in self.ev(n.kid(0), s, fr)]
        if ck == "IntegralCast":
            return [(s1, self.int_cast(v, n)) for s1, v in self.ev_val(n.kid(0), s, fr)]
        return self.ev(n.kid(0), s, fr)
    def int_cast(self, v, n): return v
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXReinterpretCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    def ev_UnaryOperator(self, n, s, fr):
        op = n.op; out = []
        if op == "!":
            return [(s1, T_not(T_truth(v))) for s1, v in self.ev_val(n.kid(0), s, fr)]
        if op in ("++", "--", "post++", "post--"):
            for s1, v in self.ev(n.kid(0), s, fr):
                if not isinstance(v, Loc): s2, y = self.fresh(s1, fr, n); out.append((s2, y)); continue
                t = s1.read(v.p); t2 = ladd(t, C(1 if "++" in op else -1)) if t[0] != "undef" else t
                s2 = s1.write(v.p, t2)
                o = self.on_assign(s2, fr, n, v.p, t2)
                for s3 in ([s2] if o is None else o): out.append((s3, t if op.startswith("post") else v))
            return out
        for s1, v in self.ev(n.kid(0), s, fr):
            if op == "&": out.append((s1, ("addr", v.p) if isinstance(v, Loc) else ("addr", (("t", v),))))
            elif op == "*":
                t = self.val(s1, v)
                o = self.on_deref(s1, fr, n, t)
                for s2 in ([s1] if o is None else o): out.append((s2, Loc(self.deref(t))))
            elif op == "-": out.append((s1, lmul(self.val(s1, v), -1)))
            elif op == "+": out.append((s1, self.val(s1, v)))
            elif op == "~": out.append((s1, ("op", "~", self.val(s1, v))))
            else: out.append((s1, ("op", op, self.val(s1, v))))
        return out
    def arith(self, op, a, b, ty=""):
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            try:
                r = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if 0 <= y < 64 else None, ">>": x >> y if 0 <= y < 64 else None,
                     "/": (x // y if (x >= 0) == (y > 0) else -((-x) // y)) if y else None, "%": x % y if y and x >= 0 else None}.get(op)
                if r is not None: return C(r)
            except Exception: pass
        if op == "+": return ladd(a, b)
        if op == "-": return ladd(a, b, -1)
        if op == "*":
            if is_c(a): return lmul(b, a[1])
            if is_c(b): return lmul(a, b[1])
            return ("op", "*", *sorted((a, b), key=repr))
        if op in ("&", "|", "^"): return ("op", op, *sorted((a, b), key=repr))
        return ("op", op, a, b)
    def ev_BinaryOperator(self, n, s, fr):
        op = n.op; out = []
        if op in ("&&", "||"):
            t, f = self.cond(n, s, fr)
            return [(x, C(1)) for x in t] + [(x, C(0)) for x in f]
        if op == ",":
            for s1, _ in self.ev(n.kid(0), s, fr): out += self.ev(n.kid(1), s1, fr)
            return out
        if op == "=":
            for s1, v in self.ev_val(n.kid(1), s, fr):
                for s2, l in self.ev(n.kid(0), s1, fr):
                    if isinstance(l, Loc):
                        s3 = s2.write(l.p, v)
                        o = self.on_assign(s3, fr, n, l.p, v)
                        for s4 in ([s3] if o is None else o): out.append((s4, l))
                    else: out.append((s2, l))
            return out
        for s1, a in self.ev_val(n.kid(0), s, fr):
            for s2, b in self.ev_val(n.kid(1), s1, fr):
                if op in ("<", "<=", ">", ">=") and (b == C(0) and op in ("<=", ">") or a == C(0) and op in ("<", ">=")) and is_unsigned(n.kid(0).t):
                    t = T_cmp("==", a, b); out.append((s2, t if op in ("<=", ">=") else T_not(t)))
                elif op in ("<", "<=", ">", ">=", "==", "!="): out.append((s2, T_cmp(op, a, b)))
                else: out.append((s2, self.arith(op, a, b, n.t)))
        return out
    def ev_CompoundAssignOperator(self, n, s, fr):
        out = []
        for s1, v in self.ev_val(n.kid(1), s, fr):
            for s2, l in self.ev(n.kid(0), s1, fr):
                if isinstance(l, Loc):
                    t = self.arith(n.op[:-1], self.val(s2, l), v, n.t)
                    s3 = s2.write(l.p, t)
                    o = self.on_assign(s3, fr, n, l.p, t)
                    for s4 in ([s3] if o is None else o): out.append((s4, l))
                else: out.append((s2, l))
        return out
    def ev_ConditionalOperator(self, n, s, fr):
        t, f = self.cond(n.kid(0), s, fr); out = []
        for x in t: out += self.ev(n.kid(1), x, fr)
        for x in f: out += self.ev(n.kid(2), x, fr)
        return out
    def ev_CXXThrowExpr(self, n, s, fr):
        if n.kid(0) is None:
            st = self.__dict__.get("_curexc", [])
            self.throw(s, fr, st[-1] if st else "?", n); return []
        for s1, v in self.ev(n.kid(0), s, fr): self.throw(s1, fr, n.s_("tt") or "?", n)
        return []
    def ev_LambdaExpr(self, n, s, fr):
        caps = []
        cur = [s]; ki = 0
        kids = n.kids
        out = []
        states = [(s, ())]
        for i, c in enumerate(n.get("caps", [])):
            node = kids[i] if i < len(kids) else None
            nx = []
            for s0, acc in states:
                if c[0] in ("this", "*this"): nx.append((s0, acc + (("this", fr.this),))); continue
                if node is None: nx.append((s0, acc)); continue
                for s1, v in self.ev(node, s0, fr):
                    if c[0] == "ref" and isinstance(v, Loc): nx.append((s1, acc + ((c[1], "ref", v.p, c[2]),)))
                    else: nx.append((s1, acc + ((c[1], "val", self.val(s1, v), c[2]),)))
            states = nx
        for s0, acc in states: out.append((s0, ("lam", n.get("fn"), n.get("cls"), acc)))
        return out
    def ev_CXXRewrittenBinaryOperator(self, n, s, fr): return self.ev(n.kid(0), s, fr)
    def ev_CXXNewExpr(self, n, s, fr):
        if n.get("npl") == 1 and n.kids:
            out = []
            ini = [c for c in n.kids[:-1]]
            for s1, v in self.ev_val(n.kids[-1], s, fr):
                p = self.deref(v)
                o = self.on_placement(s1, fr, n, p)
                for s2 in ([s1] if o is None else o):
                    if ini:
                        for s3 in self.init_to(ini[-1], s2, fr, p): out.append((s3, v))
                    else: out.append((s2.havoc(p, ("pn", fr.id, n.id)), v))
            return out
        cur = [(s, ())]
        for c in n.kids:
            if c.k in CTORS:
                cur = [(s2, a) for s1, a in cur for s2, a2 in self._args(c.kids, s1, fr) for a in [a + tuple(a2)]]
            else: cur = [(s2, a + (v,)) for s1, a in cur for s2, v in self.ev(c, s1, fr)]
        out = []
        for s1, a in cur:
            o = self.on_new(s1, fr, n, a)
            if o is not None: out += o
            else:
                s2, sym = self.fresh(s1, fr, n); out.append((s2, ("new", sym)))
        return out
    def ev_CXXDeleteExpr(self, n, s, fr):
        out = []
        for s1, v in self.ev_val(n.kid(0), s, fr):
            o = self.on_delete(s1, fr, n, v)
            out += [(x, ("void",)) for x in ([s1] if o is None else o)]
        return out
    def ev_InitListExpr(self, n, s, fr):
        if len(n.kids) == 1 and "::" in n.t and n.kids[0].t.replace("const ", "") == n.t.replace("const ", "") and not n.kids[0].get("lv"): return self.ev(n.kids[0], s, fr)
        cur = [(s, ())]
        for c in n.kids:
            cur = [(s2, a + (self.val(s2, v),)) for s1, a in cur for s2, v in self.ev(c, s1, fr)]
        scalar = "::" not in n.t or n.t.rstrip().endswith(("*", "&")) or (len(n.kids) == 1 and n.kids[0].t.replace("const ", "") == n.t.replace("const ", ""))
        if not n.kids and scalar and "[" not in n.t: return [(s1, C(0)) for s1, a in cur]
        return [(s1, a[0] if len(a) == 1 and scalar else ("init", n.t, *a)) for s1, a in cur]
    def ev_CXXStdInitializerListExpr(self, n, s, fr): return self.ev(n.kid(0), s, fr)
    def ev_CXXTypeidExpr(self, n, s, fr): return [(s, ("typeid", n.id))]
    def ev_CXXScalarValueInitExpr(self, n, s, fr): return [(s, C(0))]
    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr
    # ---------------- constructors
    def ev_CXXConstructExpr(self, n, s, fr):
        cf = self.m.fns.get(n.get("fn"))
        if (n.get("cpy") or n.get("mov")) and len(n.kids) == 1 and not (cf is not None and not cf.imp and not cf.raw.get("def") and self.want_inline(cf, fr)):
            out = []
            for s1, v in self.ev(n.kid(0), s, fr):
                t = self.val(s1, v)
                if isinstance(v, Loc) and t[0] == "in" and self.has_sub(s1, v.p):
                    path = (("tmp", fr.id, n.id),)
                    s1 = s1.write(path, t); s1.copy_sub(v.p, path); t = Loc(path)
                if isinstance(v, Loc) and n.get("mov"):
                    o = self.on_move(s1, fr, n, v.p)
                    for s2 in ([s1] if o is None else o): out.append((s2, t))
                else: out.append((s1, t))
            return out
        path = (("tmp", fr.id, n.id),)
        out = []
        for s1 in self.construct(n, s, fr, path): out.append((s1, Loc(path)))
        return out
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    def _args(self, kids, s, fr):
        cur = [(s, [])]
        for c in kids:
            nx = []
            for s1, a in cur:
                for s2, v in self.ev(c, s1, fr): nx.append((s2, a + [v]))
            cur = nx
        return cur
    def construct(self, n, s, fr, path):
        """run constructor expression n on location path -> states"""
        out = []
        if (n.get("cpy") or n.get("mov")) and len(n.kids) == 1:
            fn = self.m.fns.get(n.get("fn"))
            if not (fn is not None and not fn.raw.get("def") and not fn.imp and self.want_inline(fn, fr)):
                inner = strip(n.kid(0))
                for s1, v in self.ev(n.kid(0), s, fr):
                    o = self.on_ctor(s1, fr, n, n.name, path, [v])
                    if o is not None: out += o; continue
                    if isinstance(v, Loc):
                        t = s1.read(v.p)
                        s2 = s1.write(path, t)
                        if self.has_sub(s1, v.p): s2.copy_sub(v.p, path)
                        if n.get("mov"):
                            o = self.on_move(s2, fr, n, v.p)
                            if o is not None: out += o; continue
                    else: s2 = s1.write(path, v)
                    o = self.on_assign(s2, fr, n, path, s2.read(path))
                    out += [s2] if o is None else o
                return out
        for s1, args in self._args(n.kids, s, fr):
            o = self.on_ctor(s1, fr, n, n.name, path, args)
            if o is not None: out += o; continue
            fn = self.m.fns.get(n.get("fn"))
            if fn is not None and not fn.imp and self.want_inline(fn, fr):
                s2 = s1.havoc(path, ("ct", fr.id, n.id))
                out += [x for x, _ in self.inline(fn, s2, fr, n, path, args)]
                continue
            vals = [self.val(s1, a) if not (isinstance(a, Loc)) else s1.read(a.p) for a in args]
            s2 = self.mut_args(n.kids, args, s1, fr, n)
            ty = n.t.replace("const ", "")
            base = ty.split("<")[0]
            if base in ("std::basic_string", "std::basic_string_view", "std::span") and len(vals) == 1: t = vals[0] if base != "std::basic_string" or True else vals[0]
            elif base == "std::__cmp_cat::__unspec": t = C(0)
            elif not vals: t = ("empty", base)
            else: t = ("ctor", base, *vals)
            s2 = s2.write(path, t)
            o = self.on_assign(s2, fr, n, path, t)
            out += [s2] if o is None else o
        return out
    # ---------------- calls
    def mut_args(self, nodes, args, s, fr, n):
        for a, v in zip(nodes, args):
            if isinstance(v, Loc) and a.get("lv") and not a.t.startswith("const ") and a.s_("ck") != "LValueToRValue":
                s = s.havoc(v.p, ("mut", fr.id, n.id))
            elif isinstance(v, tuple) and v[0] == "addr" and not a.t.startswith("const ") and a.t.endswith("*") and not a.t.startswith("char *const"):
                if v[1] and v[1] != fr.this: s = s.havoc(v[1], ("mut", fr.id, n.id))
        return s
    def ev_CallExpr(self, n, s, fr):
        name = n.name
        if name in ("std::move", "std::forward", "std::as_const", "std::launder") and len(n.kids) == 2:
            return self.ev(n.kid(1), s, fr)
        if name == "std::get" and n.get("ta") and len(n.kids) == 2:
            return [(s1, Loc(self.resolve_ref(s1, (v.p if isinstance(v, Loc) else (("t", v),)) + (("get", n.get("ta")[0]),)))) for s1, v in self.ev(n.kid(1), s, fr)]
        if name in ("std::addressof", "std::__addressof"):
            return [(s1, ("addr", v.p) if isinstance(v, Loc) else v) for s1, v in self.ev(n.kid(1), s, fr)]
        return self.call(n, s, fr, None, call_args(n))
    ev_UserDefinedLiteral = ev_CallExpr
    def ev_CXXMemberCallExpr(self, n, s, fr):
        me = n.kid(0)
        while me.k == "ParenExpr": me = me.kid(0)
        out = []
        if me.k == "MemberExpr":
            base = me.kid(0)
            for s1, v in self.ev(base, s, fr):
                if me.get("ar"):
                    t = self.val(s1, v)
                    o = self.on_deref(s1, fr, me, t)
                    for s2 in ([s1] if o is None else o): out += self.call(n, s2, fr, Loc(self.deref(t)), call_args(n))
                else: out += self.call(n, s1, fr, v, call_args(n))
            return out
        return self.call(n, s, fr, None, n.kids[1:])
    def ev_CXXOperatorCallExpr(self, n, s, fr):
        out = []
        if n.get("oo") == 1:
            for s1, v in self.ev(n.kid(1), s, fr): out += self.call(n, s1, fr, v, n.kids[2:])
            return out
        return self.call(n, s, fr, None, n.kids[1:])
    def call(self, n, s, fr, obj, argn):
        self.stats["calls"] += 1
        out = []
        name = n.name
        callee_states = [(s, None)]
        if not name and n.k == "CallExpr":      # call through pointer / unresolved
            callee_states = self.ev(n.kid(0), s, fr)
            callee_states = [(s1, self.val(s1, v)) for s1, v in callee_states]
        for s0, cv in callee_states:
            for s1, args in self._args(argn, s0, fr):
                out += self.apply(n, s1, fr, name, obj, args, argn, cv)
        return out
    def apply(self, n, s, fr, name, obj, args, argn, cv=None):
        o = self.on_call(s, fr, n, name, obj, args)
        if o is not None: return o
        short = name.split("::")[-1]
        # lambda objects
        if short == "operator()" and obj is not None:
            t = self.val(s, obj)
            if t[0] == "lam": return self.call_lambda(t, s, fr, n, args)
            if t[0] == "fn" and t[1] in self.m.fns: 
                g = self.m.fns[t[1]]
                if self.want_inline(g, fr): return self.inline(g, s, fr, n, None, args)
        if cv is not None:
            if cv[0] == "lam": return self.call_lambda(cv, s, fr, n, args)
            if cv[0] == "fn" and cv[1] in self.m.fns and self.want_inline(self.m.fns[cv[1]], fr):
                return self.inline(self.m.fns[cv[1]], s, fr, n, None, args)
        fn = self.m.fns.get(n.get("fn"))
        if fn is not None:
            this = None
            if obj is not None: this = obj.p if isinstance(obj, Loc) else (("t", obj),)
            if fn.coro:
                # lazily started: remember the bindings, run when awaited
                return [(s, ("lazy", fn.id, this if this is not None else ("none",), tuple(("L", a.p) if isinstance(a, Loc) else ("T", a) for a in args), (fr.id, n.id)))]
            if fn.lam and this is not None:
                pass
            if self.want_inline(fn, fr) and not (short == "operator=" and (fn.raw.get("def") or fn.imp)):
                return self.inline(fn, s, fr, n, this, args)
        return self.extern(n, s, fr, name, short, obj, args, argn)
    def call_lambda(self, t, s, fr, n, args):
        g = self.m.fns.get(t[1])
        if g is None and n.get("fn") in self.m.fns: g = self.m.fns[n.get("fn")]
        if n.get("fn") in self.m.fns and self.m.fns[n.get("fn")].lam: g = self.m.fns[n.get("fn")]
        if g is None:
            s1, sym = self.fresh(s, fr, n); return [(s1, sym)]
        if g.coro:
            return [(s, ("lazy", g.id, ("lam", t), tuple(("L", a.p) if isinstance(a, Loc) else ("T", a) for a in args), (fr.id, n.id)))]
        f = fr; dep = 0
        while f: dep += f.fn is g; f = f.parent
        if dep or fr.depth >= self.max_depth or not (self.force_inline(g) or self.relevant(g) or self.tiny(g)):
            s1 = self.havoc_caps(t, s, fr, n)
            s1, sym = self.fresh(s1, fr, n); return [(s1, sym)]
        return self.inline(g, s, fr, n, ("lam", t), args)
    def havoc_caps(self, t, s, fr, n):
        for c in t[3]:
            if len(c) == 4 and c[1] == "ref": s = s.havoc(c[2], ("lamh", fr.id, n.id))
            elif c[0] == "this": s = s.havoc(c[1], ("lamh", fr.id, n.id))
        return s
    def inline(self, fn, s, fr, n, this, args):
        """-> [(state, value)]"""
        self.stats["inlined"] += 1
        nf = Frame(fn, self._fid((fr.id, n.id if n is not None else -1, fn.id)), None, fr.depth + 1, fr, n)
        # stale locals from an earlier activation of this call site
        dead = [k for k in s.env if self._of_frame(k, nf.id) or (k[0] == "ref" and self._of_frame(k[1], nf.id))]
        s = s.cp()
        for k in dead: s.env.pop(k, None)
        if this is not None and len(this) and this[0] == "lam":
            t = this[1]
            for c in t[3]:
                if c[0] == "this": nf.this = c[1]
                elif c[1] == "ref": nf.caps[c[0]] = Loc(c[2])
                else:
                    s.env[(("v", nf.id, c[0], c[3]),)] = c[2]
        else:
            nf.this = this if this is not None else (("root", "?"),)
        for (pid, pn, pt), a in zip(fn.params, args):
            if pt.rstrip().endswith("&"):
                if isinstance(a, Loc): nf.bind[pid] = a
                else: nf.bind[pid] = Loc((("t", a),))
            else:
                p = (("v", nf.id, pid, pn),)
                if isinstance(a, Loc):
                    v = s.read(a.p)
                    s = s.write(p, v); s.copy_sub(a.p, p)
                else: s = s.write(p, a)
        if fn.lam and (this is None or this[0] != "lam") and this is not None:
            t = s.read(this)
            if t[0] == "lam":
                for c in t[3]:
                    if c[0] == "this": nf.this = c[1]
                    elif c[1] == "ref": nf.caps[c[0]] = Loc(c[2])
                    else: s.env[(("v", nf.id, c[0], c[3]),)] = c[2]
        live0 = s.live; s = s.cp(); s.live = ()
        outs = self.run_frame(nf, [s])
        res = []
        for k, s1, v in outs:
            s2 = s1.cp(); s2.live = live0
            if k == "ret": res.append((s2, v))
            else: fr.exc.append((s2, v))
        return res
    def ev_CoawaitExpr(self, n, s, fr):
        out = []
        for s1, v in self.ev(n.kid(0), s, fr):
            out += self.await_(n, s1, fr, v)
        return out
    def await_(self, n, s, fr, v):
        t = self.val(s, v)
        o = self.on_await(s, fr, n, t)
        if o is not None: return o
        if t[0] == "lazy":
            g = self.m.fns[t[1]]
            if self.want_inline(g, fr):
                args = [Loc(a[1]) if a[0] == "L" else a[1] for a in t[3]]
                this = t[2]
                if this == ("none",): this = None
                class N: pass
                return self.inline(g, s, fr, n, this, args)
            for a in t[3]:
                if a[0] == "L": s = s.havoc(a[1], ("aw", fr.id, n.id))
            if t[2] and t[2] != ("none",) and t[2][0] != "lam": s = s.havoc(t[2], ("aw", fr.id, n.id))
        elif isinstance(v, Loc) and v.p[:1] and v.p[0][0] == "tmp": pass
        s, sym = self.fresh(s, fr, n)
        if self.await_throws(n, t): self.throw(s, fr, "?", n)
        return [(s, sym)]
    def await_throws(self, n, t): return False
    def extern(self, n, s, fr, name, short, obj, args, argn):
        if name in THROWERS: self.throw(s, fr, "?", n); return []
        if name in ENDERS: return []
        if name in ("std::swap", "std::ranges::swap") and len(args) == 2 and all(isinstance(a, Loc) for a in args):
            return [(x, ("void",)) for x in self.swap_locs(s, fr, n, args[0].p, args[1].p)]
        if short == "swap" and obj is not None and isinstance(obj, Loc) and len(args) == 1 and isinstance(args[0], Loc):
            return [(x, ("void",)) for x in self.swap_locs(s, fr, n, obj.p, args[0].p)]
        if name == "std::exchange" and len(args) == 2 and isinstance(args[0], Loc):
            old = s.read(args[0].p); v = self.val(s, args[1]); s2 = s.write(args[0].p, v)
            o = self.on_assign(s2, fr, n, args[0].p, v)
            return [(x, old) for x in ([s2] if o is None else o)]
        ty_obj = ""
        if obj is not None:
            p = obj.p if isinstance(obj, Loc) else (("t", obj),)
            on = call_obj(n); ty_obj = (on.t if on is not None else "").replace("const ", "")
            if ty_obj.endswith("*"): ty_obj = ty_obj[:-1].strip()
            smart = ty_obj.startswith(SP)
            if smart and short in ("operator->", "operator*", "get", "value"):
                q = p + ("*",)
                if short == "value": self._maybe_throw(s, fr, n, name)
                o = self.on_deref(s, fr, n, ("addr", q)) if short in ("operator->", "operator*") else None
                res = []
                for s1 in ([s] if o is None else o):
                    if ty_obj.startswith("HX::container::Uninitialized"): res.append((s1, Loc(q))); continue
                    if short in ("operator*", "value"): res.append((s1, Loc(q)))
                    else: res.append((s1, ("addr", q)))
                return res
            if smart and (short in ("operator bool", "has_value", "isAvailable")):
                return [(s, ("ne0", lin(("ptr", p, s.vers(p)) if False else ("ptr", p))))]
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and args:
                v = args[0]
                if isinstance(v, Loc):
                    t = s.read(v.p); s2 = s.write(p, t)
                    if t[0] == "in": s2.copy_sub(v.p, p)
                else: t = v; s2 = s.write(p, t)
                s2.forget(("ptr", p))
                o = self.on_assign(s2, fr, n, p, t)
                return [(x, obj) for x in ([s2] if o is None else o)]
            if n.get("cm") or short in PURE_M or (n.k == "CXXOperatorCallExpr" and n.op in ("*", "->", "[]", "==", "!=", "<", "-", "+")):
                t = s.read(p)
                vals = [self.val(s, a) for a in args]
                self._maybe_throw(s, fr, n, name)
                if short == "empty" and not vals: return [(s, T_eq0(size_of(t)))]
                if short in ("subspan", "substr") and vals and vals[-1] == C(NPOS): vals = vals[:-1]
                if short in ("size", "length") and not vals:
                    if t[0] == "s": return [(s, C(len(t[1])))]
                    if t[0] == "empty": return [(s, C(0))]
                    if t[0] == "ctor" and t[1] in ("std::basic_string_view", "std::span") and len(t) == 4: return [(s, t[3])]
                    return [(s, size_of(t))]
                if short in ("operator[]", "at", "front", "back", "operator*", "value") and n.get("lv"):
                    idx = vals[0] if vals else C(0) if short == "front" else ("last",) if short == "back" else ("deref",)
                    o = self.on_index(s, fr, n, p, idx) if short in ("operator[]", "front", "back") else None
                    res = []
                    for s1 in ([s] if o is None else o): res.append((s1, Loc(p + (("[]", idx),))))
                    if n.k == "CXXOperatorCallExpr" and n.op == "*":
                        oo = self.on_deref(s, fr, n, t)
                        return [(x, Loc((("*", t),))) for x in ([s] if oo is None else oo)]
                    return res
                if n.k == "CXXOperatorCallExpr" and n.op == "->":
                    return [(s, ("addr", (("*", t),)))]
                if n.k == "CXXOperatorCallExpr" and n.op in ("-", "+") and len(vals) == 1: return [(s, self.arith(n.op, t, vals[0]))]
                if n.k == "CXXOperatorCallExpr" and n.op in ("==", "!=") and len(vals) == 1: return [(s, T_cmp(n.op, t, vals[0]))]
                if short == "operator bool": return [(s, T_truth(t))]
                return [(s, ("m", short, t, *vals))]
            # mutating method
            self._maybe_throw(s, fr, n, name)
            vals = tuple(self.val(s, a) for a in args)
            s = self.mut_args(argn, args, s, fr, n)
            if short == "clear" and not args: s = s.write(p, ("empty", "cleared"))
            elif short == "release" and smart: pass
            else:
                if p != (("root", "?"),) and not (p and isinstance(p[0], tuple) and p[0][0] == "t"):
                    s = s.havoc(p, ("call", fr.id, n.id))
                s.forget(("ptr", p))
            s, sym = self.fresh(s, fr, n)
            return [(s, sym)]
        self._maybe_throw(s, fr, n, name)
        vals = [self.val(s, a) for a in args]
        if short == "operator<=>" and len(vals) == 2: return [(s, ladd(vals[0], vals[1], -1))]
        if name == "std::chrono::duration::zero": return [(s, C(0))]
        if n.k == "CXXOperatorCallExpr" and len(vals) == 2 and n.op in ("==", "!=", "<", "<=", ">", ">="):
            if n.op in ("==", "!=") : return [(s, T_cmp(n.op, vals[0], vals[1]))]
            return [(s, T_cmp(n.op, vals[0], vals[1]))]
        if n.k == "CXXOperatorCallExpr" and len(vals) == 2 and n.op in ("-", "+") : return [(s, self.arith(n.op, vals[0], vals[1]))]
        if name in ("std::min", "std::max") and len(vals) == 2: return [(s, (name[5:], *sorted(vals, key=repr)))]
        s = self.mut_args(argn, args, s, fr, n)
        if name in PURE_F: return [(s, ("call", name, *vals))]
        s, sym = self.fresh(s, fr, n)
        return [(s, sym)]
    def swap_locs(self, s, fr, n, p, q):
        a = s.read(p); b = s.read(q)
        sa = {k[len(p):]: v for k, v in s.env.items() if k[0] not in ("ver", "ref") and len(k) > len(p) and k[:len(p)] == p}
        sb = {k[len(q):]: v for k, v in s.env.items() if k[0] not in ("ver", "ref") and len(k) > len(q) and k[:len(q)] == q}
        s2 = s.write(p, b).write(q, a)
        for k, v in sb.items(): s2.env[p + k] = v
        for k, v in sa.items(): s2.env[q + k] = v
        cur = [s2]
        for l, t in ((p, b), (q, a)):
            nx = []
            for x in cur:
                o = self.on_assign(x, fr, n, l, t); nx += [x] if o is None else o
            cur = nx
        return cur
    def _maybe_throw(self, s, fr, n, name):
        t = self.lib_throws(name, n)
        if t: self.throw(s, fr, t if isinstance(t, str) else "?", n)

THROWERS = {"std::rethrow_exception", "std::throw_with_nested"}
ENDERS = {"std::terminate", "abort", "std::abort", "exit", "std::exit", "_exit", "__builtin_unreachable", "__builtin_abort", "std::unreachable"}
PURE_F = {"std::isdigit", "std::isalpha", "std::strlen", "strlen", "isdigit", "isxdigit", "std::isxdigit", "htons", "htonl", "ntohs", "ntohl", "__builtin_bswap16", "__builtin_bswap32", "__builtin_bswap64",
          "std::abs", "std::bit_cast", "std::to_string", "std::make_error_code", "std::get", "std::get_if", "std::holds_alternative", "std::tolower", "std::toupper", "tolower", "toupper"}

def k_is(n, k): return n.k == k
def subst_norm(f, a, b):
    """substitute inside a fact, renormalising the linear form"""
    if f[0] in ("ge0", "eq0", "ne0"):
        L = f[1]; acc = C(L[1])
        for t, c in L[2]:
            t2 = b if t == a else subst(t, a, b)
            acc = ladd(acc, lmul(t2, c))
        r = T_ge0(acc) if f[0] == "ge0" else T_eq0(acc)
        return T_not(r) if f[0] == "ne0" else r
    return subst(f, a, b)
