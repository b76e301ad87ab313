"""Lifetime of stored values."""
from rules import *
import re
G = ("ghost",)
META = dict(title="Optional storage and variants run each value's lifetime exactly once",
    statement="For every sequence of operations on the library's uninitialised storage, variant and Try types, a stored value is constructed only over dead storage, destroyed exactly once before its storage is reused or released, and the recorded state always names the value that is alive, also when a constructor throws. Checked access succeeds exactly for the alternative that is alive and throws otherwise; copy, move, assignment and swap leave each object holding the alternative and value of its source, and a visitor is called once with the live alternative.",
    over=["histories", "fault_sequences"], q="every instantiated type, every operation, every starting state of the objects involved, with every constructor throwing",
    why="Leaks, double destruction and reads of dead alternatives stay silent for the trivial types tests use and depend on the alternative held and on which constructor throws.",
    files=["container/Uninitialized.hpp", "container/UninitializedNonVoidVariant.hpp", "container/Try.hpp"],
    mech=[("storage", "container/Uninitialized.hpp Uninitialized"), ("variant", "container/UninitializedNonVoidVariant.hpp UninitializedNonVoidVariant")],
    technique="typestate analysis of the union storage: live alternative versus recorded tag, over every operation and starting state",
    note="Alternatives of scalar type need no destruction and may be overwritten. Unchecked (Nothrow) access is a precondition of the caller.",
    design="""For each class with union storage every public operation is run from every state (nothing alive, each alternative alive) of the object and of an operand of the same type. Placement construction requires dead
storage and may throw before the value is alive; a destructor call or destroy_at requires that alternative alive; passing an alternative to anything else requires it alive. On every exit, normal or exceptional, the tag
must name the live alternative; destructors must leave nothing alive; per-operation postconditions (copy, move, swap, emplace, get, visit, compare) are checked on the final state.""")
TUS = ["coro"]
ASSUMES = ["destructors do not throw", "objects are not assigned to themselves through aliases", "placement construction and destroy_at act on the address they are given"]
CLS = ("HX::container::Uninitialized", "HX::container::UninitializedNonVoidVariant")
SCALAR = ("void", "int", "bool", "char", "unsigned", "long", "float", "double", "HX::container::NonVoidHelper", "std::exception_ptr_none")

def targs(full):
    """top-level template arguments"""
    i = full.find("<"); out = []; d = 0; cur = ""
    if i < 0: return out
    for ch in full[i + 1:]:
        if ch == "<": d += 1
        if ch == ">":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    return out + [cur.strip()]


def parse(p):
    """(object, alternative, rest) of a path into union storage (innermost union)"""
    for e in range(len(p), 2, -1):
        if p[e - 1] != "_data": continue
        if p[e - 2] == "_head":
            i = e - 3; k = 0
            if p[i] != "": continue
            i -= 1
            while i >= 1 and p[i] == "_body" and p[i - 1] == "": i -= 2; k += 1
            if i >= 1 and p[i] == "_data" and p[i - 1] == "": return p[:i - 1], k, p[e:], "v"
        elif p[e - 2] == "" and e - 2 > 0: return p[:e - 2], 0, p[e:], "u"
    return None
def altpath(kind, o, k): return o + ("", "_data") if kind == "u" else o + ("", "_data") + ("", "_body") * k + ("", "_head", "_data")
def trivial(t):
    t = t.replace("const ", "").strip()
    return t in SCALAR or t.endswith("*") or t.startswith("HX::container::NonVoidHelper")
PURE = ("std::addressof", "std::forward", "std::move", "std::as_const", "std::__addressof")

class R(Calls):
    local = True
    def setup(s, cls, bad): s.cls = cls; s.bad = bad; s.kind = "u" if cls.endswith("Uninitialized") else "v"; s.n = [0, 0, 0]; s.alts = {}; return s
    def alt(s, p):
        r = parse(p) if isinstance(p, tuple) and p and p[0] != G else None
        if r is None or (s.kind == "u" and r[3] != "u"):
            # an object nested in the storage under analysis
            if r is None or s.kind != "u": return None
            for e in range(2, len(p)):
                if p[e] == "_data" and p[e - 1] == "": return p[:e - 1], 0, p[e + 1:], "u"
            return None
        return r
    alias = None
    def run_frame(s, fr, sts):
        if s.alias is not None and fr.depth == 0:
            for pid in s.alias: fr.bind[pid] = Loc((("root", "this"),))
        elif fr.depth == 0 and len(s.objt) > 1:
            ps = sorted(o for o in s.objt if o is not None)
            sts = [s.apart(x, ps) for x in sts]
        return super().run_frame(fr, sts)
    def apart(s, st, ps):
        for i, a in enumerate(ps):
            for b in ps[i + 1:]:
                st = st.assume(T_cmp("!=", ("addr", a), ("addr", b)), True) or st
        return st
    def live(s, st, o): return st.env.get((G, "L") + o, C(-1))
    def setlive(s, st, o, k): st = st.cp(); st.env[(G, "L") + o] = C(k); return st
    def skey(s, st): return (frozenset((k, v) for k, v in st.env.items() if k[:2] in ((G, "L"), (G, "seen"))),)
    def force_inline(s, g):
        if g.lam and g.file == s.entry.file: return True
        return g.clsn == s.cls or g.clsn.startswith("HX::container::internal::UninitializedNonVoidVariantImpl") or (s.kind == "v" and g.clsn.endswith("::Uninitialized")) or (not g.clsn and g.file == s.entry.file)
    def want_inline(s, g, fr): return s.force_inline(g)
    def on_placement(s, st, fr, n, path):
        a = s.alt(path)
        if a is None: return None
        o, k, rest, kind = a; s.n[0] += 1
        if rest: return None
        if s.live(st, o) != C(-1) and not s.triv(o, s.live(st, o)): s.bad("place", "a value is constructed over alternative %s that is still alive" % s.live(st, o)[1], fr, n)
        s.throw(s.setlive(st, o, -1), fr, "?", n)
        return [s.setlive(st, o, k)]
    def triv(s, o, k):
        al = s.types(o)
        return al is not None and isinstance(k, tuple) and k[0] == "c" and 0 <= k[1] < len(al) and trivial(al[k[1]])
    def types(s, o): return s.objt.get(o) or (s.objt.get(None) if len(o) == 1 else None)
    def kill_(s, st, fr, n, p):
        a = s.alt(p)
        if a is None or a[2]: return None
        o, k = a[:2]; s.n[1] += 1
        if s.live(st, o) != C(k): s.bad("destroy", "alternative %d is destroyed while %s is alive" % (k, "nothing" if s.live(st, o) == C(-1) else s.live(st, o)[1]), fr, n)
        st = st.write(p, ("dead",))
        return s.setlive(st, o, -1)
    def on_dtor(s, st, fr, p, ty, var):
        t = re.sub(r"\bstd::string\b(?!_)", "std::basic_string<char>", ty.replace("const ", "").strip())
        if not t.startswith(CLS): return None
        if "<" not in t: t = owner(fr.fn) if fr.fn.clsn == t else None
        if t is None or not any(g.short == "(dtor)" and g.body is not None and owner(g) == t for g in s.m.fns.values() if g.clsn in CLS): raise LookupError("destructor of a local %s" % ty)
        for g in s.m.fns.values():
            if g.short == "(dtor)" and g.clsn in CLS and g.body is not None and owner(g) == t:
                al = targs(t); out = []
                for x, _ in s.inline(g, st, fr, None, p, []):
                    k = s.live(x, p)[1]
                    out.append(s.setlive(x, p, -1) if k >= 0 and trivial(al[k]) else x)
                return out
        return None
    def on_call(s, st, fr, n, name, obj, args):
        short = name.split("::")[-1]
        if short == "(dtor)" and isinstance(obj, Loc):
            r = s.kill_(st, fr, n, obj.p)
            if r is not None: return [(r, ("void",))]
        if name.startswith("std::destroy_at") and args:
            v = s.val(st, args[0])
            r = s.kill_(st, fr, n, v[1]) if v[0] == "addr" else None
            if r is not None: return [(r, ("void",))]
        g = s.m.fns.get(n.get("fn"))
        if g is not None and g.body is not None and s.force_inline(g): return super().on_call(st, fr, n, name, obj, args)
        if name.startswith(PURE): return super().on_call(st, fr, n, name, obj, args)
        used = []
        for a in (obj,) + tuple(args):
            p = a.p if isinstance(a, Loc) else a[1] if isinstance(a, tuple) and a and a[0] == "addr" else None
            r = s.alt(p) if p is not None else None
            if r is None: continue
            s.n[2] += 1; used.append((r[0], r[1], p))
            if s.live(st, r[0]) != C(r[1]): s.bad("use", "alternative %d is handed to %s while %s is alive" % (r[1], name, "nothing" if s.live(st, r[0]) == C(-1) else s.live(st, r[0])[1]), fr, n)
        if short == "swap" and len(used) == 2:
            (oa, ka, pa), (ob, kb, pb) = used
            if ka != kb: s.bad("swap", "different alternatives are exchanged", fr, n)
            a, b = s.val(st, st.read(pa)), s.val(st, st.read(pb))
            return [(st.write(pa, b).write(pb, a), ("void",))]
        if short == "operator()" and used:
            st = st.cp(); old = st.env.get((G, "seen"), C(0)); st.env[(G, "seen")] = ("seen", old, used[0][0], used[0][1])
            s.throw(st, fr, "?", n)
            return [s.fresh(st, fr, n)]
        return super().on_call(st, fr, n, name, obj, args)

def check(ctx):
    m = ctx.model("coro")
    r1 = ctx.rule("placement over dead storage, destruction of the live alternative exactly once, uses only of the live alternative, tag names the live alternative on every exit")
    r2 = ctx.rule("each operation leaves the alternative and value it promises; checked access and visiting follow the live alternative")
    nf = 0; ns = 0; tot = [0, 0, 0]
    for f in m.fns.values():
        if f.body is None: continue
        base = f.clsn if f.clsn in CLS else None
        free = not f.clsn and f.n in ("HX::container::visit", "HX::container::get") and "UninitializedNonVoidVariant.hpp" in f.file
        if base is None and not free: continue
        if f.lam or f.raw.get("acc") == "private" or "(anonymous" in f.full: continue
        if base and "<" not in f.full: continue
        cls = base or CLS[1]; kind = "u" if cls == CLS[0] else "v"
        # instance types
        objs = []
        if base:
            inst = owner(f)
            if inst is None: continue
            objs.append(((("root", "this"),), targs(inst)))
        for pid, pn, pt in [(x[0], x[1], x[2]) for x in f.params]:
            t = pt.replace("const ", "").strip().rstrip("&").strip()
            if t.startswith(cls + "<") and t.endswith(">"):
                if not pt.rstrip().endswith("&"): continue
                objs.append(((("root", pn, pid),), targs(t)))
            elif base and t == cls: objs.append(((("root", pn, pid),), objs[0][1]))
        if not objs: continue
        if kind == "u" and objs[0][1][0].strip() in ("void",): continue
        if any(a.endswith("&") for _, al in objs for a in al): continue
        nf += 1; ctx.analysed(f)
        ns += runs(ctx, m, f, cls, kind, objs, r1, r2, tot)
    ctx.count("operations analysed", nf); ctx.count("starting states", ns)
    ctx.count("constructions", tot[0]); ctx.count("destructions", tot[1]); ctx.count("uses of stored values", tot[2])
    ctx.at_least("operations analysed", 40); ctx.at_least("constructions", 40); ctx.at_least("destructions", 40)

def owner(f):
    """class instance of a member function, from its full name"""
    full = f.full; d = 0; last = None
    for i, ch in enumerate(full):
        if ch == "<" and not full[:i].endswith("operator"): d += 1
        elif ch == ">" and full[i - 1] != "-": d -= 1
        elif ch == ":" and d == 0 and full[i:i + 2] == "::": last = i
    return full[:last] if last else None

def runs(ctx, m, f, cls, kind, objs, r1, r2, tot):
    import itertools
    tagn = tagfield(m, cls); none = C(0) if kind == "u" else C(NPOS)
    tagof = lambda k: none if k < 0 else C(1) if kind == "u" else C(k)
    ctor = f.short == "(ctor)"; dtor = f.short == "(dtor)"
    alias = [False]
    mem = next(iter(objs))[0] == (("root", "this"),)
    idx = None
    ta = targs(f.full[f.full.rfind("::" + f.short) + 2:]) if "<" in f.full[f.full.rfind("::" + f.short) + 2:] else []
    if f.short in ("get", "emplace") and ta: idx = int(ta[0][:-2]) if re.match(r"^\d+UL$", ta[0]) else index_of(ta[0], objs[0][1])
    nothrow = "Nothrow" in "".join(ta)
    n = 0
    for start in itertools.product(*[[-1] if (ctor and i == 0 and mem) else range(-1, len(al)) for i, (o, al) in enumerate(objs)]):
        if f.short in ("get", "move") and kind == "u" and start[0] != 0: continue
        if f.short == "get" and nothrow and start[0] != idx: continue
        n += 1
        st = St()
        for (o, al), k in zip(objs, start):
            if not (ctor and o == (("root", "this"),)): st = st.write(o + (tagn,), tagof(k))
            st = st.cp(); st.env[(G, "L") + o] = C(k)
        label = "%s from %s" % (f.short, ",".join("none" if k < 0 else str(k) for k in start))
        def bad(key, msg, fr, nd, rule=r1): ctx.violation("%s:%s:%s:%s" % (f.n, f.short, key, nd.l if nd is not None else f.line), "%s (%s)" % (msg, label), fr.fn if fr is not None else f, line=nd.l if nd is not None else f.line)
        e = R(m).setup(cls, bad); e.objt = {o: al for o, al in objs}; e.objt[None] = None; e.entry = f
        outs = e.run(f, (), st)
        for i in range(3): tot[i] += e.n[i]
        if not outs: ctx.count("states ending in termination")
        rets = [x for x in outs if x[0] == "ret"]; excs = [x for x in outs if x[0] == "exc"]
        def fail(key, msg): ctx.violation("%s:%s:%s" % (f.n, f.short, key), "%s (%s)" % (msg, label), f, line=f.line)
        for i, (kd, s1, v) in enumerate(outs):
            # values without destructor: the tag decides what is alive
            for o, al in objs:
                L = e.live(s1, o)
                if e.triv(o, L) and not dtor and e.val(s1, s1.read(o + (tagn,))) == none: s1 = e.setlive(s1, o, -1)
            outs[i] = (kd, s1, v)
        rets = [x for x in outs if x[0] == "ret"]; excs = [x for x in outs if x[0] == "exc"]
        for kd, s1, v in outs:
            for o, al in objs:
                if ctor and kd == "exc" and o == (("root", "this"),):
                    L = e.live(s1, o)
                    if any(i[0] == "(delegate)" for i in f.inits):
                        # the destructor runs
                        t = e.val(s1, s1.read(o + (tagn,)))
                        if t != tagof(L[1]): fail("tag", "the delegating constructor throws with tag %s while %s is alive, and the destructor runs" % (show(t), "nothing" if L[1] < 0 else "alternative %d" % L[1]))
                    elif L != C(-1) and not e.triv(o, L): fail("leak", "the constructor throws with alternative %s alive" % L[1])
                    continue
                L = e.live(s1, o); t = e.val(s1, s1.read(o + (tagn,)))
                if L[1] >= 0 and dead(s1, altpath(kind, o, L[1])): fail("dead", "alternative %d is built from a destroyed value" % L[1])
                if dtor:
                    if L != C(-1) and not e.triv(o, L): fail("leak", "the object is destroyed with alternative %s alive" % L[1])
                elif t != tagof(L[1]) and not (e.triv(o, L) and t == none): fail("tag", "%s exit leaves tag %s while %s is alive" % ("a normal" if kd == "ret" else "an exceptional", show(t), "nothing" if L[1] < 0 else "alternative %d" % L[1]))
            for k, v2 in s1.env.items():
                if k[:2] == (G, "L") and k[2:] not in [o for o, _ in objs] and v2 != C(-1): fail("local", "a local object ends with alternative %s alive" % v2[1])
        post(e, f, kind, objs, start, rets, excs, idx, nothrow, tagn, fail)
    if len(objs) == 2 and mem and not ctor:
        # the operand is the object itself
        (o, al) = objs[0]
        for k in range(-1, len(al)):
            n += 1
            st = St().write(o + (tagn,), tagof(k)).cp(); st.env[(G, "L") + o] = C(k)
            label = "%s of an object with itself holding %s" % (f.short, "nothing" if k < 0 else str(k))
            def bad(key, msg, fr, nd, rule=r1): ctx.violation("%s:%s:self:%s:%s" % (f.n, f.short, key, nd.l if nd is not None else f.line), "%s (%s)" % (msg, label), fr.fn if fr is not None else f, line=nd.l if nd is not None else f.line)
            e = R(m).setup(cls, bad); e.objt = {o: al, None: None}; e.entry = f; e.alias = [x[0] for x in f.params]
            for kd, s1, v in e.run(f, (), st):
                L = e.live(s1, o); t = e.val(s1, s1.read(o + (tagn,)))
                if L[1] >= 0 and dead(s1, altpath(kind, o, L[1])): fail("dead", "alternative %d is built from a destroyed value" % L[1])
                if L[1] >= 0 and dead(s1, altpath(kind, o, L[1])): ctx.violation("%s:%s:self:dead" % (f.n, f.short), "alternative %d is built from a destroyed value (%s)" % (L[1], label), f, line=f.line)
                if t != tagof(L[1]) and not (e.triv(o, L) and t == none): ctx.violation("%s:%s:self:tag" % (f.n, f.short), "exit leaves tag %s while %s is alive (%s)" % (show(t), L[1], label), f, line=f.line)
                if kind == "v" and kd == "ret" and L != C(k): ctx.violation("%s:%s:self" % (f.n, f.short), "the value is lost (%s)" % label, f, line=f.line)
    return n

def dead(st, p): return any(x == ("dead",) for q, t in [(p, st.read(p))] + [(q, t) for q, t in st.env.items() if q[:len(p)] == p] for x in walk_term(t))
def index_of(t, al):
    t = {"void": "HX::container::NonVoidHelper<void>"}.get(t, t)
    al = [{"void": "HX::container::NonVoidHelper<void>"}.get(a, a) for a in al]
    return al.index(t) if t in al else None
def tagfield(m, cls):
    for c in m.classes.values():
        if c.n == cls or (c.full or "").split("<")[0] == cls:
            for x in c.fields:
                if x["t"] in ("bool", "unsigned long", "std::size_t", "size_t"): return x["n"]
    raise LookupError("no tag in " + cls)

def post(e, f, kind, objs, start, rets, excs, idx, nothrow, tagn, fail):
    this = objs[0][0]; sh = f.short; mem = this == (("root", "this"),); L = lambda s1, o: e.live(s1, o)[1]
    def has(s1, o, k, src):
        """the value held by alternative k of o comes from path src"""
        for t in reach(s1, Loc(altpath(kind, o, k))):
            if mentions_path(t, src): return True
        return False
    if sh == "get":
        if kind == "u": want = altpath("u", this, 0)
        else:
            if not nothrow and start[0] != idx:
                if rets: fail("get", "access to alternative %s succeeds although %s is alive" % (idx, start[0] if start[0] >= 0 else "nothing"))
                return
            want = altpath("v", this, idx)
        if not rets or excs: fail("get", "access to the live alternative does not return")
        for _, s1, v in rets:
            if not (isinstance(v, Loc) and v.p == want or isinstance(v, tuple) and v[0] in ("in", "addr") and v[1] == want): fail("get", "access returns something other than the live alternative: %s" % (v if isinstance(v, Loc) else show(v)))
    elif sh == "index":
        for _, s1, v in rets:
            if e.val(s1, v) != (C(NPOS) if start[0] < 0 else C(start[0])): fail("index", "index returns %s" % show(e.val(s1, v)))
    elif sh == "isAvailable":
        for _, s1, v in rets:
            if e.val(s1, v) != C(1 if start[0] >= 0 else 0): fail("index", "isAvailable returns %s" % show(e.val(s1, v)))
    elif sh in ("reset",):
        if not rets or any(L(s1, this) != -1 and not trivial(objs[0][1][L(s1, this)]) for _, s1, v in rets): fail("reset", "a value survives reset")
    elif sh == "move" and kind == "u":
        for _, s1, v in rets:
            if L(s1, this) != -1 and not trivial(objs[0][1][0]): fail("move", "the moved out value stays alive")
            if not any(mentions_path(t, altpath("u", this, 0)) for t in reach(s1, v)): fail("move", "move returns something other than the stored value")
    elif sh in ("emplace", "set"):
        want = 0 if kind == "u" else idx
        if not rets or any(L(s1, this) != want for _, s1, v in rets): fail("emplace", "alternative %s is not alive afterwards" % want)
        if kind == "v":
            for _, s1, v in rets:
                if not (isinstance(v, Loc) and v.p == altpath("v", this, idx) or isinstance(v, tuple) and v[0] in ("in", "addr") and v[1] == altpath("v", this, idx)): fail("emplace", "emplace returns something else")
    elif sh in ("(ctor)", "operator=") and len(objs) == 2:
        that = objs[1][0]; k = start[1]
        if not rets: fail("assign", "%s never succeeds" % sh)
        for _, s1, v in rets:
            if L(s1, this) != k: fail("assign", "the target holds %s afterwards" % L(s1, this))
            elif k >= 0 and not trivial_void(objs[0][1][k]) and not has(s1, this, k, altpath(kind, that, k)): fail("assign", "the target's value does not come from the source")
            if kind == "v" and L(s1, that) != k: fail("assign", "the source's alternative changes")
    elif sh == "operator=" and len(objs) == 1 or sh == "(ctor)" and len(objs) == 1 and f.params:
        if not rets or any(L(s1, this) < 0 for _, s1, v in rets): fail("assign", "no alternative is alive afterwards")
    elif sh == "(ctor)" and not f.params:
        if any(L(s1, this) != -1 for _, s1, v in rets): fail("ctor", "a value is alive in a new object")
    elif sh == "swap":
        a, b = objs[0][0], objs[1][0]
        if not rets: fail("swap", "swap never succeeds")
        for _, s1, v in rets:
            if (L(s1, a), L(s1, b)) != (start[1], start[0]): fail("swap", "alternatives are not exchanged"); continue
            for x, y, k in ((a, b, start[1]), (b, a, start[0])):
                if k >= 0 and not trivial_void(objs[0][1][k]) and not has(s1, x, k, altpath("v", y, k)): fail("swap", "values are not exchanged")
    elif sh in ("operator==", "operator!="):
        eq = start[0] == start[1]
        for _, s1, v in rets:
            t = e.val(s1, v); c = t[0] == "c"
            if not eq or start[0] < 0:
                if t != C(int(eq == (sh == "operator=="))): fail("equal", "comparison returns %s" % show(t))
            elif c and not trivial_void(objs[0][1][start[0]]): fail("equal", "comparison of two live values is constant")
    elif sh == "visit":
        o = objs[0][0]; k = start[0]
        if k < 0:
            if rets or any((G, "seen") in s1.env for _, s1, v in outs(rets, excs)): fail("visit", "visiting an empty variant does not throw")
        else:
            if not rets: fail("visit", "visiting never returns")
            for _, s1, v in rets:
                if s1.env.get((G, "seen")) != ("seen", C(0), o, k): fail("visit", "the visitor is not called once with the live alternative")
def outs(a, b): return a + b
def trivial_void(t): return t in ("void",) or t.startswith("HX::container::NonVoidHelper")
def mentions_path(t, p): return any(isinstance(x, tuple) and len(x) >= 2 and x[0] in ("in", "addr") and isinstance(x[1], tuple) and x[1][:len(p)] == p for x in walk_term(t))
