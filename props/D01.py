"""Prepared statements of the ORM."""
from rules import *
from owner import *
import re
G = ("ghost",)
META = dict(title="Every ORM execution binds, steps, reads and resets its statement",
    statement="Every execution of a SQL template, first or repeated, successful or failing, prepares the text at most once, binds each argument exactly once at its own position with an SQLite type that represents it, steps until the result is complete, and returns one row of correctly typed columns per result row; a failed prepare, bind or step is reported as an error and never as a result. Afterwards the cached statement is reset, so the next execution starts afresh. Statements and connections are released exactly once, statements first.",
    over=["inputs", "histories", "fault_sequences"], q="every argument and column tuple, every number of rows, every outcome of every SQLite call, first and repeated executions, every history of open, close and move",
    why="Errors in the second execution of a template, in a row after a failing one, or on reopening a database depend on histories and faults that the tests' single successful runs never produce.",
    files=["db/sql/Dml.hpp", "db/sqlite3/SqliteStmt.hpp", "db/sqlite3/SqliteDB.hpp", "db/sql/DataBase.hpp"],
    mech=[("execution", "db/sql/Dml.hpp SelectSqlBuild, InsertSqlBuild, MutationSqlBuild"), ("statement", "db/sqlite3/SqliteStmt.hpp SqliteStmt"), ("connection", "db/sqlite3/SqliteDB.hpp SqliteDB")],
    technique="typestate analysis of statement and connection handles with symbolic tracking of bound arguments and columns read",
    note="Covers the builder instantiations of the harness (integers, doubles, strings, optional columns, returning clauses). INSERT ... RETURNING is taken to produce exactly one row.",
    design="""Each execution root is run with the statement unprepared and already prepared, inlining the whole db layer down to the sqlite3 calls. Every sqlite3 call forks into its documented outcomes; a ghost typestate (unprepared,
ready, row, done, failed) with the set of bound indices decides the protocol; bound values must be the tuple element of that position, through a bind function of fitting width; columns read must be emitted in order, one row
per SQLITE_ROW; on every exit, also by exception, the statement must be reset. Handle ownership of SqliteStmt and SqliteDB is decided by a release typestate over their special members, open and close.""")
TUS = ["db"]
ASSUMES = ["sqlite3 functions behave as documented", "a template id is used for one SQL text", "arguments outlive the execution call"]
ROOTS = ("SelectSqlBuild", "InsertSqlBuild", "MutationSqlBuild", "MutationReturningSqlBuild")

def targs(full):
    i = full.find("<"); out = []; d = 0; cur = ""
    if i < 0: return out
    for ch in full[i + 1:]:
        if ch == "<": d += 1
        if ch == ">":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        cur += ch
    return [x for x in out + [cur.strip()] if x]
def plain(t):
    t = t.replace("const ", "").replace("&", "").strip()
    if t.startswith("HX::db::Constraint<"): t = plain(targs(t)[0])
    return t
INTS = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 8, "long": 8, "long long": 8, "unsigned long": 8, "unsigned long long": 8}
def kind(t):
    if t in INTS: return "int"
    if t in ("float", "double"): return "double"
    if t.startswith(("std::basic_string<", "std::basic_string_view<", "std::string")) or t in ("std::string", "std::string_view"): return "text"
    return None

class Q(Calls):
    local = True; unroll = 3
    def setup(s, f, bad):
        s.bad = bad; s.n = dict(bind=0, step=0, col=0, row=0, exit=0); s.args = [plain(t) for t in targs(f.params[0][2])] if f.params else []
        s.returns = f.cls and "SelectSqlBuild" in f.full.split("(")[0]; return s
    def force_inline(s, g): return ("/db/" in g.file or "/db/" in g.rel) and not g.clsn.endswith("ColumnResult")
    def want_inline(s, g, fr): return s.force_inline(g)
    # state: phase, bound, columns of this row, null-known columns, last outcome, failed, emitted
    def S(s, st): return st.env.get((G, "q"))
    def put(s, st, **k):
        st = st.cp(); d = dict(s.S(st)[1]); d.update(k); st.env[(G, "q")] = ("q", tuple(sorted(d.items()))); return st
    def get(s, st, k): return dict(s.S(st)[1])[k]
    def skey(s, st): return (s.S(st),)
    def stmt(s, t, n, fr):
        x = show(t)
        if not x.endswith("_stmt._stmt"): s.bad("handle", "a statement call uses %s instead of the template's statement" % x, fr, n)
    def on_dtor(s, st, fr, p, ty, var):
        t = ty.replace("const ", "").split("<")[0].split("::")[-1]
        base = ty.replace("typename ", "").split("::")[-1]
        for g in s.m.fns.values():
            if g.short == "(dtor)" and g.body is not None and "/db/" in g.file and g.clsn.split("::")[-1] == base and base != "SqliteStmt":
                return [x for x, _ in s.inline(g, st, fr, None, p, [])]
        return None
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]; v = [s.val(st, a) for a in args]
        if sh.startswith("sqlite3_"): return s.sq(st, fr, n, sh, v)
        if sh in ("emplace_back", "push_back") and obj is not None and isinstance(obj, Loc): return s.emit(st, fr, n, v) or super().on_call(st, fr, n, name, obj, args)
        if "ColumnResult" in name and sh == "ColumnResult": return None
        if sh == "setVal" and "Try" in name: return [(s.put(st, held="val"), C(0))]
        if sh == "setException" and "Try" in name: return [(s.put(st, held="exc"), C(0))]
        return super().on_call(st, fr, n, name, obj, args)
    def sq(s, st, fr, n, sh, v):
        ph = s.get(st, "ph")
        if sh.startswith("sqlite3_prepare"):
            s.n["step"] += 1
            if ph != "none": s.bad("prepare", "the text is prepared again while the statement exists: the old statement is lost", fr, n)
            if not show(v[3]).endswith("_stmt._stmt"): s.bad("handle", "the statement is prepared into %s" % show(v[3]), fr, n)
            t1, t2 = show(v[1]), show(v[2])
            if t2 not in ("-1",) and t1.replace(".data()", "") != t2.replace(".size()", ""): s.bad("text", "the text is %s with the length of another value (%s)" % (t1, t2), fr, n)
            if "_sql" not in t1: s.bad("text", "the prepared text is %s instead of the template's" % t1, fr, n)
            return [(s.put(st, ph="ready"), C(0)), (s.put(st, err=1), C(1))]
        if sh.startswith("sqlite3_bind_"): return s.bind(st, fr, n, sh[13:], v)
        if sh == "sqlite3_step":
            s.n["step"] += 1; s.stmt(v[0], n, fr)
            b = s.get(st, "bound")
            if ph not in ("ready", "row"): s.bad("step", "the statement is stepped while it is %s" % {"none": "unprepared", "done": "already complete (it would execute again)", "bad": "failed"}[ph], fr, n)
            elif ph == "ready" and s.get(st, "last") not in ("", ): s.bad("step", "the statement is executed twice", fr, n)
            elif ph == "ready" and set(b) != set(range(1, len(s.args) + 1)): s.bad("unbound", "the statement is stepped with argument%s %s unbound" % ("s" if len(s.args) > 1 else "", sorted(set(range(1, len(s.args) + 1)) - set(b))), fr, n)
            if s.get(st, "err"): s.bad("ignored", "the statement is stepped after a failed bind", fr, n)
            if ph == "row" and s.get(st, "pend"): s.bad("lost", "the statement is stepped past a row that was not returned", fr, n)
            out = []
            rows = "row" in s.outcomes
            if rows and not (s.one and ph == "row"): out.append((s.put(st, ph="row", last="row", cols=(), nul=(), pend=1), C(100)))
            if not (s.one and rows and ph == "ready"): out.append((s.put(st, ph="done", last="done", cols=(), nul=(), pend=0), C(101)))
            out.append((s.put(st, ph="bad", last="bad", err=1, pend=0), C(1)))
            return out
        if sh == "sqlite3_reset":
            s.stmt(v[0], n, fr)
            if ph == "none": s.bad("reset", "an unprepared statement is reset", fr, n)
            r = [(s.put(st, ph="ready" if ph != "none" else ph, bound=()), C(0 if ph != "bad" else 1))]
            return r
        if sh.startswith("sqlite3_column_"):
            s.n["col"] += 1; s.stmt(v[0], n, fr); i = v[1]
            if i[0] != "c": s.bad("column", "column index is %s" % show(i), fr, n); return [(st, ("u", "?"))]
            if ph != "row": s.bad("norow", "column %d is read while there is no row" % i[1], fr, n)
            if sh == "sqlite3_column_type": return [(s.put(st, nul=tuple(sorted(set(s.get(st, "nul")) | {i[1]}))), C(5)), (s.put(st, nul=tuple(sorted(set(s.get(st, "nul")) | {~i[1]}))), C(1))]
            return [(st, ("u", "col", sh[15:], i[1]))]
        if sh == "sqlite3_changes":
            if ph == "none" or s.get(st, "last") != "done" and not s.get(st, "last") == "row": s.bad("changes", "the number of changes is read before the statement completed", fr, n)
            return [(st, ("u", "changes"))]
        if sh in ("sqlite3_errmsg", "sqlite3_db_handle"): return [(st, ("u", sh))]
        s.bad("unknown", "unexpected %s" % sh, fr, n); return None
    def bind(s, st, fr, n, k, v):
        s.n["bind"] += 1; s.stmt(v[0], n, fr)
        if s.get(st, "ph") != "ready" or s.get(st, "last"): s.bad("late", "an argument is bound while the statement is not ready", fr, n)
        i = v[1]
        if i[0] != "c" or not 1 <= i[1] <= len(s.args): s.bad("index", "argument position %s does not exist (1..%d)" % (show(i), len(s.args)), fr, n); return [(st, C(0))]
        j = i[1]; b = s.get(st, "bound")
        if j in b: s.bad("twice", "argument %d is bound twice" % j, fr, n)
        ty = s.args[j - 1]; opt = ty.startswith("std::optional<")
        want = kind(plain(targs(ty)[0])) if opt else kind(ty)
        if k == "null":
            if not opt: s.bad("null", "argument %d of type %s is bound as NULL" % (j, ty[:40]), fr, n)
        else:
            el = s.elem(v[2])
            if el != {j - 1}: s.bad("value", "position %d is bound to %s instead of argument %d" % (j, show(v[2]), j), fr, n)
            fits = dict(int="int" if want == "int" and INTS[ty] <= 4 else "", int64="int", double="double", text="text", text64="text", blob="")
            if want is None or fits.get(k) != want: s.bad("type", "argument %d of type %s is bound with sqlite3_bind_%s" % (j, ty[:40], k), fr, n)
            if k == "text":
                t1, t2 = show(v[2]), show(v[3])
                if not t1.endswith(".data()") and not t1.endswith(".c_str()"): s.bad("text", "argument %d is bound to %s" % (j, t1), fr, n)
                elif s.elem(v[3]) != {j - 1} or not t2.endswith((".size()", ".length()")) or t1.rsplit(".", 1)[0] != t2.rsplit(".", 1)[0]: s.bad("length", "argument %d is bound with length %s" % (j, t2), fr, n)
        return [(s.put(st, bound=tuple(sorted(set(b) | {j}))), C(0)), (s.put(st, err=1), C(21))]
    def elem(s, t):
        out = set()
        for x in walk_term(t):
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == "get": out.add(int(y[1]))
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, tuple) and len(z) == 2 and z[0] == "get": out.add(int(z[1]))
        return out
    def row(s, st, fr, n, v):
        """values v form the row under the cursor"""
        s.n["row"] += 1
        if s.get(st, "ph") != "row" and s.get(st, "last") != "row": s.bad("norow", "a row is returned while there is none", fr, n); return st
        if not s.get(st, "pend"): s.bad("dup", "the same row is returned twice", fr, n)
        if len(v) != len(s.cols): s.bad("columns", "%d columns are returned where %d were selected" % (len(v), len(s.cols)), fr, n)
        for i, (x, ty) in enumerate(zip(v, s.cols)):
            got = {(y[2], y[3]) for y in walk_term(x) if isinstance(y, tuple) and y[:2] == ("u", "col")}
            opt = ty.startswith("std::optional<"); b = plain(targs(ty)[0]) if opt else ty
            nul = s.get(st, "nul")
            if opt and i not in nul and ~i not in nul: s.bad("optional", "optional column %d is read without testing for NULL" % i, fr, n)
            if opt and i in nul:
                if got: s.bad("optional", "NULL column %d is returned as a value" % i, fr, n)
                continue
            if {j for _, j in got} != {i}: s.bad("order", "column %d of the row is %s" % (i, show(x)), fr, n); continue
            ks = {k for k, _ in got}; w = kind(b)
            ok = ks <= {"int64"} or (ks <= {"int"} and INTS.get(b, 9) <= 4) if w == "int" else ks <= {"double"} if w == "double" else ks == {"text", "bytes"} if w == "text" else False
            if not ok: s.bad("ctype", "column %d of type %s is read with sqlite3_column_%s" % (i, b[:40], "/".join(sorted(ks))), fr, n)
            if w == "text" and not any(isinstance(y, tuple) and y[:2] in (("ctor", "std::basic_string"),) or (isinstance(y, tuple) and y[0] == "sv") for y in walk_term(x)): s.bad("dangling", "text column %d is returned as a pointer into the statement" % i, fr, n)
        return s.put(st, pend=0)
    def emit(s, st, fr, n, v):
        if not any(isinstance(y, tuple) and y[:2] == ("u", "col") for x in v for y in walk_term(x)) and s.get(st, "ph") != "row": return None
        if len(v) == 1:
            x = v[0]
            if x[0] == "ctor" and "ColumnResult" in str(x[1]): v = list(x[2:])
        st = s.row(st, fr, n, v)
        return [s.fresh(st, fr, n)]

def cname(m, f):
    return f.cls

def check(ctx):
    m = ctx.model("db")
    connection(ctx, m)
    ctx.rule("statement protocol: prepare once, bind every argument once at its position with a fitting type, step, one returned row per SQLITE_ROW, error on failure, reset on every exit")
    n = 0
    for f in list(m.fns.values()):
        cl = f.clsn.split("::")[-1]
        if f.body is None or not f.clsn.startswith("HX::db::") or cl not in ROOTS or not f.params: continue
        if f.short not in ("exec", "execNoThrow", "execGetChanges", "execNoThrowGetChanges"): continue
        n += 1; ctx.analysed(f); ctx.count("execution roots"); ctx.sample(f"{cl}::{f.short} {f.params[0][2][:60]}")
        def bad(k, msg, fr, nd, path=(), f=f, cl=cl): ctx.violation(f"{k}:{cl}:{f.short}", msg, (fr.fn if fr is not None else f), nd.l if nd is not None else f.line, path)
        q = Q(m).setup(f, bad)
        cols = []
        if cl != "MutationSqlBuild" and not (cl == "InsertSqlBuild" and "void" == f.ret):
            cols = coltypes(m, f)
            ctx.require(bool(cols), f"the row type of {f.full[:80]}")
        q.cols = cols; q.one = cl == "InsertSqlBuild"
        q.outcomes = ("row", "done") if cols else ("done",)
        FLAG = (("*", ("in", (("root", "this"), "_dbRef", "_db"), ())), "_isInit")
        for prep in (False, True):
            st0 = St(); 
            st0 = st0.write(FLAG, C(1 if prep else 0))
            st0.env[(G, "q")] = ("q", tuple(sorted(dict(ph="ready" if prep else "none", bound=(), cols=(), nul=(), last="", err=0, pend=0, held="").items())))
            for k, st, v in q.run(f, (), st0):
                q.n["exit"] += 1
                ph, last, err, held = q.get(st, "ph"), q.get(st, "last"), q.get(st, "err"), q.get(st, "held")
                def vio(key, msg): ctx.violation(f"{key}:{cl}:{f.short}", msg, f, path=steps(st))
                if ph not in ("ready", "none"): vio("unreset", "the cached statement is left %s: the next execution fails or reads stale rows" % ("half read" if ph == "row" else "un-reset"))
                ini = st.read(FLAG)
                if ini == C(1) and ph == "none": vio("initflag", "the template counts as prepared although preparing failed")
                if ini == C(0) and ph != "none": vio("initflag", "the template does not remember its prepared statement: the next execution prepares it again")
                if ini[0] != "c": vio("initflag", "the prepared flag is %s at exit" % show(ini))
                nothrow = f.short.startswith("execNoThrow")
                if k == "exc" and nothrow: vio("escapes", "an exception leaves a function that reports errors in its result")
                if k == "exc" and not err and "runtime_error" in str(v): vio("spurious", "an execution in which no SQLite call failed is reported as an error")
                if k == "exc": continue
                if nothrow:
                    if err and held != "exc": vio("swallowed", "a failed execution is not recorded as an exception")
                    if not err and last and held not in ("val", "exc"): vio("empty", "a finished execution leaves the result empty")
                    if held == "exc": continue
                if err: vio("swallowed", "a failed prepare, bind or step is reported as success"); continue
                if not last: vio("noexec", "the function returns without executing the statement"); continue
                if last == "row" and not q.one: vio("partial", "the function returns before the result is complete")
                if q.one and cols and not nothrow:
                    rv = q.val(st, v) if v is not None else ("void",)
                    if rv[0] == "ctor" and "ColumnResult" in str(rv[1]): q.row(st, None, None, list(rv[2:]))
                    else: vio("result", "the returned row is %s" % show(rv))
        for a, b in (("bind", "bind calls"), ("step", "prepare and step calls"), ("col", "column reads"), ("row", "rows returned"), ("exit", "exits")): ctx.count(b, q.n[a])
    ctx.at_least("execution roots", 12)
    ctx.at_least("bind calls", 20); ctx.at_least("column reads", 15)

class Conn(Calls):
    """connection handle of a SqliteDB: nul/open per object, statements cached (cleared or not)"""
    local = True
    def setup(s, bad): s.bad = bad; s.n = 0; s.lib_throws = lambda n, x: False; return s
    def force_inline(s, g): return g.clsn.endswith(("sqlite::SqliteDB", "DataBaseCrtp", "DataBaseInterface")) and g.short not in ("createDatabase",)
    def want_inline(s, g, fr): return s.force_inline(g)
    def skey(s, st): return (frozenset((k, v) for k, v in st.env.items() if k[0] == G),)
    def who(s, obj):
        p = obj.p if isinstance(obj, Loc) else ()
        return p[0] if p else None
    def on_call(s, st, fr, n, name, obj, args):
        sh = name.split("::")[-1]; v = [s.val(st, a) for a in args]
        if sh in ("sqlite3_open", "sqlite3_open_v2"):
            s.n += 1
            t = v[1]
            if t[0] != "addr" or not show_path(t[1]).endswith("_db"): s.bad("open", "the connection is opened into %s" % show(t), fr, n); return None
            old = st.read(t[1])
            if s.alive(st, old) is not False: s.bad("reopen", "the connection is overwritten while it is open", fr, n)
            nm = v[0]
            if not show(nm).endswith(".c_str()"): s.bad("nul", "the file name %s need not be NUL-terminated" % show(nm), fr, n)
            out = []
            for k in (0, 1):
                h = ("u", "conn", n.l, k); x = st.cp(); x = x.write(t[1], h); x = x.assume(T_truth(h), True) or x
                x.env[(G, "c", h)] = C(1); x.env[(G, "failed")] = C(k); out.append((x, C(k)))
            return out
        if sh in ("sqlite3_close", "sqlite3_close_v2"):
            s.n += 1; h = v[0]
            if s.alive(st, h) is not True: s.bad("close", "%s is closed while it is %s" % (show(h), "closed or null" if s.alive(st, h) is False else "possibly null or closed"), fr, n)
            if sh == "sqlite3_close" and st.env.get((G, "m", show(h))) != C(0) and h[0] == "in": s.bad("cached", "the connection is closed while cached statements still use it: sqlite3_close fails and the connection leaks", fr, n)
            st = st.cp(); st.env[(G, "c", h)] = C(0); return [(st, C(0))]
        if sh == "clear" and isinstance(obj, Loc) and show_path(obj.p).endswith("_sqlMap"):
            st = st.cp(); own = show_path(obj.p)[:-len("_sqlMap")]; st.env[(G, "m", own + "_db")] = C(0); return [(st, C(0))]
        if sh == "swap" and len(v) == 2 and all(isinstance(a, Loc) and show_path(a.p).endswith("_db") for a in args):
            x = st.cp(); a, b = v
            for h in (a, b):
                if h[0] == "in" and st.env.get((G, "m", show(h))) != C(0): s.bad("moved", "connections are exchanged while cached statements of %s remain with the wrong owner" % show(h).replace("._db", ""), fr, n)
            return [(x.write(args[0].p, b).write(args[1].p, a), C(0))]
        if sh == "swap" and isinstance(obj, Loc) and show_path(obj.p).endswith("_sqlMap"): s.bad("moved", "cached statements, which keep the address of their database object, are exchanged", fr, n); return [(st, C(0))]
        if sh in ("sqlite3_next_stmt",): return [(st, C(0))]
        if sh == "sqlite3_exec":
            s.n += 1
            if not show(v[1]).endswith((".c_str()",)): s.bad("nul", "the SQL text %s need not be NUL-terminated" % show(v[1]), fr, n)
            e = ("u", "errmsg"); x = st.cp()
            if v[4][0] == "addr": x = x.write(v[4][1], e); x.env[(G, "err")] = C(1)
            return [(st, C(0)), (x, C(1))]
        if sh == "sqlite3_free" and v[0] == ("u", "errmsg"): st = st.cp(); st.env[(G, "err")] = C(0); return [(st, C(0))]
        return super().on_call(st, fr, n, name, obj, args)
    def alive(s, st, h):
        if h == C(0): return False
        g = st.env.get((G, "c", h))
        if g is not None: return g == C(1)
        if h[0] == "in": return st.holds(T_truth(h))
        return None

def connection(ctx, m):
    ctx.rule("connection handle: open only over null, closed exactly once and then null, never with cached statements; a failed open leaves nothing open")
    n = 0
    for f in m.fns.values():
        if f.body is None or not f.clsn.endswith("sqlite::SqliteDB") or f.short not in ("open", "close", "operator=", "(dtor)", "(ctor)", "exec"): continue
        if f.imp or f.raw.get("def"): continue
        if f.short == "(ctor)" and not f.params: continue
        n += 1; ctx.analysed(f); ctx.count("connection members")
        def bad(k, msg, fr, nd, f=f): ctx.violation(f"conn-{k}:{f.short}", msg, fr.fn if fr is not None else f, nd.l if nd is not None else f.line)
        q = Conn(m).setup(bad); this = (("root", "this"),); h0 = ("in", this + ("_db",), ())
        st0 = St()
        if f.short == "(ctor)": st0 = st0.write(this + ("_db",), C(0))
        for k, st, v in q.run(f, (), st0):
            def vio(key, msg): ctx.violation(f"conn-{key}:{f.short}", msg, f, path=steps(st))
            h = st.read(this + ("_db",)); was = st.holds(T_truth(h0))
            opened = [key[2] for key, x in st.env.items() if key[:2] == (G, "c") and x == C(1)]
            lost = [x for x in opened if x != h and not any(isinstance(val, tuple) and val == x for key, val in st.env.items() if key[0] != G)]
            if lost: vio("leak", "an open connection is no longer reachable")
            if f.short in ("close", "(dtor)"):
                if was is not False and st.env.get((G, "c", h0)) != C(0): vio("notclosed", "the connection stays open")
                if f.short == "close" and s_null(st, h) is not True: vio("stale", "the closed connection is still referenced: it would be closed again")
            if f.short in ("open", "(ctor)"):
                if k == "ret" and (q.alive(st, h) is not True or st.env.get((G, "failed")) != C(0)): vio("notopen", "open returns although the connection is not open")
                if k == "exc" and f.short == "open" and s_null(st, h) is not True: vio("failopen", "a failed open leaves a connection behind")
                if f.short == "open" and was is not False and st.env.get((G, "c", h0)) != C(0): vio("notclosed", "opening another file leaves the previous connection open")
                if k == "exc" and f.short == "(ctor)" and opened: vio("leak", "a failed constructor leaves the connection open: no destructor will run")
            if f.short == "operator=" and f.params:
                pid, pn, _ = f.params[0]; t0 = ("in", (("root", pn, pid), "_db"), ()); b = st.read((("root", pn, pid), "_db"))
                same = st.holds(T_cmp("==", ("addr", this), ("addr", (("root", pn, pid),))))
                if same is True: continue
                if h != t0: vio("lost", "after the move the target holds %s" % show(h))
                if b == t0 and st.holds(T_truth(t0)) is not False: vio("shared", "after the move both objects own the connection")
                if b != h0 and st.env.get((G, "c", h0)) != C(0): vio("leak", "the target's previous connection is dropped without closing it")
            if f.short == "exec":
                if st.env.get((G, "err")) == C(1): vio("errmsg", "the error message of a failed statement is not freed")
                if k == "ret" and st.env.get((G, "err")) is not None: vio("ignored", "a failed statement is reported as success")
        ctx.count("connection calls", q.n)
    ctx.at_least("connection members", 4); ctx.at_least("connection calls", 3)
    for c in m.classes.values():
        if c.n.endswith("sqlite::SqliteStmt"):
            check_owner(ctx, m, c, "_stmt", by_arg(("sqlite3_finalize",)), True, "a prepared statement")
    cs = [c for c in m.classes.values() if c.n.endswith("sqlite::SqliteDB")]
    for c in cs:
        ks = {}
        for x in c.methods: ks.setdefault(x["kind"], []).append(x)
        for kd in ("cctor", "cassign", "mctor"):
            for x in ks.get(kd, []):
                if not is_del(x) and is_auto(x): ctx.violation(f"copied:SqliteDB:{kd}", "SqliteDB owns its connection and cached statements and is copied or moved member by member", c, c.line)
def s_null(st, h):
    if h == C(0): return True
    return st.holds(T_truth(h)) is False

def norm(x): return x.replace("HX::db::", "").replace("HX::", "").replace(" ", "")
def coltypes(m, f):
    r = norm(f.ret if "ColumnResult<" in f.ret else "")
    for c in m.classes.values():
        if c.n.endswith("db::ColumnResult") and c.fields and norm(c.full) in r: return [plain(x) for x in targs(c.fields[0]["t"])]
    return None
