import sys; sys.path.insert(0,'/verif/lib'); sys.setrecursionlimit(20000)
import run, glob
from engine import *
def load(tu):
    c = run.Ctx("X","quick"); c.load([tu]); return c.model(tu)
class Dbg(Engine):
    def on_call(s, st, fr, n, name, obj, args):
        print("  "*fr.depth, "CALL", n.l, name, "obj=", show_path(obj.p) if isinstance(obj, Loc) else obj and show(obj), [show(s.val(st,a)) for a in args], "mon", st.mon, "F:", [show(f) for f in st.facts][:6]); return None
    def on_assign(s, st, fr, n, p, t): print("  "*fr.depth, "SET", n.l, show_path(p), "=", show(t)); return None
    def on_dtor(s, st, fr, p, ty, v): print("  "*fr.depth, "DTOR", v); return None
    def on_throw(s, st, fr, n): print("  "*fr.depth, "THROW"); return None
    def on_ctor(s, st, fr, n, name, p, a): print("  "*fr.depth, "CTOR", n.l, name, show_path(p), [show(s.val(st,x)) for x in a]); return None
if __name__ == "__main__":
    m = load(sys.argv[1])
    fs = m.named(sys.argv[2]); i = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    print(len(fs), fs[i])
    e = Dbg(m); 
    if len(sys.argv) > 4: e.max_depth = int(sys.argv[4])
    for k, s, v in e.run(fs[i], None): print(k, show(v) if isinstance(v, tuple) else v, [show(f) for f in s.facts] if s else "", {show_path(k): show(v) for k, v in s.env.items() if k[0] != "ver"})
    print(e.steps, e.stats["inlined"])
