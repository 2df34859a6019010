"""Scenarios: which abstract inputs a public function is analysed on.

An ApInt operand is described by its width class and a symbolic width, so the
four classes together cover every width from 1 bit upwards:
  ip: w = e            1 <= e <= 63      (stored in place)
  if: w = 64                             (stored in place)
  ep: w = 64*m + e     m >= 1, 1<=e<=63  (heap, m+1 digits)
  ef: w = 64*m         m >= 2            (heap, m digits)
The digits of operand x are the uninterpreted words x[0..n), of which the last
has its bits at positions >= eb zero (the representation invariant, C01).
"""
import itertools, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lin import Lin, ATOMS, new_atom, la, lc, sym, ZERO, ONE, entails
from terms import T, NeedSplit, as_term, tc, unk, bit, fits, forall, term_equal, f_equal, const_bits
from state import State, Region, HASH, HID, dig, arr, fresh_id, seg_read, seg_at, ORG, contents_equal, seg_clip
import interp, loops, models, state
from interp import Interp

M_MAX = 1 << 50
CLASSES = ("ip", "if", "ep", "ef")
APINT = "apint::apint::ApInt"
INT = "apint::int::Int"
UINT = "apint::uint::UInt"
BW = "apint::bitwidth::BitWidth"
BP = "apint::bitpos::BitPos"
SA = "apint::apint::shift::ShiftAmount"
RADIX = "apint::radix::Radix"


class Width:
    """a symbolic bit width of a known class"""
    __slots__ = ("cls", "w", "n", "eb", "cons")

    def __init__(self, cls, tag, at=None):
        if at is not None:
            cls = "ip" if at < 64 else "if" if at == 64 else "ef" if at % 64 == 0 else "ep"
        self.cls = cls
        if at is not None:
            self.w, self.n, self.eb = lc(at), lc((at + 63) // 64), lc((at - 1) % 64 + 1)
        elif cls == "ip":
            e = sym("e" + tag, 1, 63)
            self.w, self.n, self.eb = e, ONE, e
        elif cls == "if":
            self.w, self.n, self.eb = lc(64), ONE, lc(64)
        elif cls == "ep":
            m = sym("m" + tag, 1, M_MAX)
            e = sym("e" + tag, 1, 63)
            self.w, self.n, self.eb = m.scale(64) + e, m + 1, e
        else:
            m = sym("m" + tag, 2, M_MAX)
            self.w, self.n, self.eb = m.scale(64), m, lc(64)

    @property
    def heap(self):
        return self.cls in ("ep", "ef")

    def value(self):
        return ("S", 0, (("S", 0, (self.w,)),))


class Op:
    __slots__ = ("name", "width", "rid", "key", "byval", "mut", "wrap")

    def __init__(self, name, width, rid, key, byval, mut, wrap):
        self.name = name
        self.width = width
        self.rid = rid
        self.key = key
        self.byval = byval
        self.mut = mut
        self.wrap = wrap


class Scen:
    def __init__(self, desc):
        self.desc = desc
        self.st = State()
        self.ops = []
        self.args = []
        self.orgs = {}      # digit arrays of this scenario: name -> (length, bits of the last digit)
        self.sym = {}       # other arguments by index: ('width', Width) ('pos', Lin) ('shift', Lin) ('bool', c) ('word', T, bits, signed) ...

    def apint_value(self, name, width):
        self.orgs[name] = (width.n, width.eb)
        ln = width.value()
        if width.heap:
            rid = ("in", name)
            self.st.heap[rid] = Region("D", width.n, ((ZERO, width.n, dig(name, HASH)),), cap=width.n)
            return ("S", 0, (ln, ("U", 1, ("S", 0, (("R", ("h", rid), (("i", ZERO),)),))))), rid
        return ("S", 0, (ln, ("U", 0, ("S", 0, (dig(name, ZERO).lin(),))))), None

    def add_apint(self, name, width, byval, mut, wrap):
        v, rid = self.apint_value(name, width)
        if wrap:
            v = ("S", 0, (v,))
        key = (0, name)
        op = Op(name, width, rid, key, byval, mut, wrap)
        self.ops.append(op)
        if byval:
            self.args.append(v)
        else:
            self.st.env[key] = v
            self.args.append(("R", ("v",) + key, ()))
        return op


def peel(types, ty):
    t = types[ty]
    ref = None
    while t["k"] in ("ref", "ptr"):
        ref = bool(t.get("mut")) if ref is None or ref else ref
        t = types[t["to"]]
    return t, ref


def into_targets(p, key, seen=None, depth=0):
    """type paths X for which the generic function calls Into::<X>::into on an unresolved parameter"""
    seen = seen if seen is not None else set()
    if key in seen or depth > 6 or key not in p.fns:
        return []
    seen.add(key)
    out = []
    f = p.fns[key]
    nxt = []
    for b in f.blocks:
        t = b["t"]
        if t["t"] != "call" or t["f"]["o"] != "const":
            continue
        c = p.types[t["f"]["ty"]].get("callee")
        if not c:
            continue
        if c.get("name") in ("into", "try_into") and c.get("unresolved") and "Into" in (c.get("trait") or ""):
            dt = p.types[f.locals[t["dest"][0]]] if not t["dest"][1] else None
            if dt and dt["k"] == "adt":
                out.append(dt["path"])
        elif c.get("name") == "as_ref" and c.get("unresolved"):
            out.append("str")
        elif c.get("key"):
            nxt.append(c["key"])
    for k in nxt:
        if k in p.fns and p.fns[k].local:
            out += into_targets(p, k, seen, depth + 1)
    return out


PARAM_DEFAULT = {"P": BP, "S": SA, "W": BW, "R": RADIX}


def params_of(p, f):
    """map generic parameter name -> target"""
    names = []
    for i in range(1, f.argc + 1):
        t, r = peel(p.types, f.locals[i])
        if t["k"] == "param" and t["s"] not in names:
            names.append(t["s"])
    tg = []
    for x in into_targets(p, f.key):
        if x not in tg:
            tg.append(x)
    m = {}
    if len(names) == 1 and len(tg) == 1:
        m[names[0]] = tg[0]
        return m
    for n in names:
        d = PARAM_DEFAULT.get(n)
        if n == "S" and "str" in tg:
            m[n] = "str"
        elif d in tg or (d and not tg):
            m[n] = d
        else:
            m[n] = None
    return m


def arg_kinds(p, f):
    """list of argument descriptions for a public function, or None if not representable"""
    pm = params_of(p, f)
    out = []
    for i in range(1, f.argc + 1):
        ty = f.locals[i]
        t, ref = peel(p.types, ty)
        if t["k"] == "adt" and t["path"] in (APINT, INT, UINT):
            out.append(("ap", t["path"], ref))
        elif t["k"] == "adt" and t["path"] == BW:
            out.append(("width", ref is not None))
        elif t["k"] == "adt" and t["path"] == BP:
            out.append(("pos", ref is not None))
        elif t["k"] == "adt" and t["path"] == SA:
            out.append(("shift", ref is not None))
        elif t["k"] == "adt" and t["path"] == RADIX:
            out.append(("radix", ref is not None))
        elif t["k"] == "bool" and ref is None:
            out.append(("bool",))
        elif t["k"] in ("int", "uint") and ref is None:
            out.append(("word", t["bits"], t["k"] == "int", t["s"]))
        elif t["k"] == "array" and ref is None and p.types[t["of"]]["k"] in ("int", "uint"):
            out.append(("array", int(t["len"]), p.types[t["of"]]["bits"]))
        elif t["k"] == "str":
            out.append(("str",))
        elif t["k"] == "param":
            x = pm.get(t["s"])
            if ref is not None:
                out.append(("gref", t["s"]))
            elif x == BP:
                out.append(("gpos",))
            elif x == SA:
                out.append(("gshift",))
            elif x == BW:
                out.append(("gwidth",))
            elif x == RADIX:
                out.append(("gradix",))
            elif x == "str":
                out.append(("gstr",))
            else:
                return None
        else:
            out.append(("other", t["s"], ref))
    return out


def rel(a, b):
    return "<" if a < b else ">" if a > b else "="


def width_tuples(n, at=None):
    """assignments of widths to n width-carrying arguments: list of (desc, [Width], [constraints])"""
    if at is not None:
        ws = [Width(None, "", x) for x in at]
        if len(at) == 2:
            return [(ws[0].cls + ("=" if at[0] == at[1] else "<" if at[0] < at[1] else ">") + ws[1].cls, ws, [])]
        return [(ws[0].cls if ws else "", ws, [])]
    if n == 0:
        return [("", [], [])]
    if n == 1:
        return [(c, [Width(c, "a")], []) for c in CLASSES]
    out = []
    for a in CLASSES:
        for b in CLASSES:
            if a == b:
                x = Width(a, "a")
                out.append((a + "=" + b, [x, x], []))
                if a != "if":
                    for rel in ("<", ">"):
                        x, y = Width(a, "a"), Width(b, "b")
                        c = y.w - x.w - 1 if rel == "<" else x.w - y.w - 1
                        out.append((a + rel + b, [x, y], [c]))
            else:
                x, y = Width(a, "a"), Width(b, "b")
                for rel in ("<", ">"):
                    c = y.w - x.w - 1 if rel == "<" else x.w - y.w - 1
                    s = State()
                    s.add_lin(c)
                    if s.feasible():
                        out.append((a + rel + b, [x, y], [c]))
    return out


def scenarios(p, f, kinds=None, at=None, slen=None, radix=None):
    """abstract inputs of f; `at` fixes the widths to the given numbers"""
    kinds = kinds if kinds is not None else arg_kinds(p, f)
    if kinds is None:
        return []
    wi = [i for i, k in enumerate(kinds) if k[0] in ("ap", "width", "gwidth")]
    if len(wi) > 2:
        return []
    out = []
    for desc, ws, cons in width_tuples(len(wi), at):
        sc = Scen(desc)
        for c in cons:
            sc.st.add_lin(c)
        sc.kinds = kinds
        sc.widths = ws
        wm = dict(zip(wi, ws))
        names = iter("xyz")
        ok = True
        for i, k in enumerate(kinds):
            kk = k[0]
            if kk == "ap":
                sc.add_apint(next(names), wm[i], k[2] is None, bool(k[2]), k[1] if k[1] != APINT else None)
            elif kk in ("width", "gwidth"):
                w = wm[i]
                sc.sym[i] = ("width", w)
                put(sc, i, w.value(), kk == "gwidth", k)
            elif kk in ("pos", "gpos", "shift", "gshift"):
                q = sym("q", 0, (1 << 58) - 1)
                r = sym("r", 0, 63)
                v = q.scale(64) + r
                sc.sym[i] = ("pos" if kk.endswith("pos") else "shift", v)
                put(sc, i, ("S", 0, (v,)), kk[0] == "g", k)
            elif kk in ("radix", "gradix"):
                v = sym("rad", 2, 36) if radix is None else lc(radix)
                sc.sym[i] = ("radix", v)
                put(sc, i, ("S", 0, (v,)), kk[0] == "g", k)
            elif kk == "bool":
                c = ("ub", "arg%d" % i)
                sc.sym[i] = ("bool", c)
                sc.args.append(c)
            elif kk == "word":
                w = k[1]
                if k[3] in ("usize",):
                    v = sym("q", 0, (1 << 58) - 1).scale(64) + sym("r", 0, 63)
                    sc.sym[i] = ("usize", v)
                    sc.args.append(v)
                else:
                    sc.orgs["v%d" % i] = (ONE, lc(w))
                    t = T("dig", ("v%d" % i, ZERO), w) if w <= 64 else T("dig", ("v%d" % i, ZERO), w)
                    sc.sym[i] = ("word", t, w, k[2])
                    sc.args.append(t.lin())
            elif kk == "array":
                sc.orgs["a%d" % i] = (lc(k[1]), lc(64))
                ts = [T("dig", ("a%d" % i, lc(n)), k[2]) for n in range(k[1])]
                sc.sym[i] = ("array", ts)
                sc.args.append(("A", tuple(t.lin() for t in ts)))
            elif kk in ("str", "gstr"):
                rid = ("in", "s%d" % i)
                n = sym("slen", 0, 1 << 50) if slen is None else lc(slen)
                nm = "s%d" % i
                sc.orgs[nm] = (n, lc(8))
                sc.st.heap[rid] = Region("I", n, ((ZERO, n, T("dig", (nm, HASH), 8)),), kind="ro", w=8, cap=n)
                v = ("SL", ("h", rid), (), ZERO, n)
                sc.sym[i] = ("str", n, nm)
                sc.args.append(("SYM", v) if kk == "gstr" else v)
            elif kk == "gref":
                key = (0, "g%d" % i)
                sc.st.env[key] = ("HS", ())
                sc.args.append(("R", ("v",) + key, ()))
            elif kk == "other":
                key = (0, "o%d" % i)
                sc.st.env[key] = interp.top("arg")
                sc.args.append(("R", ("v",) + key, ()) if k[2] is not None else interp.top("arg"))
        out.append(sc)
    return out


def put(sc, i, v, generic, k):
    if generic:
        sc.args.append(("SYM", v))
    elif k[-1] is True:
        key = (0, "p%d" % i)
        sc.st.env[key] = v
        sc.args.append(("R", ("v",) + key, ()))
    else:
        sc.args.append(v)


# ------------------------------------------------------------------ outcomes
class Outcome:
    __slots__ = ("kind", "st", "val", "what", "where", "stack")

    def __init__(self, kind, st, val=None, what=None, where=None, stack=()):
        self.kind = kind      # 'ret' | 'panic' | 'budget'
        self.st = st
        self.val = val
        self.what = what
        self.where = where
        self.stack = stack


class View:
    """an ApInt found in an outcome state: width and digits"""
    __slots__ = ("w", "inl", "rid", "segs", "len", "ok", "why")

    def __init__(self):
        self.ok = True
        self.why = None
        self.w = self.inl = self.rid = self.segs = self.len = None


def view(st, v, wrap=False):
    o = View()
    try:
        if wrap:
            v = v[2][0]
        ln, data = v[2]
        o.w = ln[2][0][2][0]
        if not isinstance(o.w, Lin):
            raise ValueError("width unknown")
        if data[0] != "U":
            raise ValueError("storage unknown")
        if data[1] == 0:
            d = data[2][2][0]
            if not isinstance(d, Lin):
                raise ValueError("digit unknown")
            o.inl = as_term(d, 64)
            o.segs = ((ZERO, ONE, o.inl),)
            o.len = ONE
        else:
            r = data[2][2][0]
            if r[0] != "R" or r[1][0] != "h":
                raise ValueError("pointer unknown")
            if not (r[2] and r[2][0][0] == "i" and r[2][0][1] is ZERO):
                raise ValueError("pointer into the middle of a buffer")
            o.rid = r[1][1]
            reg = st.heap[o.rid]
            o.segs, o.len = reg.segs, reg.len
    except (ValueError, IndexError, TypeError, KeyError) as e:
        o.ok = False
        o.why = str(e) or "unknown value"
    return o


def run(p, f, sc, havoc=None, post=None, api=None, budget=400000, seconds=120, unroll=False):
    ORG.clear()
    ORG.update(sc.orgs)
    I = Interp(p, budget=budget, deadline=time.time() + seconds)
    I.unroll = unroll
    loops.EXACT = unroll
    state.KEEP_OWN = bool(unroll)
    I.havoc_keys = havoc
    I.post_hook = post
    I.api = api
    I.frozen = set()         # where operands given by shared reference live
    for o in sc.ops:
        if not o.byval and not o.mut:
            I.frozen.add(o.key)
            if o.rid is not None:
                I.frozen.add((o.rid,))
    st = sc.st.copy()
    out = []
    I.stack.append(f.key)
    try:
        for s, v in I.run_fn(st, f, sc.args, -1):
            if s.feasible():
                out.append(Outcome("ret", s, v))
    except loops.Budget as e:
        out.append(Outcome("budget", st, what=str(e)))
    for q in I.panics:
        out.append(Outcome("panic", q.st, None, q.what, q.where, q.stack))
    return I, out


if __name__ == "__main__":
    from prog import Prog
    p = Prog("/verif/.build/mir.json")
    pat = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    for k in p.roots:
        f = p.fns[k]
        if (f.d.get("impl_self") or "").rsplit("::")[-1] + "::" + (f.d.get("name") or "") != pat or not f.d.get("exported"):
            continue
        print("==", f.path, arg_kinds(p, f))
        for sc in scenarios(p, f):
            if only and sc.desc != only:
                continue
            t0 = time.time()
            I, outs = run(p, f, sc)
            print("--", sc.desc, "steps", I.steps, "%.2fs" % (time.time() - t0), "unmodelled", I.unmodelled)
            for o in outs:
                print("   ", o.kind, o.val, o.what or "", o.where or "", "ev", set(o.st.ev), "taint", set(o.st.taint))
                print("       cons", list(o.st.cons), "facts", list(o.st.facts), "org", o.st.org)
                for op in sc.ops:
                    if op.key in o.st.env:
                        print("       ", op.name, o.st.env[op.key])
                for r, g in o.st.heap.items():
                    print("       ", r, g.status, g.len, g.segs)
