"""Reading and writing through serde.

The serializer and the deserializer belong to the caller; they are modelled by
the data model of serde itself: a deserializer stands for a node of a tree
(number, text, sequence, map) and calls the visitor's method for that kind of
node, a serializer builds such a tree.  The crate's own Serialize, Deserialize
and Visitor bodies are followed with every digit free."""
import time
import jobs as jobs_
import scen, conc, judge, models, interp, loops
from lin import Lin, lc, sym, entails_eq, ZERO
from terms import T, tc, as_term, forall, term_equal, mk, mk_shl, mk_shr, NeedSplit
from state import Region, ORG, seg_at, fresh_id
from models import ok, err, some, NONE, UNIT
from conc import Unknown
from scen import view
from prog import norm_path

DIGIT = "apint::digit::Digit"


class Stop(Exception):
    pass


def error(what):
    return err(("EV", what))


class World:
    def __init__(self, p, human):
        self.p = p
        self.human = human

    def impl(self, ty, trait, name):
        s = self.p.types[ty]["s"]
        for k, f in self.p.fns.items():
            if f.d.get("name") == name and f.d.get("impl_self") == s and (f.d.get("impl_trait") or "").split("<")[0].endswith(trait) and "closure" not in k.rsplit("::", 1)[-1]:
                return k
        return None

    # -------------------------------------------------------- reading
    def read(self, I, st, ty, node, fid, bb):
        """T::deserialize on the node: list of (state, Result)"""
        if node[0] == "err":
            return [(st, error("input"))]
        t = self.p.types[ty]
        k = self.impl(ty, "Deserialize", "deserialize")
        if k is not None:
            return I.inline(st, k, [("DE", node)], fid, (bb, "de"))
        if t["s"] in ("u64", "usize"):
            return [(st, ok(node[1]))] if node[0] == "u64" else [(st, error("type"))]
        if t["k"] == "array" and self.p.types[t["of"]]["s"] in ("u64", DIGIT):
            n = int(t["len"])
            if node[0] != "seq" or len(node[1]) != n:
                return [(st, error("length"))]
            done, cur = [], [(st, ())]
            for ch in node[1]:
                nx = []
                for s, acc in cur:
                    for s2, r in self.read(I, s, t["of"], ch, fid, bb):
                        if r[1] == 1:
                            done.append((s2, r))
                        else:
                            nx.append((s2, acc + (r[2][0],)))
                cur = nx
            return done + [(s, ok(("A", acc))) for s, acc in cur]
        if t["k"] == "adt" and norm_path(t["path"]).endswith("vec::Vec"):
            et = [a for a in t.get("targs") or t.get("args") or [] if isinstance(a, int)]
            if not et:
                raise Stop("vector")
            if node[0] != "seq":
                return [(st, error("type"))]
            done, cur = [], [(st, ())]
            for ch in node[1]:
                nx = []
                for s, acc in cur:
                    for s2, r in self.read(I, s, et[0], ch, fid, bb):
                        if r[0] != "S":
                            raise Stop("element")
                        if r[1] == 1:
                            done.append((s2, r))
                        else:
                            nx.append((s2, acc + (r[2][0],)))
                cur = nx
            for s, acc in cur:
                segs = []
                for i, v in enumerate(acc):
                    while isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1:
                        v = v[2][0]
                    if not isinstance(v, Lin):
                        raise Stop("element")
                    segs.append((lc(i), lc(i + 1), as_term(v, 64)))
                s = s.copy()
                rid = ("rd", fresh_id())
                dt = self.p.types[et[0]]
                s.heap[rid] = Region("D" if dt["k"] == "adt" else "I", lc(len(acc)), tuple(segs), cap=lc(len(acc)))
                done.append((s, ok(("VEC", rid))))
            return done
        raise Stop("reading " + t["s"])

    def visit(self, I, st, vt, v, node, fid, bb):
        if node[0] == "err":
            return [(st, error("input"))]
        for name, a in {"u64": [("visit_u64", None)], "str": [("visit_borrowed_str", None), ("visit_str", None)],
                        "seq": [("visit_seq", ("SA", node[1], 0))], "map": [("visit_map", ("MA", node[1], 0, None))]}[node[0]]:
            k = self.impl(vt, "Visitor", name)
            if k is not None:
                return I.inline(st, k, [v, a if a is not None else ("STR", node[1]) if node[0] == "str" else node[1]], fid, (bb, "vis"))
        if self.p.types[vt]["k"] not in ("adt",) or "apint" not in self.p.types[vt]["s"]:
            raise Stop("visitor")
        return [(st, error("type"))]

    # -------------------------------------------------------- writing
    def write(self, I, st, ty, v, fid, bb):
        """T::serialize of the value behind v: list of (state, tree)"""
        t = self.p.types[ty]
        n = 0
        while t["k"] in ("ref",):
            ty, t = t["to"], self.p.types[t["to"]]
            if isinstance(v, tuple) and v[0] == "R":
                v = I.load(st, v[1], v[2])
        k = self.impl(ty, "Serialize", "serialize")
        if k is not None:
            out = []
            for s, r in I.inline(st, k, [v, ("SER",)], fid, (bb, "ser")):
                if r[0] != "S" or r[1] != 0 or not (isinstance(r[2][0], tuple) and r[2][0][0] == "TREE"):
                    raise Stop("serialized value")
                out.append((s, r[2][0][1]))
            return out
        if t["s"] in ("u64", "usize"):
            x = I.load(st, v[1], v[2]) if isinstance(v, tuple) and v[0] == "R" else v
            if not isinstance(x, Lin):
                raise Stop("number")
            return [(st, ("u64", x))]
        if t["k"] == "slice" or (t["k"] == "adt" and norm_path(t["path"]).endswith("vec::Vec")):
            et = t.get("of")
            if et is None:
                et = [a for a in t.get("targs") or t.get("args") or [] if isinstance(a, int)][0]
            s = models.as_slice(I, st, v)
            segs = models.get_segs(I, st, s) if s is not None else None
            if segs is None or not s[4].is_const():
                raise Stop("slice")
            cur = [(st, ())]
            for i in range(s[4].c):
                x = None
                for lo, hi, u in segs:
                    if lo.is_const() and hi.is_const() and lo.c <= i < hi.c:
                        x = seg_at(u, lc(i))
                if x is None:
                    raise Stop("slice")
                nx = []
                for s1, acc in cur:
                    s1 = s1.copy()
                    key = (fid, ("elem", i))
                    e = self.p.types[et]
                    s1.env[key] = ("S", 0, (x.lin(),)) if e["k"] == "adt" else x.lin()
                    for s2, tr in self.write(I, s1, et, ("R", ("v",) + key, ()), fid, (bb, i)):
                        s2.env.pop(key, None)
                        nx.append((s2, acc + (tr,)))
                cur = nx
            return [(s1, ("seq", acc)) for s1, acc in cur]
        raise Stop("writing " + t["s"])

    # -------------------------------------------------------- calls
    def __call__(self, I, st, c, args, fid, bb, dty):
        tr = (c.get("trait") or "").split("<")[0]
        name = c.get("name")
        if name in ("eq", "ne") and tr.endswith("cmp::PartialEq") and len(args) == 2:
            a, b = (self.text(I, st, x) for x in args)
            if a is not None and b is not None:
                return [(st, (a == b) == (name == "eq"))]
            return None
        if not c.get("unresolved") or "serde::" not in tr:
            return None
        try:
            return self.call(I, st.copy(), tr.rsplit("::", 1)[-1], name, c, args, fid, bb)
        except (Stop, IndexError, TypeError, KeyError) as e:
            raise loops.Budget("serde: %s" % e)

    def text(self, I, st, v):
        for _ in range(4):
            if isinstance(v, tuple) and v[0] == "STR":
                return v[1]
            if isinstance(v, tuple) and v[0] == "R":
                v = I.load(st, v[1], v[2])
            else:
                return None

    def lastty(self, c):
        return [x for x in c["targs"] if isinstance(x, int)][-1]

    def call(self, I, st, tr, name, c, args, fid, bb):
        if name == "is_human_readable":
            return [(st, self.human)]
        if tr == "Error":
            return [(st, ("EV", name))]
        if tr == "Deserializer" and name.startswith("deserialize_"):
            d = args[0]
            if d[0] != "DE":
                raise Stop("deserializer")
            return self.visit(I, st, self.lastty(c), args[-1], d[1], fid, bb)
        if tr == "Deserialize" and name == "deserialize":
            return self.read(I, st, self.lastty(c), args[0][1], fid, bb)
        if tr in ("SeqAccess", "MapAccess"):
            r = args[0]
            a = I.load(st, r[1], r[2])
            while a[0] == "R":
                r = a
                a = I.load(st, r[1], r[2])
            if name == "next_element" and a[0] == "SA":
                if a[2] >= len(a[1]):
                    return [(st, ok(NONE))]
                I.store(st, r[1], r[2], ("SA", a[1], a[2] + 1))
                return [(s, ok(some(v[2][0])) if v[1] == 0 else v) for s, v in self.read(I, st, self.lastty(c), a[1][a[2]], fid, bb)]
            if name == "next_key" and a[0] == "MA":
                if a[2] >= len(a[1]):
                    return [(st, ok(NONE))]
                k, v = a[1][a[2]]
                I.store(st, r[1], r[2], ("MA", a[1], a[2] + 1, v))
                return [(s, ok(some(x[2][0])) if x[1] == 0 else x) for s, x in self.read(I, st, self.lastty(c), ("err",) if k is None else ("str", k), fid, bb)]
            if name == "next_value" and a[0] == "MA" and a[3] is not None:
                I.store(st, r[1], r[2], a[:3] + (None,))
                if "IgnoredAny" in self.p.types[self.lastty(c)]["s"]:
                    return [(st, ok(UNIT))]
                return self.read(I, st, self.lastty(c), a[3], fid, bb)
            raise Stop(name)
        if tr == "Serialize" and name == "serialize":
            return [(s, ok(("TREE", t))) for s, t in self.write(I, st, [x for x in c["targs"] if isinstance(x, int)][0], args[0], fid, bb)]
        if tr == "Serializer":
            if name in ("serialize_u64",):
                return [(st, ok(("TREE", ("u64", args[1]))))]
            if name in ("serialize_struct", "serialize_tuple_struct", "serialize_tuple", "serialize_seq", "serialize_map"):
                n = args[-1]
                return [(st, ok(("SB", "map" if name in ("serialize_struct", "serialize_map") else "seq", n if isinstance(n, Lin) else None, ())))]
            if name == "serialize_newtype_struct":
                return [(s, ok(("TREE", t))) for s, t in self.write(I, st, self.lastty(c), args[-1], fid, bb)]
            raise Stop(name)
        if tr in ("SerializeStruct", "SerializeTuple", "SerializeTupleStruct", "SerializeSeq"):
            if name == "end":
                b = args[0]
                if b[0] != "SB":
                    raise Stop("builder")
                return [(st, ok(("TREE", (b[1], b[3], b[2]))))]
            if name in ("serialize_field", "serialize_element"):
                r = args[0]
                out = []
                for s, t in self.write(I, st, self.lastty(c), args[-1], fid, bb):
                    s = s.copy()
                    b = I.load(s, r[1], r[2])
                    if b[0] != "SB":
                        raise Stop("builder")
                    if b[1] == "map":
                        k = self.text(I, s, args[1])
                        if k is None:
                            raise Stop("field name")
                        t = (k, t)
                    I.store(s, r[1], r[2], b[:3] + (b[3] + (t,),))
                    out.append((s, ok(UNIT)))
                return out
        raise Stop(name)


def entry(p, ty, trait, name):
    for k, f in p.fns.items():
        if f.local and f.d.get("name") == name and f.d.get("impl_self") == ty and (f.d.get("impl_trait") or "").split("<")[0].endswith(trait):
            return f
    return None


def follow(p, f, sc, human, seconds=10):
    return scen.run(p, f, sc, api=World(p, human), seconds=seconds, unroll=True, budget=400000)[1]


def show(e, t):
    if t[0] == "u64":
        return "%#x" % e.L(t[1])
    if t[0] == "seq":
        return "[" + ", ".join(show(e, x) for x in t[1]) + "]"
    if t[0] == "map":
        return "{" + ", ".join("%s: %s" % (k, show(e, x)) for k, x in t[1]) + "}"
    return t[1] if t[0] == "str" else "error"


def reading(p, human, node, want, digits=(), st=None, orgs=None, cons=(), pool=None):
    """deserialize the node; want is None (must be an error) or (width, terms)"""
    f = entry(p, scen.APINT, "Deserialize", "deserialize")
    if f is None:
        return "undecided", "not found", 1
    sc = scen.Scen("")
    if st is not None:
        sc.st = st.copy()
    sc.orgs = dict(orgs or {"d": (lc(len(digits)), lc(64))})
    for c in cons:
        sc.st.add_lin(c)
    sc.args = [("DE", node)]
    und, bad = [], None
    outs = follow(p, f, sc, human)
    for o in outs:
        if o.kind == "budget":
            und.append("budget")
            continue
        if o.st.taint:
            und.append(",".join(sorted(map(str, o.st.taint))))
            continue
        v = o.val
        good = o.kind == "ret" and isinstance(v, tuple) and v[0] == "S"
        if good and want is None and v[1] == 1:
            continue
        if good and want is not None and v[1] == 0:
            x = view(o.st, v[2][0])
            w, ts = want
            if x.ok and entails_eq(o.st.cons, x.w, w) and x.len.is_const() and x.len.c == len(ts):
                def same(st):
                    for i, t in enumerate(ts):
                        g = None
                        for lo, hi, u in x.segs:
                            if lo.is_const() and hi.is_const() and lo.c <= i < hi.c:
                                g = seg_at(u, lc(i))
                        if g is None or not term_equal(st, g, t):
                            return False
                    return True
                if forall(o.st.copy(), same):
                    continue

        def check(cs, e):
            try:
                if o.kind == "panic":
                    check.txt = "%s panics: %s" % (show(e, node), o.what)
                    return False
                if v[1] == 1:
                    check.txt = "%s is rejected" % show(e, node)
                    return want is None
                g = judge.J.number(None, cs, e.V(v[2][0]))
                if want is None:
                    check.txt = "%s is accepted" % show(e, node)
                    return False
                if g is None:
                    return None
                y = sum(e.Tm(t) << 64 * i for i, t in enumerate(want[1]))
                check.txt = "width %d value %#x is read as width %d value %#x" % (e.L(want[0]), y, g[0], g[1])
                return g == (e.L(want[0]), y)
            except (Unknown, ZeroDivisionError):
                return None
        if pool is not None:
            pool |= set(conc.consts(o.st))
        if conc.witness(o.st, check, seed=1, tries=100) is not None:
            bad = bad or check.txt[:400]
        else:
            und.append("not established")
    if not outs:
        und.append("no outcome")
    if bad:
        return "violated", bad, len(outs)
    if und:
        return "undecided", "; ".join(sorted(set(und)))[:300], len(outs)
    return "proved", "", len(outs)


def leaf(t):
    """the number in a node that holds just one"""
    while t[0] == "seq" and len(t[1]) == 1:
        t = t[1][0]
    return t[1] if t[0] == "u64" else None


def writing(p, human, w):
    f = entry(p, scen.APINT, "Serialize", "serialize")
    if f is None:
        return "undecided", "not found", 1
    sc = scen.Scen("")
    sc.add_apint("x", scen.Width(None, "", w), False, False, None)
    sc.args.append(("SER",))
    n = (w + 63) // 64
    ds = [T("dig", ("x", lc(i)), 64) for i in range(n)]
    und, bad = [], None
    outs = follow(p, f, sc, human)
    num = len(outs)
    for o in outs:
        if o.kind == "budget":
            und.append("budget")
            continue
        if o.st.taint:
            und.append(",".join(sorted(map(str, o.st.taint))))
            continue
        if o.kind == "panic" or o.val[0] != "S" or o.val[1] != 0 or o.val[2][0][0] != "TREE":
            if o.kind == "panic" and conc.witness(o.st, lambda cs, e: False, seed=1, tries=100) is not None:
                bad = bad or "writing panics: %s" % o.what
            else:
                und.append("result")
            continue
        tree = o.val[2][0][1]
        why = None
        if human:
            m = dict(tree[1]) if tree[0] == "map" else {}
            if set(m) != {"width", "digits"} or len(tree[1]) != 2:
                why = "not a struct of the fields width and digits"
            else:
                a, b = m["width"], m["digits"]
        elif tree[0] != "seq" or len(tree[1]) != 2:
            why = "not a pair of width and digits"
        else:
            a, b = tree[1]
        if why is None and tree[2] is not None and tree[2].is_const() and tree[2].c != 2:
            why = "announces %d entries and writes 2" % tree[2].c
        if why is None:
            l = leaf(a)
            if l is None or b[0] != "seq" or any(q[0] != "u64" for q in b[1]):
                why = "width or digits of another form"
            elif len(b[1]) != n:
                why = "%d digits are written instead of %d" % (len(b[1]), n)
        if why is not None:
            if conc.witness(o.st, lambda cs, e: False, seed=1, tries=100) is not None:
                bad = bad or why
            else:
                und.append(why)
            continue
        if not (l.is_const() and l.c == w and all(q[1] == d.lin() for q, d in zip(b[1], ds))):
            def check(cs, e):
                try:
                    g = (e.L(l), [e.L(q[1]) for q in b[1]])
                    y = (w, [e.dig(d) for d in ds])
                    check.txt = "width %d digits %s is written as width %d digits %s" % (y[0], list(map(hex, y[1])), g[0], list(map(hex, g[1])))
                    return g == y
                except (Unknown, ZeroDivisionError):
                    return None
            if conc.witness(o.st, check, seed=1, tries=100) is not None:
                bad = bad or check.txt[:400]
            else:
                und.append("written value not established")
            continue
        s, d, k = reading(p, human, strip(tree), (lc(w), ds), st=o.st, orgs=sc.orgs)
        num += k
        if s == "violated":
            bad = bad or "what is written is not read back: " + d
        elif s == "undecided":
            und.append("reading back: " + d)
    if not outs:
        und.append("no outcome")
    if bad:
        return "violated", bad, num
    if und:
        return "undecided", "; ".join(sorted(set(und)))[:300], num
    return "proved", "", num


def strip(t):
    if t[0] == "map":
        return ("map", tuple((k, strip(v)) for k, v in t[1]))
    if t[0] == "seq":
        return ("seq", tuple(strip(v) for v in t[1]))
    return t


WIDTHS = (1, 7, 8, 32, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256, 257, 320, 448, 512, 513, 700)
MORE = (2, 31, 33, 62, 66, 126, 130, 255, 384, 511, 576, 640, 1000, 1024)
FAR = (0, 256 * 64 + 64, 65536 * 64 + 100, (64 << 31) + 64, (64 << 32) + 64, (64 << 32) + 65, (64 << 32) + 192, 1 << 32, (1 << 32) + 64, 1 << 63, (1 << 64) - 64, (1 << 64) - 63, (1 << 64) - 1)


def inputs(p, human, long):
    """(description, node, expected) of the inputs to be read"""
    def wnode(w):
        w = w if isinstance(w, Lin) else lc(w)
        return ("seq", (("u64", w),)) if human else ("u64", w)

    def dnode(n):
        return ("seq", tuple(("u64", T("dig", ("d", lc(i)), 64).lin()) for i in range(n)))

    def pack(seq):
        """seq of ('w', node) and ('d', node)"""
        if human:
            return ("map", tuple((({"w": "width", "d": "digits"}.get(k, k)) if k is not None else None, v) for k, v in seq))
        return ("seq", tuple(v for k, v in seq))
    out = []
    for w in WIDTHS + (MORE if long else ()):
        k = (w + 63) // 64
        for n in sorted({0, 1, k - 1, k, k + 1, 2 * k}):
            want = None
            if n == k:
                ts = [T("dig", ("d", lc(i)), 64) for i in range(n)]
                if w % 64:
                    ts[-1] = mk("and", ts[-1], tc((1 << w % 64) - 1, 64), 64)
                want = (lc(w), ts)
            for order in ("wd", "dw") if human else ("wd",):
                q = [(c, wnode(w) if c == "w" else dnode(n)) for c in order]
                out.append(("width %d, %d digits%s" % (w, n, ", digits first" if order == "dw" else ""), pack(q), want, n, ()))
    # every width, for each number of digits
    for n in range(0, 41 if long else 21):
        w = sym("w", 0, (1 << 64) - 1)
        for d, cons in (("fitting", (w - lc(64 * n - 63), lc(64 * n) - w)), ("smaller", (lc(64 * n - 64) - w,)), ("larger", (w - lc(64 * n + 1),))):
            if n == 0 and d == "fitting":
                d, cons = "zero", (lc(0) - w,)
            if n == 0 and d == "smaller":
                continue
            ts = [T("dig", ("d", lc(i)), 64) for i in range(n)]
            if n:
                e = lc(64 * n) - w
                ts[-1] = mk_shr(mk_shl(ts[-1], e, 64), e, 64)
            for order in ("wd", "dw") if human else ("wd",):
                q = [(c, wnode(w) if c == "w" else dnode(n)) for c in order]
                out.append(("every %s width, %d digits%s" % (d, n, ", digits first" if order == "dw" else ""), pack(q), (w, ts) if d == "fitting" else None, n, (w,) + cons))
    for w in FAR:
        for n in (0, 1, 2, 3):
            if w == 0 or n != (w + 63) // 64:
                out.append(("width %d, %d digits" % (w, n), pack([("w", wnode(w)), ("d", dnode(n))]), None, n, ()))
    W, D, B = ("w", wnode(100)), ("d", dnode(2)), ("err",)
    bad = [("nothing", []), ("width only", [W]), ("width unreadable", [("w", B), D]), ("digits unreadable", [W, ("d", B)]),
           ("a digit unreadable", [W, ("d", ("seq", (dnode(1)[1][0], B)))]), ("digits are a number", [W, ("d", ("u64", lc(5)))]),
           ("width is a text", [("w", ("str", "100")), D]), ("width is empty", [("w", ("seq", ())), D])]
    if human:
        bad += [("digits only", [D]), ("width twice", [W, W]), ("digits twice", [D, D]), ("width twice and digits", [W, W, D]),
                ("width, digits, width", [W, D, W]), ("width, digits, digits", [W, D, D]), ("digits, width, width", [D, W, W]),
                ("unknown field", [W, D, ("other", wnode(1))]), ("unknown field first", [("widths", wnode(1)), W, D]),
                ("empty field name", [W, D, ("", wnode(1))]), ("field name unreadable", [W, (None, wnode(1)), D]),
                ("other case", [("Width", wnode(100)), D])]
    out += [(d, pack(s), None, 2, ()) for d, s in bad]
    return out


def place(t, w, c):
    """the node with the number w replaced"""
    if t[0] == "u64":
        return ("u64", lc(c)) if t[1] == w else t
    if t[0] == "map":
        return ("map", tuple((k, place(v, w, c)) for k, v in t[1]))
    if t[0] == "seq":
        return ("seq", tuple(place(v, w, c) for v in t[1]))
    return t


def numbers(p, human, node, want, n, cons, digits, pool, r):
    """the same input again for single widths: those near the failing paths' own constants and a fixed choice"""
    w = cons[0]
    near = {c + d for c in pool for d in (-1, 0, 1)} | {c * 64 + d for c in pool if c < 1 << 58 for d in (-63, 0, 1)}
    if want is not None:
        cand = list(range(64 * n - 63, 64 * n + 1))
    else:
        cand = sorted(c for c in near if c > 0)[:150] + list(range(0, 64 * n + 200, 7 if n > 4 else 3))
    end = time.time() + 8
    for c in cand:
        if time.time() > end or not 0 <= c < 1 << 64:
            continue
        if any((k - w.scale(coef(k, w)) + lc(c * coef(k, w))).c < 0 for k in cons[1:]):
            continue
        x = want
        if want is not None:
            x = (lc(c), digits[:-1] + [mk("and", digits[-1], tc((1 << (c - 64 * n + 64)) - 1, 64), 64)])
        s = reading(p, human, place(node, w, c), x, digits)
        if s[0] == "violated":
            return s
    return r


def coef(k, w):
    a = w.t[0][0]
    return dict(k.t).get(a, 0)


G = None


def job(a):
    kind, human, i = a
    p, ins = G
    fmt = "human readable" if human else "compact"
    try:
        if kind == "w":
            return ("ApInt::serialize", "%s, width %d" % (fmt, i), "written") + writing(p, human, i)
        d, node, want, n, cons = ins[human][i]
        T0 = [T("dig", ("d", lc(j)), 64) for j in range(n)]
        pool = set()
        r = reading(p, human, node, want, T0, cons=cons[1:], pool=pool)
        if cons and r[0] == "undecided":
            r = numbers(p, human, node, want, n, cons, T0, pool, r)
        return ("ApInt::deserialize", "%s, %s" % (fmt, d), "read") + r
    except Exception as e:
        import os
        if os.environ.get("TB"):
            raise
        return ("ApInt::serialize" if kind == "w" else "ApInt::deserialize", "%s, %s" % (fmt, i), "analysis", "undecided", repr(e)[:200], 1)


def records(p, long=False):
    global G
    G = (p, {h: inputs(p, h, long) for h in (False, True)})
    ws = sorted(set(range(1, 641 if long else 321)) | set(WIDTHS) | set(MORE if long else ()), reverse=True)
    jobs = [("w", h, w) for w in ws for h in (False, True)]
    jobs += [("r", h, i) for h in (False, True) for i in range(len(G[1][h]))]
    return jobs_.run(job, jobs, long)
