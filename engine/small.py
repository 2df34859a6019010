"""The small number types: widths, bit positions, shift amounts and radices.

Each constructor is followed with the number free over its whole type, each
observer on whatever the constructors give, so the inner form of the types
does not matter."""
import scen, conc, judge
from lin import Lin, lc, sym, entails_eq
from conc import Unknown

TOP = (1 << 64) - 1
TYPES = {       # type: (path, valid range, range of the argument, observer, error kind)
    "BitWidth": ("apint::bitwidth::BitWidth", (1, TOP), TOP, "to_usize", "InvalidBitWidth"),
    "BitPos": ("apint::bitpos::BitPos", (0, TOP), TOP, "to_usize", None),
    "ShiftAmount": ("apint::apint::shift::ShiftAmount", (0, TOP), TOP, "to_usize", None),
    "Radix": ("apint::radix::Radix", (2, 36), 255, "to_u8", "InvalidRadix"),
}
CONST = {"w1": 1, "w8": 8, "w16": 16, "w32": 32, "w64": 64, "w128": 128}


def method(p, path, name):
    for k, f in p.fns.items():
        if k.split("#")[0] == path + "::" + name:
            return f


def traitfn(p, path, trait, name):
    for k, f in p.fns.items():
        if f.local and f.d.get("name") == name and f.d.get("impl_self") == path and (f.d.get("impl_trait") or "").split("::")[-1].split("<")[0] == trait.split("<")[0] and ("<" not in trait or (f.d.get("impl_trait") or "").endswith(trait)):
            return f


def follow(p, f, args, st=None):
    sc = scen.Scen("")
    if st is not None:
        sc.st = st.copy()
    sc.args = list(args)
    return scen.run(p, f, sc, seconds=20)[1]


def region(cons):
    sc = scen.Scen("")
    for c in cons:
        sc.st.add_lin(c)
    return sc.st


class Verdict:
    def __init__(self):
        self.und, self.bad, self.n = [], None, 0

    def __call__(self, o, fine, txt, hold=None):
        """fine: proved; otherwise a point of the outcome at which hold(env) is False is a violation"""
        self.n += 1
        if fine:
            return
        if o.kind == "budget" or o.st.taint:
            self.und.append("budget" if o.kind == "budget" else ",".join(sorted(map(str, o.st.taint))))
            return

        def check(cs, e):
            try:
                r = hold(e) if hold else False
                if r is False:
                    check.txt = txt(e)
                return r
            except (Unknown, ZeroDivisionError, TypeError, IndexError, KeyError):
                return None
        if self.bad is None and conc.witness(o.st, check, seed=1, tries=300) is not None:
            self.bad = check.txt
        else:
            self.und.append("not established")

    def result(self):
        if self.bad:
            return "violated", self.bad, self.n
        if self.und or not self.n:
            return "undecided", "; ".join(sorted(set(self.und))) or "no outcome", max(self.n, 1)
        return "proved", "", self.n


def kind(p, f, v):
    """kind name and payload of the Error of an Err"""
    try:
        t = [t for t in p.types if t["k"] == "adt" and t.get("path") == "apint::errors::Error"][0]
        kt = p.types[t["variants"][0]["fields"][0][1]]
        k = v[2][0][2][0]
        var = kt["variants"][k[1]]
        return var["name"], k[2]
    except (IndexError, KeyError, TypeError):
        return None, ()


def pieces(T, n):
    path, (lo, hi), top, obs, ek = TYPES[T]
    out = [(True, [n - lo, lc(hi) - n])]
    if lo > 0:
        out.append((False, [lc(lo - 1) - n]))
    if hi < top:
        out.append((False, [n - hi - 1]))
    return out


def observe(p, V, T, val, st, n, what):
    f = method(p, TYPES[T][0], TYPES[T][3])
    if f is None:
        V.und.append("observer not found")
        return
    for o in follow(p, f, [val], st):
        same = o.kind == "ret" and isinstance(o.val, Lin)
        V(o, same and entails_eq(o.st.cons, o.val, n),
          lambda e: "%s of %d holds %s" % (what, e.L(n), "%d" % e.L(o.val) if o.kind == "ret" else "nothing: reading it panics"),
          (lambda e: e.L(o.val) == e.L(n)) if o.kind == "ret" else None)


def numbers(T):
    """single numbers, for cases which stay open with the number free"""
    top = TYPES[T][2]
    c = set(range(256)) if top < 256 else {0, 1, 2, 3, 31, 32, 63, 64, 65, 100, 127, 128, 129}
    for k in (8, 15, 16, 31, 32, 33, 40, 48, 53, 56, 57, 58, 59, 60, 61, 62, 63, 64):
        c |= {(1 << k) + d for d in (-2, -1, 0, 1, 5, 100)}
    return sorted(x for x in c if 0 <= x <= top)


def construct(p, T, name):
    r = construct1(p, T, name, sym("n", 0, TYPES[T][2]))
    if r[0] == "undecided":
        for c in numbers(T):
            x = construct1(p, T, name, lc(c))
            if x[0] == "violated":
                return x
    return r


def construct1(p, T, name, n):
    path, rng, top, obs, ek = TYPES[T]
    V = Verdict()
    num = "u8" if T == "Radix" else "usize"
    f = method(p, path, "new") if name == "new" else traitfn(p, path, "From<%s>" % num, "from")
    if f is None:
        return "undecided", "not found", 1
    for valid, cons in pieces(T, n):
        if not region(cons).feasible():
            continue
        for o in follow(p, f, [n], region(cons)):
            if o.kind == "budget":
                V(o, False, None)
            elif not valid:
                if name == "from":
                    V(o, o.kind == "panic", lambda e: "%s::from accepts %d" % (T, e.L(n)))
                elif o.kind == "panic" or o.val[1] == 0:
                    V(o, False, lambda e: "%s::new(%d) %s" % (T, e.L(n), "panics" if o.kind == "panic" else "is accepted"))
                else:
                    k, pay = kind(p, f, o.val)
                    if k is None:
                        V.und.append("error kind")
                        continue
                    x = pay[0] if pay else None
                    while isinstance(x, tuple) and x[0] == "S" and len(x[2]) == 1:
                        x = x[2][0]
                    right = k == ek and isinstance(x, Lin) and entails_eq(o.st.cons, x, n)
                    V(o, right, lambda e: "%s::new(%d) reports %s" % (T, e.L(n), k), lambda e: k == ek and e.L(x) == e.L(n))
            elif o.kind == "panic":
                V(o, False, lambda e: "%s::%s(%d) panics" % (T, name, e.L(n)))
            elif name == "new" and o.val[1] == 1:
                V(o, False, lambda e: "%s::new(%d) is rejected" % (T, e.L(n)))
            elif o.st.taint:
                V(o, False, None)
            else:
                observe(p, V, T, o.val[2][0] if name == "new" else o.val, o.st, n, "%s::%s" % (T, name))
    return V.result()


def constant(p, name):
    f = method(p, TYPES["BitWidth"][0], name)
    if f is None:
        return "undecided", "not found", 1
    V = Verdict()
    for o in follow(p, f, []):
        if o.kind != "ret":
            V(o, False, lambda e: "BitWidth::%s panics" % name)
        else:
            observe(p, V, "BitWidth", o.val, o.st, lc(CONST[name]), "BitWidth::" + name)
    return V.result()


def built(p, T, n, st):
    f = method(p, TYPES[T][0], "new") or traitfn(p, TYPES[T][0], "From<usize>", "from")
    for o in follow(p, f, [n], st):
        if o.kind == "ret" and not o.st.taint and (f.d.get("name") != "new" or o.val[1] == 0):
            yield o.st, o.val[2][0] if f.d.get("name") == "new" else o.val


ORDER = {"lt": (True, False, False), "le": (True, True, False), "gt": (False, False, True), "ge": (False, True, True),
         "eq": (False, True, False), "ne": (True, False, True), "cmp": (0, 1, 2), "partial_cmp": (0, 1, 2)}


def compare(p, T, trait, name):
    f = traitfn(p, TYPES[T][0], trait, name)
    if f is None:
        return None
    lo, hi = TYPES[T][1]
    r = compare1(p, f, T, name, sym("a", lo, hi), sym("b", lo, hi))
    if r[0] == "undecided":
        c = [x for x in numbers(T) if lo <= x <= hi]
        for x, y in [(c[0], z) for z in c] + [(z, c[-1]) for z in c] + [(z, z) for z in c] + list(zip(c, c[1:])) + list(zip(c[1:], c)):
            v = compare1(p, f, T, name, lc(x), lc(y))
            if v[0] == "violated":
                return v
    return r


def compare1(p, f, T, name, a, b):
    V = Verdict()
    for i, cons in enumerate(([b - a - 1], [a - b, b - a], [a - b - 1])):
        if not region(cons).feasible():
            continue
        for s1, x in built(p, T, a, region(cons)):
            for s2, y in built(p, T, b, s1):
                st = s2.copy()
                st.env[(0, "a")] = x
                st.env[(0, "b")] = y
                want = ORDER[name][i]
                for o in follow(p, f, [("R", ("v", 0, "a"), ()), ("R", ("v", 0, "b"), ())], st):
                    def txt(e, o=o):
                        return "%s::%s is wrong for %d and %d" % (T, name, e.L(a), e.L(b))
                    if o.kind != "ret":
                        V(o, False, txt)
                        continue
                    v = o.val
                    if want is True or want is False:
                        g = v.c != 0 if isinstance(v, Lin) and v.is_const() else o.st.truth(v)
                        V(o, g is want, txt, lambda e, v=v: bool(e.L(v) if isinstance(v, Lin) else e.C(v)) == want)
                        continue
                    if name == "partial_cmp":
                        if not (isinstance(v, tuple) and v[0] == "S"):
                            V.und.append("result")
                            continue
                        v = v[2][0] if v[1] == 1 else ("S", None, ())
                    g = v[1] if isinstance(v, tuple) and v[0] == "S" else None
                    if g is None and not (isinstance(v, tuple) and v[0] == "S"):
                        V.und.append("result")
                        continue
                    V(o, g == want, txt)
    return V.result()


def copied(p, T):
    f = traitfn(p, TYPES[T][0], "Clone", "clone")
    if f is None:
        return None
    lo, hi = TYPES[T][1]
    n = sym("n", lo, hi)
    V = Verdict()
    for s, x in built(p, T, n, region([])):
        st = s.copy()
        st.env[(0, "a")] = x
        for o in follow(p, f, [("R", ("v", 0, "a"), ())], st):
            if o.kind != "ret":
                V(o, False, lambda e: "cloning panics")
            else:
                observe(p, V, T, o.val, o.st, n, "a clone of %s" % T)
    return V.result()


def records(p, long=False):
    out = []

    def add(fn, case, rule, f, *a):
        try:
            r = f(p, *a)
        except Exception as e:
            import os
            if os.environ.get("TB"):
                raise
            r = ("undecided", repr(e)[:200], 1)
        if r is not None:
            out.append((fn, case, rule) + r)
    for T in TYPES:
        if T != "ShiftAmount":
            add(T + "::new", "every argument", "constructed", construct, T, "new")
        add("%s::from" % T, "every argument", "constructed", construct, T, "from")
        add(T + "::clone", "every value", "cloned", copied, T)
        for trait, names in (("PartialEq", ("eq", "ne")), ("PartialOrd", ("partial_cmp", "lt", "le", "gt", "ge")), ("Ord", ("cmp",))):
            for name in names:
                add("%s::%s" % (T, name), "every pair", "compared", compare, T, trait, name)
    for name in CONST:
        add("BitWidth::" + name, "-", "constant", constant, name)
    return out
