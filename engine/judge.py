"""Obligations on the outcomes of a public function.

Each obligation exists twice: `a_*` decides it for every concrete input an
abstract outcome stands for (True = established), `c_*` decides it at one
concrete point of an outcome (True / False / None = not decided)."""
import re
from lin import Lin, ATOMS, lc, la, new_atom, ZERO, ONE, entails, entails_eq
from terms import T, NeedSplit, bit, f_not, f_equal, forall, tc, fits, term_equal, as_term, ones, mk_shr, mk_not
from state import State, dig, HASH, seg_at, seg_read, ORG, contents_equal
from scen import APINT, INT, UINT, view, Width
from spec import (In, N, Err, Lincond, Zero, ob, sign, redefine, contradiction, M, PRIMS)
from conc import Unknown
import api, carry, count

BAD = ("use-after-free", "double free", "slice beyond the buffer", "slice beyond the inline digit",
       "union field read other than the one written", "buffer rebuilt with a wrong size",
       "buffer rebuilt from a pointer that owns no buffer")


def is_ap(t):
    return t["k"] == "adt" and t["path"] in (APINT, INT, UINT)


def aps(types, ty, v, out):
    """all ApInt values inside a value of type ty; returns False if part of it is unknown"""
    t = types[ty]
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] in ("TOP", "UNDEF"):
        return not may_hold(types, ty)
    if is_ap(t):
        if t["path"] == APINT:
            out.append(v)
        elif v[0] == "S":
            out.append(v[2][0])
        else:
            return False
        return True
    ok = True
    if t["k"] == "adt" and v[0] == "S" and v[1] < len(t.get("variants", ())):
        for (n, ft), x in zip(t["variants"][v[1]]["fields"], v[2]):
            ok &= aps(types, ft, x, out)
    elif t["k"] == "tuple" and v[0] == "S":
        for ft, x in zip(t["elems"] if "elems" in t else t.get("of", ()), v[2]):
            ok &= aps(types, ft, x, out)
    return ok


def may_hold(types, ty, d=0):
    t = types[ty]
    if d > 6:
        return False
    if is_ap(t):
        return True
    if t["k"] == "adt":
        return any(may_hold(types, ft, d + 1) for v in t.get("variants", ()) for _, ft in v["fields"])
    return False


class J:
    def __init__(self, p, fn, sc):
        self.p = p
        self.types = p.types
        self.fn = fn
        self.f = fn.f
        self.op = fn.op
        self.sc = sc
        self.i = In(sc)
        rt = self.types[self.f.locals[0]]
        self.res = rt["k"] == "adt" and rt["path"].endswith("result::Result")
        self.optn = rt["k"] == "adt" and rt["path"].endswith("option::Option") and self.op.res == "ap"
        self.errs = [e(self.i) for e in self.op.errs]
        if self.optn:
            self.errs.append(Err("none", Lincond(("eq0", self.i.tw.w - 1)), "None", {}))
        if self.res:
            self.okty = rt["variants"][0]["fields"][0][1]
            self.errty = rt["variants"][1]["fields"][0][1]
        else:
            self.okty = rt["variants"][1]["fields"][0][1] if self.optn else self.f.locals[0]
        self.inplace = bool(sc.ops) and sc.ops[0].mut

    # ------------------------------------------------------------ outcome classes
    def cls(self, o):
        if o.kind == "panic":
            return ("panic", o.what)
        if o.kind == "budget":
            return ("?", None)
        v = o.val if o.val is not None else o.st.env.get(("ret", 0))
        if self.res:
            if not isinstance(v, tuple) or v[0] != "S":
                return ("?", None)
            if v[1] == 0:
                return ("ok", v[2][0] if v[2] else ("S", 0, ()))
            return ("err",) + self.error(v[2][0])
        if self.optn:
            if not isinstance(v, tuple) or v[0] != "S":
                return ("?", None)
            return ("ok", v[2][0]) if v[1] == 1 else ("err", "None", {})
        return ("ok", v)

    def error(self, v):
        """kind name and payload of an apint Error value"""
        try:
            t = self.types[self.errty]
            kt = self.types[t["variants"][0]["fields"][0][1]]
            k = v[2][0]
            if k[0] != "S":
                return (None, {})
            var = kt["variants"][k[1]]
            return (var["name"], {n: (ft, x) for (n, ft), x in zip(var["fields"], k[2])})
        except (IndexError, KeyError, TypeError):
            return (None, {})

    def slots(self, o, c):
        """result values of a successful outcome: list of (name, ApInt value, Width)"""
        i = self.i
        w = {"x": i.x.width if i.x else None, "y": i.y.width if i.y else None, "t": i.tw}.get(self.op.width) \
            if not isinstance(self.op.width, int) else Width(None, "", self.op.width)
        if self.op.res != "ap":
            return []
        out = []
        if self.op.slots:
            for s in self.op.slots:
                op = i.x if s == "x" else i.y
                out.append((s, self.unwrap(o.st.env[op.key], op.wrap), op.width))
        elif self.inplace:
            out.append(("x", self.unwrap(o.st.env[i.x.key], i.x.wrap), w))
        else:
            l = []
            if not aps(self.types, self.okty, c[1], l):
                return [("ret", None, w)]
            out += [("ret", v, w) for v in l]
        return out

    def unwrap(self, v, wrap):
        return v[2][0] if wrap and isinstance(v, tuple) and v[0] == "S" else v

    # ------------------------------------------------------------ failure conditions
    def a_err(self, o, tag):
        c = self.cls(o)
        es = [e for e in self.errs if e.tag == tag]
        if not es:
            return True
        st = o.st
        for e in es:
            if c[0] == "ok":
                if not e.cond.prove(st, False):
                    return False
            elif c[0] == "err":
                if c[1] == e.kind:
                    if not (e.cond.prove(st, True) and self.payload(st, e, c[2])):
                        return False
                elif not any(x.kind == c[1] for x in self.errs):
                    if not e.cond.prove(st, False):
                        return False
                # another listed error: fine as long as its own condition holds (its own obligation)
            elif c[0] == "panic":
                if self.fn.panics:
                    if not any(x.cond.prove(st, True) for x in self.errs):
                        return False
                elif not e.cond.prove(st, False):
                    return False
            else:
                return False
        return True

    def c_err(self, o, cs, n, tag):
        c = self.cls(o)
        r = True
        for e in self.errs:
            if e.tag != tag:
                continue
            h = e.cond.conc(n)
            if c[0] == "ok" and h:
                return False
            if c[0] == "err":
                if c[1] is None:
                    r = None
                elif c[1] == e.kind:
                    if not h:
                        return False
                    q = self.c_payload(cs, n, e, c[2])
                    if q is False:
                        return False
                    if q is None:
                        r = None
                elif h and not any(x.kind == c[1] for x in self.errs):
                    return False
                elif h and any(x.kind == c[1] and not x.cond.conc(n) for x in self.errs):
                    return False
            if c[0] == "panic":
                if self.fn.panics:
                    if not any(x.cond.conc(n) for x in self.errs):
                        return False
                elif h:
                    return False
            if c[0] == "?":
                r = None
        return r

    def scalar(self, v):
        """the integer inside newtype wrappers"""
        n = 0
        while isinstance(v, tuple) and v and v[0] == "S" and len(v[2]) == 1 and n < 5:
            v = v[2][0]
            n += 1
        return v if isinstance(v, Lin) else None

    def payload(self, st, e, got):
        for k, (how, want) in e.payload.items():
            if how == "pair":
                a = [self.scalar(x[1]) for x in got.values()]
                if len(a) != 2 or None in a or not any(entails_eq(st.cons, a[0], want[j]) and entails_eq(st.cons, a[1], want[1 - j]) for j in (0, 1)):
                    return False
                continue
            if k not in got:
                return False
            ty, v = got[k]
            if how == "lin":
                x = self.scalar(v)
                if x is None or not entails_eq(st.cons, x, want):
                    return False
            elif how == "variant":
                t = self.types[ty]
                if not (isinstance(v, tuple) and v[0] == "S" and t["variants"][v[1]]["name"] == want):
                    return False
            elif how == "value":
                l = []
                if not aps(self.types, ty, v, l) or len(l) != 1 or not self.equals(st, l[0], want):
                    return False
        return True

    def c_payload(self, cs, n, e, got):
        for k, (how, want) in e.payload.items():
            if how == "pair":
                a = [self.scalar(x[1]) for x in got.values()]
                if len(a) != 2 or None in a:
                    return None
                try:
                    if sorted(n.e.L(x) for x in a) != sorted(n.e.L(x) for x in want):
                        return False
                except Unknown:
                    return None
                continue
            if k not in got:
                return None
            ty, v = got[k]
            if how == "lin":
                x = self.scalar(v)
                if x is None:
                    return None
                try:
                    x = n.e.L(x)
                except Unknown:
                    return None
                if x != n.e.L(want):
                    return False
            elif how == "variant":
                t = self.types[ty]
                if not (isinstance(v, tuple) and v[0] == "S"):
                    return None
                if t["variants"][v[1]]["name"] != want:
                    return False
            elif how == "value":
                l = []
                if not aps(self.types, ty, v, l) or len(l) != 1:
                    return None
                g = self.number(cs, n.e.V(l[0]))
                if g is None:
                    return None
                if g != ((n.wy, n.y) if want is n.i.y else (n.wx, n.x)):
                    return False
        return True

    # ------------------------------------------------------------ values
    def equals(self, st, v, op):
        """is the ApInt value v identical to the initial value of operand op?"""
        w = view(st, v)
        if not w.ok or not entails_eq(st.cons, w.w, op.width.w):
            return False
        if not entails_eq(st.cons, w.len, op.width.n):
            return False
        return contents_equal(st, w.segs, ((ZERO, op.width.n, dig(op.name, HASH)),), ZERO, op.width.n)

    def number(self, cs, v):
        """(width, value) of a concretised ApInt value, or None"""
        if v is None:
            return None
        w = view(cs, v)
        if not w.ok or not w.w.is_const() or not w.len.is_const():
            return None
        x = 0
        for k in range(w.len.c):
            t = None
            for lo, hi, u in w.segs:
                if lo.is_const() and hi.is_const() and lo.c <= k < hi.c:
                    t = seg_at(u, lc(k))
            if t is None or t.op != "c":
                return None
            x |= t.a[0] << (64 * k)
        return (w.w.c, x)

    # ------------------------------------------------------------ widths
    def a_width(self, o):
        c = self.cls(o)
        if c[0] == "panic":
            return True
        if c[0] == "ok":
            for nm, v, w in self.slots(o, c):
                if w is None:
                    continue
                x = view(o.st, v) if v is not None else None
                if x is None or not x.ok or not entails_eq(o.st.cons, x.w, w.w):
                    return False
            return True
        if c[0] == "err":
            return all(entails_eq(o.st.cons, view(o.st, self.unwrap(o.st.env[p.key], p.wrap)).w or lc(-1), p.width.w)
                       for p in self.sc.ops if p.mut and p.key in o.st.env)
        return False

    def c_width(self, o, cs, n):
        c = self.cls(o)
        if c[0] == "ok":
            r = True
            for nm, v, w in self.slots(o, c):
                if w is None:
                    continue
                x = view(cs, n.e.V(v)) if v is not None else None
                if x is None or not x.ok or not x.w.is_const():
                    r = None
                elif x.w.c != n.e.L(w.w):
                    return False
            return r
        if c[0] == "err":
            for p in self.sc.ops:
                if p.mut and p.key in cs.env:
                    x = view(cs, self.unwrap(cs.env[p.key], p.wrap))
                    if x.ok and x.w.is_const() and x.w.c != n.e.L(p.width.w):
                        return False
            return True
        return True if c[0] == "panic" else None

    # ------------------------------------------------------------ representation
    def visible(self, o, c):
        """all ApInt values a user can see after the call; None if part of the result is unknown"""
        l = []
        ok = True
        if c[0] == "ok":
            if c[1] is not None:
                ok &= aps(self.types, self.okty, c[1], l)
        elif c[0] == "err" and self.res:
            v = o.val if o.val is not None else o.st.env.get(("ret", 0))
            ok &= aps(self.types, self.errty, v[2][0], l)
        for p in self.sc.ops:
            if not p.byval and p.key in o.st.env:
                l.append(self.unwrap(o.st.env[p.key], p.wrap))
        return l if ok else None

    def a_canon(self, o):
        c = self.cls(o)
        if c[0] == "panic":
            return True
        if c[0] == "?":
            return False
        vs = self.visible(o, c)
        if vs is None:
            return False
        return all(self.canon(o.st, v) for v in vs)

    def canon(self, st, v):
        w = view(st, v)
        if not w.ok:
            return False
        n = w.len
        # position of the top digit's first unused bit
        e = w.w - (n - 1).scale(64)

        def go(c):
            if not c.decide(e - 1):
                return False
            if not c.decide(lc(64) - e):
                return False
            t = seg_read(c, w.segs, n - 1)
            if t is None:
                return False
            return c.decide(e - 64) or fits(c, t, e)
        return forall(st, go)

    def c_canon(self, o, cs, n):
        c = self.cls(o)
        if c[0] in ("panic", "?"):
            return True if c[0] == "panic" else None
        vs = self.visible(o, c)
        r = True
        if vs is None:
            r = None
            vs = [self.unwrap(o.st.env[p.key], p.wrap) for p in self.sc.ops if not p.byval and p.key in o.st.env]
        for v in vs:
            x = view(cs, n.e.V(v))
            if not x.ok or not x.w.is_const() or not x.len.is_const():
                r = None
                continue
            w, k = x.w.c, x.len.c
            for q in range(k):
                t = None
                for lo, hi, u in x.segs:
                    if lo.is_const() and hi.is_const() and lo.c <= q < hi.c:
                        t = seg_at(u, lc(q))
                if t is None or t.op != "c":
                    if 64 * (q + 1) > w:
                        r = None
                    continue
                b = min(64, max(0, w - 64 * q))
                if t.a[0] >> b:
                    return False
        return r

    # ------------------------------------------------------------ storage
    def a_store(self, o):
        c = self.cls(o)
        if c[0] == "panic":
            return not [e for e in o.st.ev if e[0] in BAD]
        if c[0] == "?":
            return False
        return self.store(o, o.st, c)[0] is True

    def store(self, o, st, c, e=None):
        bad = [x[0] for x in st.ev if x[0] in BAD]
        if bad:
            return False, bad[0]
        vs = self.visible(o, c)
        if vs is None:
            return None, "unknown value"
        if e is not None:
            vs = [e.V(v) for v in vs]
        count = {}
        for v in vs:
            w = view(st, v)
            if not w.ok:
                return (False if w.why == "pointer into the middle of a buffer" else None), w.why
            if w.rid is None:
                if not st.ge(lc(64) - w.w):
                    return (False if w.w.is_const() else None), "more than 64 bits stored in place"
            else:
                count[w.rid] = count.get(w.rid, 0) + 1
                g = st.heap[w.rid]
                if g.status != "live":
                    return False, "the value's buffer was freed"
                if g.kind != "heap":
                    return False, "the value points to memory it does not own"
                if not st.ge(w.w - 65):
                    return (False if w.w.is_const() else None), "at most 64 bits stored on the heap"
                k = w.len.scale(64) - w.w
                if not (st.ge(k) and st.ge(lc(63) - k)):
                    return (False if k.is_const() else None), "buffer size does not match the width"
                if g.cap is not None and not entails_eq(st.cons, g.cap, g.len):
                    return (False if g.cap.is_const() and g.len.is_const() else None), "capacity differs from the length"
        for rid, k in count.items():
            if k > 1:
                return False, "two values share one buffer"
        other = set()
        v = o.val if o.val is not None else st.env.get(("ret", 0))
        self.rids(st, v, other)
        for rid, g in st.heap.items():
            if g.kind == "heap" and g.status == "live" and rid not in count and rid not in other:
                return False, "a buffer is leaked"
        return True, None

    def rids(self, st, v, out, d=0):
        if isinstance(v, tuple) and v and d < 12:
            if v[0] in ("VEC", "BOX", "SV"):
                out.add(v[1])
            elif v[0] == "R" and v[1][0] == "h":
                out.add(v[1][1])
            else:
                for x in v:
                    if isinstance(x, tuple):
                        self.rids(st, x, out, d + 1)

    def c_store(self, o, cs, n):
        c = self.cls(o)
        if c[0] == "panic":
            return not [e for e in o.st.ev if e[0] in BAD]
        if c[0] == "?":
            return None
        return self.store(o, cs, c, n.e)[0]

    # ------------------------------------------------------------ operands left alone
    def kept(self, o, ops, exact=True):
        for p in ops:
            if p.key not in o.st.env:
                return False
            if not self.equals(o.st, self.unwrap(o.st.env[p.key], p.wrap), p):
                return False
        return True

    def c_kept(self, o, cs, n, ops):
        r = True
        for p in ops:
            g = self.number(cs, self.unwrap(cs.env.get(p.key), p.wrap)) if p.key in cs.env else None
            if g is None:
                r = None
            elif g != ((n.wx, n.x) if p is self.i.x else (n.wy, n.y)):
                return False
        return r

    def a_unch(self, o):
        c = self.cls(o)
        if c[0] == "err":
            return self.kept(o, [p for p in self.sc.ops if p.mut])
        return c[0] != "?"

    def c_unch(self, o, cs, n):
        c = self.cls(o)
        if c[0] == "err":
            return self.c_kept(o, cs, n, [p for p in self.sc.ops if p.mut])
        return True if c[0] != "?" else None

    def a_shared(self, o):
        c = self.cls(o)
        if c[0] in ("ok", "err"):
            if not self.kept(o, [p for p in self.sc.ops if not p.byval and not p.mut]):
                return False
            vs = self.visible(o, c)
            if vs is None:
                return False
            rids = [view(o.st, v).rid for v in vs]
            rids = [r for r in rids if r is not None]
            return len(rids) == len(set(rids))
        return c[0] == "panic"

    def c_shared(self, o, cs, n):
        c = self.cls(o)
        if c[0] in ("ok", "err"):
            r = self.c_kept(o, cs, n, [p for p in self.sc.ops if not p.byval and not p.mut])
            if r is False:
                return False
            vs = self.visible(o, c)
            if vs is None:
                return None
            rids = [view(o.st, v).rid for v in vs]
            rids = [x for x in rids if x is not None]
            if len(rids) != len(set(rids)):
                return False
            return r
        return True if c[0] == "panic" else None

    # ------------------------------------------------------------ writes through shared references
    def a_frozen(self, o):
        return self.cls(o)[0] != "?" and not any(e[0] == "write-shared" for e in o.st.ev) and not [t for t in o.st.taint if not t.startswith("~")]

    def c_frozen(self, o, cs, n):
        return not any(e[0] == "write-shared" for e in o.st.ev)

    # ------------------------------------------------------------ allocation
    def a_alloc(self, o):
        c = self.cls(o)
        if c[0] == "ok":
            return not any(e[0] == "alloc" for e in o.st.ev) and not [t for t in o.st.taint if not t.startswith("~")]
        return c[0] != "?"

    def c_alloc(self, o, cs, n):
        c = self.cls(o)
        if c[0] == "ok":
            return not any(e[0] == "alloc" for e in o.st.ev)
        return True if c[0] != "?" else None

    # ------------------------------------------------------------ panics
    def a_panic(self, o):
        c = self.cls(o)
        if c[0] == "panic":
            if self.op.group == "count" and count.impossible(o.st, self.i.x):
                return True
            return self.fn.panics and any(x.cond.prove(o.st, True) for x in self.errs)
        return c[0] != "?"

    def c_panic(self, o, cs, n):
        c = self.cls(o)
        if c[0] == "panic":
            return bool(self.fn.panics and any(x.cond.conc(n) for x in self.errs))
        return True if c[0] != "?" else None

    # ------------------------------------------------------------ results
    def a_bits(self, o):
        c = self.cls(o)
        if c[0] in ("err", "panic"):
            return True
        if c[0] == "?":
            return False
        if self.op.group == "random":
            return self.a_rand(o, c)
        if self.op.res != "ap":
            return self.a_ret(o, c)
        if self.op.bit is None:
            return self.a_num(o, c)
        for nm, v, w in self.slots(o, c):
            if v is None:
                return False
            x = view(o.st, v)
            if not x.ok:
                return False
            if not self.bits_are(o.st, x.segs, w, lambda d, q, r: self.op.bit(d, self.i, q, r)):
                return False
        return True

    def bits_are(self, st, segs, w, f):
        q = la(new_atom("bq", 0, None))
        r = la(new_atom("br", 0, 63))
        s = st.copy()
        s.add_lin(w.n - 1 - q)
        s.add_lin(w.w - 1 - (q.scale(64) + r))

        def go(d):
            t = seg_read(d, segs, q)
            if t is None:
                return False
            return f_equal(d, bit(d, t, r), f(d, q, r))
        return forall(s, go)

    def a_num(self, o, c):
        """arithmetic: the result is the named operation applied to the operands"""
        if self.op.name == "abs":
            for nm, v, w in self.slots(o, c):
                x = view(o.st, v) if v is not None else None
                if x is None or not x.ok:
                    return False

                def go(e):
                    a = sign(e, self.i.x)
                    if not (a is True or a is False):
                        return False
                    if a:
                        return api.desc(e, x) is api.Name("neg", (self.i.x.name,))
                    return self.bits_are(e, x.segs, w, lambda d, q, r: ob(d, self.i.x, q, r))
                if not forall(o.st, go):
                    return False
            return True
        if self.op.name not in api.CON:
            return False
        st = o.st
        i = self.i
        want = dict(api.CON[self.op.name][1])
        for nm, v, w in self.slots(o, c):
            x = view(st, v) if v is not None else None
            if x is None or not x.ok:
                return False
            res = want["x" if nm == "ret" else nm]
            ops = (i.x.name,) if i.y is None else (i.x.name, i.y.name)
            if self.owner():
                if not self.derived(st, x, res, w):
                    return False
            else:
                d = api.desc(st, x)
                if d is not api.Name(res, ops) and not self.derived(st, x, res, w):
                    return False
        return True

    def owner(self):
        return self.fn.ty == "ApInt" and self.fn.trait == "-" and not self.fn.name.startswith("into_")

    def derived(self, st, x, res, w):
        """the result res expressed through the other operations"""
        i = self.i
        d = api.desc(st, x)
        N = api.Name
        if res == "neg":
            if not isinstance(d, api.Name) or d.res != "inc":
                return False
            a = d.args[0]
            return isinstance(a, tuple) and self.bits_are(st, a[1:], w, lambda e, q, r: f_not(ob(e, i.x, q, r)))
        if res in ("add", "sub", "inc", "dec"):
            A = lambda k: dig(i.x.name, k)
            B = {"add": lambda k: dig(i.y.name, k), "sub": lambda k: mk_not(dig(i.y.name, k), 64),
                 "inc": lambda k: tc(0, 64), "dec": lambda k: tc(ones(64), 64)}[res]
            return carry.is_sum(st, x.segs, w, A, B, 1 if res in ("sub", "inc") else 0)
        if res in ("sq", "sr"):
            def go(e):
                a, b = sign(e, i.x), sign(e, i.y)
                if not (a is True or a is False) or not (b is True or b is False):
                    return False
                u = N("uq" if res == "sq" else "ur", (N("neg", (i.x.name,)) if a else i.x.name, N("neg", (i.y.name,)) if b else i.y.name))
                if (a != b) if res == "sq" else a:
                    u = N("neg", (u,))
                return d is u
            return forall(st, go)
        return False

    def c_bits(self, o, cs, n):
        c = self.cls(o)
        if c[0] in ("err", "panic"):
            return True
        if self.op.group == "random":
            return self.c_rand(o, c)
        if c[0] == "?" or (self.op.num is None and self.op.group != "hash"):
            return None
        if any(e.cond.conc(n) for e in self.errs):
            return None
        if self.op.res != "ap":
            return self.c_ret(o, c, cs, n)
        r = True
        nums = self.op.num if isinstance(self.op.num, tuple) else None
        for k, (nm, v, w) in enumerate(self.slots(o, c)):
            g = self.number(cs, n.e.V(v)) if v is not None else None
            if g is None:
                r = None
                continue
            want = nums[k](n) if nums else self.op.num(n)
            if g[1] & M(n.e.L(w.w)) != want:
                return False
        return r

    # -- random values: digit k is word k of one generator, the given one where there is one
    def a_rand(self, o, c):
        for nm, v, w in self.slots(o, c):
            x = view(o.st, v) if v is not None else None
            if x is None or not x.ok:
                return False
            g = {g for s in x.segs for g in re.findall(r"((?:given|gown)[^\[]*)\[", str(s[2]))}
            if len(g) != 1:
                return False
            g = g.pop()
            if g.startswith("given") != self.fn.name.endswith("_using"):
                return False
            if not self.bits_are(o.st, x.segs, w, lambda d, q, r: bit(d, dig(g, q), r)):
                return False
        return True

    def c_rand(self, o, c):
        """fixed width: False if a digit takes nothing from the generator, shares its only word with
        another digit, or a given generator is passed over"""
        for nm, v, w in self.slots(o, c):
            x = view(o.st, v) if v is not None else None
            if x is None or not x.ok or not all(a.is_const() and b.is_const() for a, b, _ in x.segs):
                return None
            if sum(b.c - a.c for a, b, _ in x.segs) != -(-w.w.c // 64):
                return None
            seen = set()
            for a, b, t in x.segs:
                for k in range(a.c, b.c):
                    u = re.findall(r"(given|gown)([^\[]*)\[([^\]]*)\]", str(t))
                    ws = set()
                    for kind, n, i in u:
                        if kind == "gown" and self.fn.name.endswith("_using"):
                            return False
                        m = re.fullmatch(r"#([+-]\d+)?", i)
                        if not m and not re.fullmatch(r"\d+", i):
                            return None
                        ws.add((kind, n, k + int(m.group(1) or 0) if m else int(i)))
                    if not ws:
                        return None if "unk(" in str(t) else False
                    if len(ws) == 1 and ws <= seen:
                        return False
                    seen |= ws
        return True

    # -- hashing: what the hasher is fed
    def feeds(self, st):
        for k, v in st.env.items():
            if k[0] == 0 and isinstance(v, tuple) and v and v[0] == "HS":
                return v[1]
        return None

    def a_hash(self, st):
        f = self.feeds(st)
        if f is None or [t for t in st.taint if not t.startswith("~")]:
            return False
        x = self.i.x
        w = d = False
        for it in f:
            if it[0] == "int" and isinstance(it[1], Lin) and entails_eq(st.cons, it[1], x.width.w):
                w = True
            elif it[0] == "slice" and entails_eq(st.cons, it[1], x.width.n) and len(it[2]) == 1 and it[2][0][2].op == "dig" \
                    and it[2][0][2].a[0] == x.name and (it[2][0][2].a[1] is HASH or (x.rid is None and it[2][0][2].a[1] is ZERO)):
                d = True
            else:
                return False
        return w and d

    def c_hash(self, st, n):
        """fixed width: False if some digit (or the width) is certainly not fed, or an address is"""
        f = self.feeds(st)
        if f is None or any(self.i.x.name in str(g) for g in st.facts):
            return None
        nm = re.escape(self.i.x.name)
        got, w = set(), False
        for it in f:
            if it[0] == "int" and isinstance(it[1], Lin) and it[1].is_const():
                w = w or it[1].c == n.wx
            elif it[0] == "int" and isinstance(it[1], Lin):
                got |= {int(k) for k in re.findall(nm + r"\[(\d+)\]", str(it[1]))}
                if "#" in str(it[1]):
                    return None
            elif it[0] == "int" and isinstance(it[1], tuple) and it[1] and it[1][0] == "R":
                return False
            elif it[0] == "addr":
                return False
            elif it[0] == "slice":
                for lo, hi, t in it[2]:
                    if not (lo.is_const() and hi.is_const()):
                        return None
                    for k in re.findall(nm + r"\[([^\]]*)\]", str(t)):
                        if k.isdigit():
                            got.add(int(k))
                        elif re.fullmatch(r"#([+-]\d+)?", k):
                            got |= {j + int(k[1:] or 0) for j in range(lo.c, hi.c)}
                        else:
                            return None
            else:
                return None
        return w and got >= set(range((n.wx + 63) // 64))

    # -- scalar results
    def a_ret(self, o, c):
        st, v = o.st, c[1]
        r = self.op.res
        if self.op.group == "hash":
            return self.a_hash(st)
        if r == ("w",):
            x = self.scalar(v)
            return x is not None and entails_eq(st.cons, x, self.i.x.width.w)
        if r == "bool" or (isinstance(r, tuple) and r == ("int", 1)):
            out = True
            for b in (True, False):
                for s in st.assume(v, b):
                    if self.op.bit is not None:
                        f = (lambda d: self.op.bit(d, self.i)) if r == "bool" else (lambda d: self.op.bit(d, self.i, ZERO))
                        if not forall(s, lambda d: f_equal(d, f(d), b)):
                            return False
                    elif not self.pred(s, b):
                        return False
            return out
        if isinstance(r, tuple) and r[0] == "int":
            if not isinstance(v, Lin):
                return False
            if self.op.name == "signum":
                if not v.is_const():
                    return False
                z = Zero(self.i.x)
                if v.c == 0:
                    return z.prove(st, True)
                s = forall(st, lambda d: f_equal(d, sign(d, self.i.x), v.c == 255))
                return s and v.c in (1, 255) and (v.c == 255 or z.prove(st, False))
            if self.op.group == "count":
                return count.is_count(st, self.i.x, self.op.name, v)
            if self.op.bit is None:
                return False
            k = r[1]
            t = as_term(v, k)
            p = la(new_atom("bp", 0, k - 1))
            return forall(st, lambda d: f_equal(d, bit(d, t, p), self.op.bit(d, self.i, p)))
        if r == "ord":
            if not isinstance(v, tuple) or v[0] != "S":
                return False
            same = st.truth(("eq0", self.i.x.width.w - self.i.y.width.w))
            if v[1] == 0:
                return same is False
            if same is not True:
                return False
            return self.order(st, self.op.name[1] == "s") == {"<=>".__getitem__(v[2][0][1])}
        return False

    def pred(self, s, b):
        """is predicate / comparison result b right in every point of s?"""
        i = self.i
        nm = self.op.name
        if nm == "is_zero":
            return Zero(i.x).prove(s, b)
        if nm in ("is_one", "is_all_set", "is_one_int"):
            w = i.x.width
            one = nm != "is_all_set"
            if nm == "is_one_int":
                if b and not entails(s.cons, w.w - 2):
                    return False
                if not b:
                    if entails(s.cons, lc(1) - w.w):
                        return True
                    s = s.assume_lin(w.w - 2)
            if b:
                q = la(new_atom("pq", 0, None))
                r = la(new_atom("pr", 0, 63))
                d = s.copy()
                d.add_lin(w.n - 1 - q)
                d.add_lin(w.w - 1 - q.scale(64) - r)
                return forall(d, lambda c: f_equal(c, ob(c, i.x, q, r), (c.decide_eq(q, ZERO) and c.decide_eq(r, ZERO)) if one else True))
            if one:
                sts = redefine(s, i.x.name, tc(1, 64), ZERO, ONE)
                if not entails_eq(s.cons, w.n, ONE):
                    sts = [y for x in sts for y in redefine(x, i.x.name, tc(0, 64), ONE, w.n)]
                return not sts
            top = mk_shr(tc(M(64), 64), lc(64) - w.eb, 64)
            sts = redefine(s, i.x.name, top, w.n - 1, w.n)
            if not entails_eq(s.cons, w.n, ONE):
                sts = [y for x in sts for y in redefine(x, i.x.name, tc(M(64), 64), ZERO, w.n - 1)]
            return not sts
        if nm == "eq":
            same = s.truth(("eq0", i.x.width.w - i.y.width.w))
            if b:
                return same is True and "=" in self.order(s, False) and len(self.order(s, False)) == 1
            if same is False:
                return True
            if same is None:
                return False
            return not redefine(s, i.y.name, dig(i.x.name, HASH))
        m = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}.get(nm[-2:])
        if m:
            if nm[0] == "p":
                same = s.truth(("eq0", i.x.width.w - i.y.width.w))
                if same is False:
                    return b is False
                if same is None:
                    return False
            o = self.order(s, nm[:-2][-1] == "s")
            return o <= set(m) if b else not (o & set(m))
        return False

    def order(self, s, sgn):
        """the possible orderings of the operands (of equal width) in s: subset of {<,=,>}"""
        x, y = self.i.x, self.i.y
        out = set()

        def top(c):
            a, b = sign(c, x), sign(c, y)
            return a, b

        def go(c):
            if sgn:
                a, b = sign(c, x), sign(c, y)
                if a is True and b is False:
                    out.add("<")
                    return True
                if a is False and b is True:
                    out.add(">")
                    return True
                if not f_equal(c, a, b):
                    out.update("<=>")
                    return True
            out.update(self.uorder(c))
            return True
        forall(s, go)
        return out

    def uorder(self, c):
        x, y = self.i.x, self.i.y
        n = x.width.n
        ks = []
        for f in c.facts:
            g = f[1] if f[0] == "not" else f
            if g[0] in ("tlt", "teq"):
                for t in g[1:3]:
                    if isinstance(t, T) and t.op == "dig" and t.a[0] in (x.name, y.name) and t.a[1] not in ks:
                        ks.append(t.a[1])
        for o in (x.name, y.name):
            for lo, hi, u in c.org.get(o, ()):
                if not (u.op == "dig" and u.a[0] == o):
                    if entails_eq(c.cons, hi - lo, ONE) and lo not in ks:
                        ks.append(lo)
        if n is ONE and ZERO not in ks:
            ks.append(ZERO)

        def above(k):
            q = la(new_atom("oq", 0, None))
            d = c.copy()
            d.add_lin(q - k - 1)
            d.add_lin(n - 1 - q)
            return forall(d, lambda e: term_equal(e, dig(x.name, q), dig(y.name, q)))
        best = set("<=>")
        for k in ks:
            if not (entails(c.cons, k) and entails(c.cons, n - 1 - k)):
                continue
            if not above(k):
                continue
            lt = c.truth(("tlt", dig(x.name, k), dig(y.name, k)))
            gt = c.truth(("tlt", dig(y.name, k), dig(x.name, k)))
            if lt is True:
                return {"<"}
            if gt is True:
                return {">"}
            ne = c.truth(("teq", dig(x.name, k), dig(y.name, k))) is False
            low = entails_eq(c.cons, k, ZERO)
            r = set("<=>")
            if lt is False and (ne or low):
                r.discard("<")
            if gt is False and (ne or low):
                r.discard(">")
            if ne:
                r.discard("=")
            best &= r
        q = la(new_atom("oq", 0, None))
        d = c.copy()
        d.add_lin(n - 1 - q)
        if forall(d, lambda e: term_equal(e, dig(x.name, q), dig(y.name, q))):
            return {"="}
        return best

    def c_ret(self, o, c, cs, n):
        if self.op.group == "hash":
            return self.c_hash(o.st, n)
        v = n.e.V(c[1])
        want = self.op.num(n)
        r = self.op.res
        if r == "ord":
            if not isinstance(v, tuple) or v[0] != "S":
                return None
            got = None if v[1] == 0 else (-1, 0, 1)[v[2][0][1]] if isinstance(v[2][0], tuple) and v[2][0][0] == "S" else "?"
            return None if got == "?" else got == want
        if r == ("w",):
            v = self.scalar(v)
        if isinstance(v, bool):
            return v == bool(want) if r in ("bool", ("int", 1)) else None
        if isinstance(v, Lin) and v.is_const():
            return v.c == want
        return None
