"""Fixpoints over weak topological orders.

Loops: iteration 0 and 1 are analysed exactly; the two states reached at the
loop head are generalised in a fresh iteration counter (values that move by a
constant become linear in the counter, array contents become segments whose
borders are linear in the counter); the candidate is kept only if the body maps
it into itself, and every component for which this fails is widened (to an
unknown value / unknown array / dropped constraint) until it is inductive.
"""
import os, re
from lin import Lin, ATOMS, new_atom, la, lc, entails, entails_eq, ZERO, ONE
from terms import T, NeedSplit, as_term, unk, subst_any, subst_t, subst_lin, REC, has_op, free_atoms
from state import (State, Region, HASH, HID, dig, arr, fresh_id, ORG, antiunify, contents_equal, seg_at, seg_norm, seg_read)
from prog import flatten, succs

CAP = int(os.environ.get("APV_CAP", "64"))
ROUNDS = 24
DEBUG = os.environ.get("APV_DEBUG_LOOPS")


class Budget(Exception):
    pass


class LoopLimit(Budget):
    pass


# ------------------------------------------------------------------ liveness
def _uses(o, out):
    if isinstance(o, dict):
        if o.get("o") in ("copy", "move"):
            _place_use(o["p"], out)
        elif o.get("o") == "const":
            return
        else:
            for k, v in o.items():
                if isinstance(v, (dict, list)):
                    _uses(v, out)
    elif isinstance(o, list):
        for v in o:
            _uses(v, out)


def _place_use(p, out):
    out.add(p[0])
    for x in p[1]:
        if isinstance(x, list) and x[0] == "i":
            out.add(x[1])


def liveness(fn):
    r = getattr(fn, "inloop", None) if hasattr(fn, "inloop") else None
    if r is not None:
        return r
    n = len(fn.blocks)
    addr = set()
    gens, kills = [], []
    for b in fn.blocks:
        gen, kill = set(), set()

        def use(x):
            if x not in kill:
                gen.add(x)

        for s in b["s"]:
            u = set()
            if s[0] == "=":
                rv = s[2]
                if rv["r"] == "ref":
                    if "*" not in rv["p"][1]:
                        addr.add(rv["p"][0])
                    _place_use(rv["p"], u)
                elif rv["r"] == "discr":
                    _place_use(rv["p"], u)
                else:
                    _uses(rv, u)
                if s[1][1]:
                    _place_use(s[1], u)
                for x in u:
                    use(x)
                if not s[1][1]:
                    kill.add(s[1][0])
                continue
            if s[0] == "dead":
                kill.add(s[1])
                continue
            if s[0] == "sd":
                _place_use(s[1], u)
            else:
                _uses(s[1:], u)
            for x in u:
                use(x)
        t = b["t"]
        u = set()
        if t["t"] == "call":
            _uses(t["f"], u)
            _uses(t["args"], u)
            if t["dest"][1]:
                _place_use(t["dest"], u)
            for x in u:
                use(x)
            if not t["dest"][1]:
                kill.add(t["dest"][0])
        elif t["t"] == "drop":
            _place_use(t["p"], u)
        elif t["t"] in ("switch", "assert"):
            _uses(t["a"], u)
        elif t["t"] == "ret":
            u.add(0)
        for x in u:
            use(x)
        gens.append(gen)
        kills.append(kill)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succs(fn.blocks[i]["t"]):
                o |= live[s]
            v = gens[i] | (o - kills[i])
            if v != live[i]:
                live[i] = v
                ch = True
    preds = [0] * n
    for b in fn.blocks:
        for s in succs(b["t"]):
            preds[s] += 1
    r = (live, addr, preds)
    fn.inloop = r
    return r


def prune(fn, fid, bb, st):
    if fn.blocks[0]["t"]["t"] == "py":
        return
    live, addr, _ = liveness(fn)
    lv = live[bb]
    dead = [k for k in st.env if k[0] == fid and isinstance(k[1], int) and k[1] not in lv and k[1] not in addr]
    for k in dead:
        del st.env[k]


# ------------------------------------------------------------------ elements
def run_elements(I, fn, fid, els, inbox, head=None):
    inside = flatten(els, set())
    inside.discard(head) if head is not None else None
    outs = []
    for e in els:
        comp = isinstance(e, tuple)
        h = e[0] if comp else e
        sts = inbox.pop(h, None)
        if not sts:
            continue
        if len(sts) > 1 or comp:
            for s in sts:
                prune(fn, fid, h, s)
        if len(sts) > 1:
            sts = reduce_states(I, sts)
        if comp:
            res = []
            for s in sts:
                res += solve_loop(I, fn, fid, e, s)
        else:
            res = []
            for s in sts:
                res += I.run_block(fn, fid, h, s)
        for tgt, s in res:
            if not s.feasible():
                continue
            if tgt != "ret" and tgt in inside:
                inbox.setdefault(tgt, []).append(s)
            else:
                outs.append((tgt, s))
    return outs


# ------------------------------------------------------------------ exact merging
def heap_key(r):
    return (r.elem, r.len, r.segs, r.status, r.kind, r.w, r.cap)


def state_key(s):
    return (frozenset(s.env.items()), frozenset((k, heap_key(r)) for k, r in s.heap.items()),
            frozenset(s.org.items()), s.ev, s.taint)


def reduce_states(I, sts, vals=None):
    """merge states that differ only in complementary assumptions"""
    items = [(s, None if vals is None else vals[i]) for i, s in enumerate(sts)]
    groups = {}
    for s, v in items:
        groups.setdefault((state_key(s), v), []).append(s)
    out = []
    for (k, v), g in groups.items():
        if len(g) > 1:
            g = merge_group(g)
        for s in g:
            out.append((s, v))
    if len(out) > CAP:
        out = lossy(I, out)
    if vals is None:
        return [s for s, _ in out]
    return out


def neg_fact(f):
    return f[1] if f[0] == "not" else ("not", f) if f[0] != "bit" else ("bit", f[1], f[2], not f[3])


def merge_group(g):
    g = list(g)
    ch = True
    while ch and len(g) > 1:
        ch = False
        for i in range(len(g)):
            for j in range(i + 1, len(g)):
                m = merge_two(g[i], g[j])
                if m is not None:
                    g[i] = m
                    del g[j]
                    ch = True
                    break
            if ch:
                break
    return g


def merge_two(a, b):
    if a.facts == b.facts:
        if a.cons <= b.cons:
            return a
        if b.cons <= a.cons:
            return b
        da, db = a.cons - b.cons, b.cons - a.cons
        if len(da) == 1 and len(db) == 1:
            x, y = next(iter(da)), next(iter(db))
            if (x + y).is_const() and (x + y).c >= -1:
                s = a.copy()
                s.cons = a.cons & b.cons
                s._feas = None
                return s
        # one implies the other
        if len(da) <= 3 and len(db) <= 3:
            if all(entails(b.cons, x) for x in da):
                return a
            if all(entails(a.cons, x) for x in db):
                return b
            # a / b split on one constraint up to consequences
            for x in da:
                if entails(b.cons, -x - 1):
                    base = a.cons - {x}
                    if all(entails(b.cons, y) for y in base) and all(entails(base | {-x - 1}, y) for y in db):
                        s = a.copy()
                        s.cons = base
                        s._feas = None
                        return s
        return None
    da, db = a.facts - b.facts, b.facts - a.facts
    if not da and all(entails(b.cons, x) for x in a.cons - b.cons):
        return a
    if not db and all(entails(a.cons, x) for x in b.cons - a.cons):
        return b
    if len(da) == 1 and len(db) == 1:
        x, y = next(iter(da)), next(iter(db))
        if neg_fact(x) == y or neg_fact(y) == x:
            if a.cons == b.cons or (side_only(a.cons - b.cons, x, a.cons & b.cons) and side_only(b.cons - a.cons, y, a.cons & b.cons)):
                s = a.copy()
                s.facts = a.facts & b.facts
                s.cons = a.cons & b.cons
                s._feas = None
                return s
    return None


EXACT = False       # merge only where nothing is lost (set while a bounded instance is analysed)


def consequence(f):
    """the linear constraint that a comparison of words stands for"""
    neg = f[0] == "not"
    g = f[1] if neg else f
    if g[0] != "tlt" or not all(isinstance(x, T) for x in g[1:3]):
        return None
    a, b = g[1].lin(), g[2].lin()
    return a - b if neg else b - a - 1


def side_only(cs, f, base=()):
    """constraints that are mere consequences of the word fact f"""
    if EXACT:
        if not cs:
            return True
        c = consequence(f)
        return c is not None and all(entails(frozenset(base) | {c}, x) for x in cs)
    ids = set()

    def coll(x):
        if isinstance(x, T):
            if x._atom is not None:
                ids.add(x._atom.id)
        elif isinstance(x, tuple):
            for y in x:
                coll(y)

    coll(f)
    return all(all(a in ids for a, _ in c.t) for c in cs)


def merge_results(I, res):
    return reduce_states(I, [s for s, _ in res], [v for _, v in res])


def lossy(I, items):
    by = {}
    for s, v in items:
        s2 = s
        if v is not None:
            s2.env[("ret", 0)] = v
        by.setdefault(shape(s2), []).append(s2)
    out = []
    for k, g in by.items():
        h = g[0]
        if len(g) > 1 and len(items) > CAP:
            for b in g[1:]:
                h = join(I, h, b)
        else:
            for s in g[1:]:
                out.append((s, s.env.pop(("ret", 0), None)))
        out.append((h, h.env.pop(("ret", 0), None)))
    return out


# ------------------------------------------------------------------ shapes
def vshape(v):
    if isinstance(v, Lin):
        return "L"
    if v is True or v is False:
        return v
    if isinstance(v, T):
        return "T"
    if isinstance(v, tuple):
        t = v[0] if v else None
        if t in CONDS:
            return "b"
        if t == "TOP" or t == "UNDEF":
            return "?"
        if t == "S":
            return (t, v[1], tuple(vshape(x) for x in v[2]))
        return tuple(vshape(x) for x in v)
    return v


CONDS = ("ge", "eq0", "teq", "tlt", "bit", "not", "and", "or", "xor", "ub")


def shape(s):
    return (frozenset((k, vshape(v)) for k, v in s.env.items()),
            frozenset((k, r.status, r.kind, r.elem) for k, r in s.heap.items()))


# ------------------------------------------------------------------ generalisation
def is_cond(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in CONDS)


def width_of(*vs):
    w = 0
    for v in vs:
        a = v.atom() if isinstance(v, Lin) else None
        if a is not None and a.term is not None:
            w = max(w, a.term.w)
    return w


def fresh_lin(I, pv, v1, v2):
    lin = I.linear(v1) and I.linear(v2)
    w = width_of(v1, v2) or 64
    for v in (v1, v2):
        if v.is_const() and v.c.bit_length() > w:
            w = 128
    if lin:
        t = T("top", ((fresh_id(), "loop"),), w)
    else:
        t = unk(w, "loop")
    l = t.lin()
    pv.add(l.t[0][0])
    return l


class Gen:
    def __init__(self, I, B1, B2, K):
        self.I, self.B1, self.B2, self.K = I, B1, B2, K
        self.pv = set()      # atom ids of pattern variables
        self.pid = set()     # ids of ub / TOP / arr pattern variables
        self.pairs = {}

    def val(self, a, b):
        if a is b or a == b:
            return a
        if isinstance(a, Lin) and isinstance(b, Lin):
            r = antiunify(a, b, ONE, ONE, self.K)
            if r is not None:
                return r
            if self.B2.eq(a, b):
                return a
            if (a, b) in self.pairs:
                return self.pairs[(a, b)]
            r = self.rec(a, b)
            if r is None:
                r = fresh_lin(self.I, self.pv, a, b)
            self.pairs[(a, b)] = r
            return r
        if is_cond(a) and is_cond(b):
            r = antiunify(a, b, ONE, ONE, self.K) if isinstance(a, tuple) and isinstance(b, tuple) else None
            if r is not None:
                return r
            i = fresh_id()
            self.pid.add(i)
            return ("ub", i)
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and len(a) == len(b):
            if a[0] == "S":
                if a[1] == b[1] and len(a[2]) == len(b[2]):
                    return ("S", a[1], tuple(self.val(x, y) for x, y in zip(a[2], b[2])))
            elif a[0] == "TOP" or a[0] == "UNDEF":
                pass
            else:
                try:
                    return tuple(self.raw(x, y) for x, y in zip(a, b))
                except Mismatch:
                    pass
        i = fresh_id()
        self.pid.add(i)
        return ("TOP", i)

    def rec(self, a, b):
        """a word carried from iteration to iteration: named by its recurrence"""
        lin = self.I.linear(a) and self.I.linear(b)
        if lin and not counts(b - a, set()):
            return None
        w = 64 if lin else width_of(a, b) or 64
        kid = self.K.t[0][0]
        t = as_term(a, w)
        if not closed(t, None) or t.w > 128:
            return None
        rid = fresh_id()
        REC[rid] = {"init": t, "step": None, "kid": kid, "lin": lin}
        return T("rec", (rid, self.K), w).lin()

    def raw(self, x, y):
        if x is y or x == y:
            return x
        if isinstance(x, (Lin, bool)):
            return self.val(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            if x and x[0] in ("S", "TOP", "UNDEF") or is_cond(x):
                return self.val(x, y)
            return tuple(self.raw(p, q) for p, q in zip(x, y))
        raise Mismatch()

    def arr(self, w):
        u = arr(w, "loop")
        self.pid.add(u.a[0])
        return u

    def segs(self, s1, s2, w, ln):
        """generalise two segment lists"""
        if s1 == s2:
            return s1
        if len(s1) == len(s2):
            out = []
            for (l1, h1, u1), (l2, h2, u2) in zip(s1, s2):
                lo = antiunify(l1, l2, ONE, ONE, self.K)
                hi = antiunify(h1, h2, ONE, ONE, self.K)
                if lo is None or hi is None:
                    out = None
                    break
                out.append((lo, hi, self.segterm(l1, h1, u1, l2, h2, u2, w)))
            if out is not None:
                return tuple(out)
        # common prefix and suffix, unknown in between
        n = min(len(s1), len(s2))
        p = 0
        while p < n and s1[p] == s2[p]:
            p += 1
        q = 0
        while q < n - p and s1[-1 - q] == s2[-1 - q]:
            q += 1
        m1, m2 = s1[p:len(s1) - q], s2[p:len(s2) - q]
        if m1 and m2:
            # leading / trailing segment whose inner border moves
            a1, a2 = m1[0][0], m2[0][0]
            b1, b2 = m1[-1][1], m2[-1][1]
            pre, post = [], []
            if len(m1) == 1 and len(m2) == 2 and m1[0][2] is m2[1][2] and b1 is b2 and a1 is a2 and (m2[1][0] - a1) is ONE:
                mid = antiunify(a1, m2[1][0], ONE, ONE, self.K)
                return tuple(s1[:p]) + ((a1, mid, self.arr(w)), (mid, b1, m1[0][2])) + tuple(s1[len(s1) - q:])
            if len(m1) > 1 and len(m2) > 1 and m1[-1][2] is m2[-1][2]:
                lo = antiunify(m1[-1][0], m2[-1][0], ONE, ONE, self.K)
                hi = antiunify(b1, b2, ONE, ONE, self.K)
                if lo is not None and hi is not None:
                    post = [(lo, hi, m1[-1][2])]
                    b1, b2 = m1[-1][0], m2[-1][0]
                    m1, m2 = m1[:-1], m2[:-1]
            if len(m1) > 1 and len(m2) > 1 and m1[0][2] is m2[0][2]:
                lo = antiunify(a1, a2, ONE, ONE, self.K)
                hi = antiunify(m1[0][1], m2[0][1], ONE, ONE, self.K)
                if lo is not None and hi is not None:
                    pre = [(lo, hi, m1[0][2])]
                    a1, a2 = m1[0][1], m2[0][1]
            lo = antiunify(a1, a2, ONE, ONE, self.K)
            hi = antiunify(b1, b2, ONE, ONE, self.K)
            if lo is not None and hi is not None:
                return tuple(s1[:p]) + tuple(pre) + ((lo, hi, self.arr(w)),) + tuple(post) + tuple(s1[len(s1) - q:])
        return ((ZERO, ln, self.arr(w)),)

    def segterm(self, l1, h1, u1, l2, h2, u2, w):
        if u1 is u2:
            return u1
        one1 = (h1 - l1) is ONE
        if one1 and seg_at(u2, l1) is u1:
            return u2
        r = antiunify(u1, u2, ONE, ONE, self.K)
        if r is not None:
            return r
        if one1:
            try:
                if self.B1.tsame(seg_at(u2, l1), u1):
                    return u2
            except NeedSplit:
                pass
        return self.arr(w)


class Mismatch(Exception):
    pass


def closed(t, kid):
    """described by the operands and the loop's own counter alone"""
    return not has_op(t, ("arr", "unk", "top")) and all(a == kid or not KNAME.match(str(ATOMS[a].name)) for a in free_atoms(t, set()))


KNAME = re.compile(r"k\d+$")


def generalise(I, B1, B2):
    ka = new_atom("k%d" % fresh_id(), 1, None)
    K = la(ka)
    g = Gen(I, B1, B2, K)
    H = State()
    for k, v in B1.env.items():
        if k in B2.env:
            H.env[k] = g.val(v, B2.env[k])
    for rid, r in B1.heap.items():
        r2 = B2.heap.get(rid)
        if r2 is None:
            continue
        if r2 is r or heap_key(r2) == heap_key(r):
            H.heap[rid] = r
            continue
        ln = g.val(r.len, r2.len)
        segs = g.segs(r.segs, r2.segs, r.w, ln)
        H.heap[rid] = r.with_(len=ln, segs=segs, cap=r.cap if r.cap is r2.cap else None)
    for o in set(B1.org) | set(B2.org):
        s1 = B1.org.get(o)
        s2 = B2.org.get(o)
        if s1 == s2:
            H.org[o] = s1
            continue
        triv = ((ZERO, ORG[o][0], dig(o, HASH)),)
        s1 = s1 or triv
        s2 = s2 or triv
        r = gen_org(g, o, s1, s2)
        if r is not None:
            H.org[o] = r
    cons = set()
    extra = []
    for c in B1.cons:
        if c in B2.cons or entails(B2.cons, c):
            cons.add(c)
    for c2 in B2.cons:
        if c2 in cons:
            continue
        weak = entails(B1.cons, c2)
        if weak:
            cons.add(c2)
        elif entails(B1.cons, c2 + 1):
            cons.add(c2 + 1 - (K - 1))
            continue
        for c1 in B1.cons:
            d = c2 - c1
            if d.is_const() and d.c != 0:
                if not weak or d.c == -1:
                    cons.add(c1 + (K - 1).scale(d.c))
            elif not d.is_const() and not weak:
                u = antiunify(c1, c2, ONE, ONE, K)
                if u is not None:
                    cons.add(u)
    def lens(v):
        if isinstance(v, tuple):
            if len(v) == 5 and v[0] == "SL" and isinstance(v[4], Lin):
                if any(a == ka.id for a, _ in v[4].t):
                    cons.add(v[4])
            for x in v:
                lens(x)

    for v in H.env.values():
        lens(v)
    H.cons = frozenset(cons)
    H.facts = B1.facts & B2.facts
    H.ev = B1.ev | B2.ev
    H.taint = B1.taint | B2.taint
    H._feas = None
    return H, ka.id, g.pv, g.pid


def gen_org(g, o, s1, s2):
    sub = Gen(g.I, g.B1, g.B2, g.K)
    r = sub.segs(s1, s2, 64, ORG[o][0])
    # an unknown array is not a refinement: forget instead
    out = []
    for lo, hi, u in r:
        if u.op == "arr" and u.a[0] in sub.pid:
            u = dig(o, HASH)
        out.append((lo, hi, u))
    return tuple(out)


# ------------------------------------------------------------------ matching / weakening
class Match:
    def __init__(self, I, H, B, kid, pv, pid):
        self.I, self.H, self.B = I, H, B
        self.kid = kid
        self.pv, self.pid = pv, pid
        self.m = {}
        self.changed = []
        self.kp = None
        self.trial = False

    def sub(self, x):
        return subst_any(x, self.m) if self.m else x

    # -------- the value of the counter in B
    def find_k(self):
        if self.kid is None:
            return
        cands = []

        def go(a, b, d=0):
            if isinstance(a, Lin):
                if isinstance(b, Lin):
                    for at, c in a.t:
                        if at == self.kid:
                            r = b - (a - la(ATOMS[at]).scale(c))
                            if r.c % c == 0 and all(x % c == 0 for _, x in r.t):
                                v = Lin(r.c // c, tuple((q, x // c) for q, x in r.t))
                                if not any(q in self.pv for q, _ in (a - la(ATOMS[at]).scale(c)).t):
                                    cands.append(v)
                            return
                return
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for x, y in zip(a, b):
                    go(x, y, d + 1)

        for k, v in self.H.env.items():
            if k in self.B.env:
                go(v, self.B.env[k])
        for k, r in self.H.heap.items():
            r2 = self.B.heap.get(k)
            if r2 is not None:
                go(r.len, r2.len)
        if not cands:
            # borders of segments
            for k, r in self.H.heap.items():
                r2 = self.B.heap.get(k)
                if r2 is not None and len(r2.segs) == len(r.segs):
                    for (l, h, _), (l2, h2, _) in zip(r.segs, r2.segs):
                        go(h, h2)
            for o, s in self.H.org.items():
                s2 = self.B.org.get(o)
                if s2 is not None and len(s2) == len(s):
                    for (l, h, _), (l2, h2, _) in zip(s, s2):
                        go(h, h2)
        K = la(ATOMS[self.kid])
        nxt = K + 1
        kp = nxt if (nxt in cands or not cands) else cands[0]
        self.kp = kp
        self.m[self.kid] = kp

    def chg(self, what):
        self.changed.append(what)

    def val(self, h, b, where):
        if isinstance(h, Lin):
            if not isinstance(b, Lin):
                self.chg(where)
                i = fresh_id()
                self.pid.add(i)
                return ("TOP", i)
            at = h.atom()
            if at is not None and at.id in self.pv:
                o = self.m.get(at.id)
                if o is None:
                    self.m[at.id] = b
                    return h
                if o is b or self.B.eq(o, b):
                    return h
                self.chg(where)
                return fresh_lin(self.I, self.pv, h, b)
            hs = self.sub(h)
            if hs is b or self.B.eq(hs, b):
                return h
            x, y = hs.atom(), b.atom()
            if at is not None and at.term is not None and at.term.op == "rec" and self.kid is not None \
                    and REC[at.term.a[0]]["kid"] == self.kid and self.kp is not None:
                d = REC[at.term.a[0]]
                bt = as_term(b, at.term.w)
                if self.kp is la(ATOMS[self.kid]) + 1 and at.term.a[1] is la(ATOMS[self.kid]):
                    if d["step"] is None and closed(bt, self.kid):
                        d["step"] = bt
                        return h
                    if d["step"] is not None and (d["step"] is bt or self.B.tsame(d["step"], bt)):
                        return h
            if x is not None and y is not None and x.term is not None and y.term is not None:
                if self.B.tsame(x.term, y.term):
                    return h
            self.chg(where)
            return fresh_lin(self.I, self.pv, h, b)
        if is_cond(h):
            if isinstance(h, tuple) and h[0] == "ub" and h[1] in self.pid:
                return h
            hs = self.sub(h)
            if hs == b:
                return h
            if is_cond(b):
                x, y = self.B.truth(hs), self.B.truth(b)
                if x is not None and x == y:
                    return h
            self.chg(where)
            i = fresh_id()
            self.pid.add(i)
            return ("ub", i)
        if isinstance(h, tuple) and h:
            if h[0] == "TOP":
                if h[1] in self.pid or h == b:
                    return h
            elif h[0] == "UNDEF":
                return h
            elif h[0] == "S":
                if isinstance(b, tuple) and b and b[0] == "S" and b[1] == h[1] and len(b[2]) == len(h[2]):
                    return ("S", h[1], tuple(self.val(x, y, where) for x, y in zip(h[2], b[2])))
            elif isinstance(b, tuple) and len(b) == len(h) and b[0] == h[0]:
                try:
                    return tuple(self.raw(x, y, where) for x, y in zip(h, b))
                except Mismatch:
                    pass
        elif h == b:
            return h
        self.chg(where)
        i = fresh_id()
        self.pid.add(i)
        return ("TOP", i)

    def raw(self, x, y, where):
        if isinstance(x, (Lin, bool)) or isinstance(x, tuple) and x and (x[0] in ("S", "TOP", "UNDEF") or is_cond(x)):
            return self.val(x, y, where)
        if isinstance(x, tuple):
            if isinstance(y, tuple) and len(x) == len(y):
                return tuple(self.raw(p, q, where) for p, q in zip(x, y))
            raise Mismatch()
        if x == y:
            return x
        raise Mismatch()

    def newarr(self, w):
        u = arr(w, "loop")
        self.pid.add(u.a[0])
        return u

    def has_pid(self, u):
        if u.op == "arr":
            return u.a[0] in self.pid
        return False

    def region(self, h, b, rid):
        where = ("region", rid)
        ln = self.val(h.len, b.len, where)
        if not isinstance(ln, Lin):
            raise LoopLimit("len")
        out = []
        if ln is not h.len:
            return h.with_(len=ln, segs=((ZERO, ln, self.newarr(h.w)),), cap=None)
        cap = h.cap
        if cap is not None and cap is not b.cap:
            cap = None
        bad = False
        for lo, hi, u in h.segs:
            if self.has_pid(u):
                out.append((lo, hi, u))
                continue
            a, z = self.sub(lo), self.sub(hi)
            us = self.sub(u)
            try:
                ok = contents_equal(self.B, ((a, z, us),), b.segs, a, z)
            except NeedSplit:
                ok = False
            if ok:
                out.append((lo, hi, u))
            else:
                bad = True
                out.append((lo, hi, self.newarr(h.w)))
        if bad:
            self.chg(where)
            out = merge_arr(out, self.pid)
        # borders must be ordered in B
        prev = ZERO
        for lo, hi, u in out:
            if not self.B.ge(self.sub(hi) - self.sub(lo)):
                self.chg(where)
                return h.with_(segs=((ZERO, h.len, self.newarr(h.w)),), cap=cap)
        return h.with_(segs=tuple(out), cap=cap)

    def orgseg(self, o, hs, bs):
        triv = ((ZERO, ORG[o][0], dig(o, HASH)),)
        bs = bs or triv
        out = []
        bad = False
        for lo, hi, u in hs:
            if u.op == "dig" and u.a[0] == o and u.a[1] is HASH:
                out.append((lo, hi, u))
                continue
            a, z = self.sub(lo), self.sub(hi)
            try:
                ok = self.B.ge(z - a) and contents_equal(self.B, ((a, z, self.sub(u)),), bs, a, z)
            except NeedSplit:
                ok = False
            if ok:
                out.append((lo, hi, u))
            else:
                bad = True
                out.append((lo, hi, dig(o, HASH)))
        if bad:
            self.chg(("org", o))
        if all(u.op == "dig" and u.a[0] == o and u.a[1] is HASH for _, _, u in out):
            return None
        return seg_norm(None, out)

    def run(self):
        """weakened copy of H that covers B (self.changed empty: H already does)"""
        H, B = self.H, self.B
        self.find_k()
        R = State()
        R._feas = None
        for k, v in H.env.items():
            if k not in B.env:
                self.chg(("gone", k))
                continue
            R.env[k] = self.val(v, B.env[k], k)
        for rid, r in H.heap.items():
            b = B.heap.get(rid)
            if b is None:
                self.chg(("gone", rid))
                continue
            if b.status != r.status:
                raise LoopLimit("status")
            R.heap[rid] = self.region(r, b, rid)
        for o, s in H.org.items():
            r = self.orgseg(o, s, B.org.get(o))
            if r is not None:
                R.org[o] = r
        keep = set()
        for c in H.cons:
            cs = subst_lin(c, self.m) if self.m else c
            if not cs.t and cs.c >= 0 or entails(B.cons, cs):
                keep.add(c)
            else:
                self.chg(("cons", c))
        R.cons = frozenset(keep)
        fk = set()
        for f in H.facts:
            fs = self.sub(f)
            if fs in B.facts:
                fk.add(f)
            else:
                v = None
                if fs[0] == "bit":
                    try:
                        v = B.bit_fact(fs[1], fs[2])
                        v = v == fs[3] if v is not None else None
                    except NeedSplit:
                        v = None
                else:
                    v = B.truth(fs)
                if v is True:
                    fk.add(f)
                else:
                    self.chg(("fact", f))
        R.facts = frozenset(fk)
        R.ev = H.ev | B.ev
        R.taint = H.taint | B.taint
        if R.ev != H.ev or R.taint != H.taint:
            self.chg("ev")
        # facts about widened variables must not survive in a stronger form
        return R


def merge_arr(out, pid):
    r = []
    for lo, hi, u in out:
        if r and u.op == "arr" and r[-1][2].op == "arr" and u.a[0] in pid and r[-1][2].a[0] in pid:
            r[-1] = (r[-1][0], hi, r[-1][2])
        else:
            r.append((lo, hi, u))
    return r


def join(I, a, b):
    pv, pid = set(), set()
    m = Match(I, a, b, None, pv, pid)
    r = m.run()
    r.taint = r.taint | {"~join"}
    # constraints of widened variables hold for both by construction: recheck against a
    return r


# ------------------------------------------------------------------ loops
def body(I, fn, fid, comp, st):
    mark = len(I.panics)
    outs = run_elements(I, fn, fid, [comp[0]] + list(comp[1]), {comp[0]: [st.copy()]}, head=comp[0])
    pan = I.panics[mark:]
    del I.panics[mark:]
    backs, exits = [], []
    for t, s in outs:
        if t == comp[0]:
            prune(fn, fid, comp[0], s)
            gc(s)
            backs.append(tidy(s))
        else:
            exits.append((t, tidy(s)))
    if len(backs) > 1:
        backs = reduce_states(I, backs)
    return backs, exits, pan


COUNTS = ("clz", "ctz", "popcnt")


def counts(v, out):
    if isinstance(v, Lin):
        for a, _ in v.t:
            t = ATOMS[a].term
            if t is not None and t.op in COUNTS and t.a[0].op == "dig":
                out.add(a)
    elif isinstance(v, tuple):
        for x in v:
            counts(x, out)
    return out


def tidy(s):
    """bit counts of digits that are known by now"""
    at = set()
    for v in s.env.values():
        counts(v, at)
    m = {}
    for a in at:
        t = ATOMS[a].term
        try:
            r = s.resolve_dig(t.a[0])
        except NeedSplit:
            continue
        if r.op == "c":
            v, w = r.a[0], r.w
            n = bin(v).count("1") if t.op == "popcnt" else w - v.bit_length() if t.op == "clz" else (v & -v).bit_length() - 1 if v else w
            m[a] = lc(n)
    return subst_state(s, m) if m else s


def gc(s):
    """forget freed regions nobody refers to"""
    dead = [k for k, r in s.heap.items() if r.status == "freed"]
    if not dead:
        return
    used = set()

    def go(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] in ("h", "VEC", "BOX", "SV"):
                used.add(v[1])
            for x in v:
                go(x)

    for v in s.env.values():
        go(v)
    for k in dead:
        if k not in used:
            del s.heap[k]


UNROLL_MAX = 160
PEEL = 1


def triv(o, segs):
    return segs is None or all(u.op == "dig" and u.a[0] == o for _, _, u in segs)


def lost(H, pid, B=None):
    """array contents were generalised to an unknown array"""
    if B is not None:
        for o, segs in B.org.items():
            if not triv(o, segs) and triv(o, H.org.get(o)):
                return True
    for r in H.heap.values():
        for _, _, u in r.segs:
            if u.op == "arr" and u.a[0] in pid:
                return True
    return False


def it_len(it):
    """constant number of items an iterator can still yield, or None"""
    if not (isinstance(it, tuple) and it and it[0] == "IT"):
        return None
    k = it[1]
    if k in ("sl", "arr", "range", "vecinto"):
        d = it[-1] - it[-2] if isinstance(it[-1], Lin) and isinstance(it[-2], Lin) else None
        return d.c if d is not None and d.is_const() and d.c >= 0 else None
    if k in ("rev", "copied", "map", "enum"):
        return it_len(it[2])
    if k == "zip":
        l = [x for x in (it_len(it[2]), it_len(it[3])) if x is not None]
        return min(l) if l else None
    return None


SHORT = 40


def short_loop(st, fid):
    for (f, _), v in st.env.items():
        if isinstance(v, tuple) and v and v[0] == "IT":
            n = it_len(v)
            if n is not None and n <= SHORT:
                return True
    return False


def unroll_loop(I, fn, fid, comp, st, most=None, wide=None):
    """exact analysis of a loop whose trip count is bounded: one partition per iteration"""
    exits, pans = [], []
    cur = [st]
    n = 0
    while cur:
        n += 1
        if n > (most or UNROLL_MAX):
            raise LoopLimit("unroll")
        if wide and len(cur) > wide:
            raise LoopLimit("unroll")
        nxt = []
        for s in cur:
            gc(s)
            bk, ex, pn = body(I, fn, fid, comp, s)
            nxt += bk
            exits += ex
            pans += pn
        if len(nxt) > 1:
            nxt = reduce_states(I, nxt)
        cur = nxt
    I.panics += pans
    return exits


MAXPHASE = 6


def inductive(I, fn, fid, comp, H, kid, pv, pid, sh):
    """does the body map H (less some of its constraints) into itself, past one of its
    bounds, or to another shape?  returns that H, or None"""
    for rnd in range(5):
        if not H.feasible():
            return None
        H = H.copy()
        H.taint = H.taint | {"~loop"}
        bk, _, _ = body(I, fn, fid, comp, H)
        weak = None
        for b in bk:
            if shape(b) != sh:
                continue
            m = Match(I, H, b, kid, set(pv), set(pid))
            R = m.run()
            if not m.changed:
                continue
            if all(isinstance(c, tuple) and c[0] == "cons" for c in m.changed):
                drop = {c[1] for c in m.changed if not core(c[1], kid, m)}
                if drop:
                    R = H.copy()
                    R.cons = H.cons - drop
                    R._feas = None
                    weak = R
                    break
            if not phase_exit(m, H):
                return None
        if weak is None:
            return H
        H = weak
    return None


def sharpen(I, fn, fid, comp, H, kid, pv, pid, sh, firsts):
    """replace unknown array parts of H by what one more iteration writes there"""
    bk, _, _ = body(I, fn, fid, comp, H)
    bk = [b for b in bk if shape(b) == sh]
    K = la(ATOMS[kid])
    if len(bk) != 1:
        return None
    b = bk[0]
    R = H.copy()
    R.heap = dict(H.heap)
    hit = False
    for rid, r in H.heap.items():
        r2 = b.heap.get(rid)
        if r2 is None:
            return None
        segs = list(r.segs)
        for n, (lo, hi, u) in enumerate(segs):
            if u.op != "arr" or u.a[0] not in pid:
                continue
            # hi = K + c; the element at hi is new in b
            c = hi - K
            if any(a == kid for a, _ in c.t):
                return None
            t = seg_read(b, r2.segs, hi)
            if t is None or has_op(t, ("arr", "unk", "top")):
                return None
            segs[n] = (lo, hi, subst_t(t, {kid: HASH - c}))
            hit = True
        R.heap[rid] = r.with_(segs=tuple(segs))
    if not hit:
        return None
    R._feas = None
    # the recurrences take their definition from this iteration
    m = Match(I, R, b, kid, set(pv), set(pid))
    m.run()
    R2 = inductive(I, fn, fid, comp, R, kid, pv, pid, sh)
    if R2 is None:
        return None
    for x in firsts:
        m = Match(I, R2, x, kid, set(pv), set(pid))
        m.run()
        if m.changed:
            return None
    return R2


def core(c, kid, m):
    """a constraint that steps with the counter by one: the loop's bound"""
    return any(a == kid and abs(v) == 1 for a, v in c.t)


def phase_exit(m, H):
    """b lies outside H because the counter passed a bound of H (a later phase of the loop)"""
    if m.kid is None:
        return False
    for c in H.cons:
        if any(a == m.kid for a, _ in c.t):
            cs = subst_lin(c, m.m)
            if (not cs.t and cs.c < 0) or (cs.t and entails(m.B.cons, -cs - 1)):
                return True
    return False


def solve_loop(I, fn, fid, comp, st):
    if I.unroll:
        return unroll_loop(I, fn, fid, comp, st)
    if short_loop(st, fid):
        mark = len(I.panics)
        try:
            return unroll_loop(I, fn, fid, comp, st.copy(), SHORT + 2, 4)
        except LoopLimit:
            del I.panics[mark:]
    exits, pans = [], []
    gc(st)
    bk, ex, pn = body(I, fn, fid, comp, st)
    exits += ex
    pans += pn
    queue = list(bk)
    deferred = []
    groups = {}
    order = []
    guard = 0
    par = {}
    hold = []

    def own(l, g):
        for x in l:
            par[id(x)] = g
            hold.append(x)

    while queue or deferred:
        guard += 1
        if guard > 300:
            raise LoopLimit("loop did not stabilise")
        late = not queue
        if queue:
            b = queue.pop(0)
        else:
            kids = {g["kid"] for g in order if g["H"] is not None}
            deferred.sort(key=lambda s: not any(a in kids for c in s.cons for a, _ in c.t))
            b = deferred.pop(0)
        sh = shape(b)
        phases = groups.setdefault(sh, [])
        covered = False
        last = {}
        for g in phases:
            if g["H"] is None:
                m = Match(I, g["B1"], b, None, set(), set())
            else:
                m = Match(I, g["H"], b, g["kid"], set(g["pv"]), set(g["pid"]))
            R = m.run()
            last[id(g)] = (m, R)
            if not m.changed:
                covered = True
                break
        if covered:
            continue
        mine = par.get(id(b))
        if mine is not None and any(mine is g for g in phases):
            g = mine
        else:
            g = phases[-1] if phases else None
            if g is not None and g["H"] is None and len(phases) < MAXPHASE:
                g = None       # not a successor of that state: a loop entry of its own
        if g is not None and g["H"] is not None and len(phases) < MAXPHASE and phase_exit(last[id(g)][0], g["H"]):
            if not late:
                deferred.append(b)
                continue
            b = simp_k(b, g["kid"])
            g = None
        if g is None:
            if len(order) > 20:
                raise LoopLimit("too many loop shapes in %s" % fn.path)
            bk, ex, pn = body(I, fn, fid, comp, b)
            g = {"B1": b, "H": None, "ex": ex, "pn": pn, "n": 0, "peel": 0, "ex0": [], "pn0": [], "tried": []}
            phases.append(g)
            order.append(g)
            own(bk, g)
            queue += bk
            continue
        if g["H"] is None:
            H, kid, pv, pid = generalise(I, g["B1"], b)
            fit = None if lost(H, pid, g["B1"]) else inductive(I, fn, fid, comp, H, kid, pv, pid, sh)
            if fit is None and lost(H, pid, g["B1"]):
                try:
                    fit = sharpen(I, fn, fid, comp, H, kid, pv, pid, sh, (g["B1"], b))
                except NeedSplit:
                    fit = None
            if fit is not None:
                H = fit
            fit = fit is not None
            if not fit and b not in g["tried"] and any(shape(x) == sh and x is not b for x in queue):
                # another successor state may be the typical one
                g["tried"].append(b)
                queue.append(b)
                continue
            if not fit and g["peel"] < PEEL and lost(H, pid, g["B1"]):
                # the first iteration differs from the following ones: analyse one more exactly
                bk, ex, pn = body(I, fn, fid, comp, b)
                g["peel"] += 1
                g["ex0"] += g["ex"]
                g["pn0"] += g["pn"]
                g.update(B1=b, ex=ex, pn=pn, tried=[])
                own(bk, g)
                queue = bk + queue
                continue
            H.taint = H.taint | {"~loop"}
            if DEBUG:
                print("GEN", fn.path, comp[0], "k=%d" % kid)
                dump(H)
        else:
            kid = g["kid"]
            m, H = last[id(g)]
            if DEBUG:
                print("WEAKEN", fn.path, comp[0], m.changed[:10])
            pv, pid = m.pv, m.pid
        g["n"] += 1
        if g["n"] > ROUNDS:
            raise LoopLimit("loop not stable in %s" % fn.path)
        g.update(H=H, kid=kid, pv=pv, pid=pid)
        if not H.feasible():
            raise LoopLimit("infeasible generalisation in %s" % fn.path)
        bk, ex, pn = body(I, fn, fid, comp, H)
        g["ex"], g["pn"] = ex, pn
        own(bk, g)
        queue += bk
        if sh != shape(H):
            groups.setdefault(shape(H), []).append(g)
    for g in order:
        exits += g["ex0"]
        pans += g["pn0"]
        exits += [(t, simp_k(s, g.get("kid"))) for t, s in g["ex"]]
        pans += g["pn"]
    I.panics += pans
    return exits


def simp_k(s, kid):
    """eliminate the loop counter when the exit condition determines it"""
    if kid is None:
        return s
    for c in s.cons:
        for a, k in c.t:
            if a == kid and k in (1, -1):
                e = la(ATOMS[a]) - c.scale(k)     # c == 0  <=>  K == e
                if entails(s.cons, -c):
                    return subst_state(s, {kid: e})
    return s


def subst_state(s, m):
    r = s.copy()
    r.env = {k: subst_any(v, m) for k, v in s.env.items()}
    r.heap = {k: h.with_(len=subst_any(h.len, m), segs=tuple((subst_any(a, m), subst_any(b, m), subst_any(u, m)) for a, b, u in h.segs),
                         cap=subst_any(h.cap, m) if h.cap is not None else None)
              for k, h in s.heap.items()}
    for k, h in r.heap.items():
        if h.segs:
            r.heap[k] = h.with_(segs=tuple(x for x in h.segs if x[0] is not x[1]))
    r.org = {o: tuple((a, b, u) for a, b, u in (tuple(subst_any(x, m) for x in sg) for sg in segs) if a is not b) for o, segs in s.org.items()}
    low = []
    for kid, e in m.items():
        A = ATOMS[kid]
        if A.lo is not None:
            low.append(e - A.lo)
    r.cons = frozenset(x for x in [subst_lin(c, m) for c in s.cons] + low if x.t)
    r.facts = frozenset(subst_any(f, m) for f in s.facts)
    r._feas = None
    return r


def dump(s):
    for k, v in sorted(s.env.items(), key=str):
        print("   ", k, v)
    for k, r in s.heap.items():
        print("    h%s len=%s %s %s" % (k, r.len, r.status, [(str(a), str(b), str(u)) for a, b, u in r.segs]))
    for o, segs in s.org.items():
        print("    org", o, [(str(a), str(b), str(u)) for a, b, u in segs])
    print("    cons", sorted(map(str, s.cons)))
    print("    facts", s.facts)
