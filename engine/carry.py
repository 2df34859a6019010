"""Addition with carry: is a digit sequence the sum of two operands?

The result digits R_i, the operand digits A_i and B_i and the carry c_i (c_0
given) must satisfy  R_i = A_i + B_i + c_i  (mod 2^64)  with
c_{i+1} = (A_i + B_i + c_i) div 2^64, for every digit up to the top one, whose
bits at and above the width are ignored.  The walk goes over the segments of
the result; a segment written by a loop is decided by induction over the loop's
own recurrence for the carried word."""
from lin import Lin, ATOMS, lc, la, new_atom, ZERO, ONE, entails, entails_eq, consistent
from terms import T, NeedSplit, bit, forall, tc, as_term, REC, rebuild, same_term, subst_t, const_bits, ones
from state import HASH, HID, seg_at

W64 = 1 << 64
SMALL = set()      # recurrences taken as carries (0 or 1); whoever adds one proves it or gives up


def cbits(t):
    return 1 if t.op == "rec" and t.a[0] in SMALL else const_bits(t)


def atomlin(t):
    return t.lin()


def flat(c, t, d=0):
    """t modulo 2^64 as a linear form (coefficients modulo 2^64)"""
    if d > 40:
        return atomlin(t)
    if t.op == "dig":
        r = c.resolve_dig(t)
        return flat(c, r, d + 1) if r is not t else atomlin(t)
    if t.op == "c":
        return lc(t.a[0] % W64)
    if t.op == "trunc" and t.w >= 64:
        return flat(c, t.a[0], d + 1)
    if t.op in ("wadd", "wsub") and t.w >= 64:
        x, y = flat(c, t.a[0], d + 1), flat(c, t.a[1], d + 1)
        return x + y if t.op == "wadd" else x - y
    if t.op == "not" and t.w >= 64:
        return -flat(c, t.a[0], d + 1) - 1
    if t.op == "lin":
        r = lc(t.a[0].c)
        for a, k in t.a[0].t:
            r = r + (flat(c, ATOMS[a].term, d + 1) if ATOMS[a].term is not None else la(ATOMS[a])).scale(k)
        return r
    if t.op == "rec":
        for k in (1, 2):
            if entails_eq(c.cons, t.a[1], lc(k)):
                return flat(c, as_term(rebuild("rec", (t.a[0], lc(k)), t.w).lin(), t.w), d + 1)
    if t.op == "ite":
        v = c.truth(t.a[0])
        if v is None:
            raise NeedSplit(cond=t.a[0])
        return flat(c, t.a[1] if v else t.a[2], d + 1)
    if t.op == "wmul" and t.w >= 64 and t.a[1].op == "c":
        return flat(c, t.a[0], d + 1).scale(t.a[1].a[0])
    if t.op == "b2i":
        v = c.truth(t.a[0])
        if v is not None:
            return lc(int(v))
    v = c.term_const(t)
    if v is not None:
        return lc(v % W64)
    return atomlin(t)


def exact(c, t, d=0):
    """the exact value of t as a linear form (an opaque atom where it may wrap)"""
    if d > 40:
        return atomlin(t)
    if t.op == "dig":
        r = c.resolve_dig(t)
        return exact(c, r, d + 1) if r is not t else atomlin(t)
    if t.op == "c":
        return lc(t.a[0])
    if t.op == "wadd" and max(cbits(t.a[0]), cbits(t.a[1])) < t.w:
        return exact(c, t.a[0], d + 1) + exact(c, t.a[1], d + 1)
    if t.op == "not":
        return lc(ones(t.w)) - exact(c, t.a[0], d + 1)
    if t.op == "lin":
        r = lc(t.a[0].c)
        for a, k in t.a[0].t:
            r = r + (exact(c, ATOMS[a].term, d + 1) if ATOMS[a].term is not None else la(ATOMS[a])).scale(k)
        return r
    if t.op == "trunc" and const_bits(t.a[0]) <= t.w:
        return exact(c, t.a[0], d + 1)
    if t.op == "b2i":
        v = c.truth(t.a[0])
        if v is not None:
            return lc(int(v))
    v = c.term_const(t)
    if v is not None:
        return lc(v)
    return atomlin(t)


def red(l):
    """coefficients modulo 2^64"""
    r = lc(l.c % W64)
    for a, k in l.t:
        k %= W64
        if k:
            r = r + la(ATOMS[a]).scale(k if k < W64 >> 1 else k - W64)
    return r


def cancel(c, l):
    """merge atoms that denote the same word in c"""
    at = [(a, k) for a, k in l.t]
    out = []
    for a, k in at:
        t = ATOMS[a].term
        for n, (b, m) in enumerate(out):
            u = ATOMS[b].term
            if b == a or (t is not None and u is not None and t.op == u.op and same_term(c, t, u)):
                out[n] = (b, m + k)
                break
        else:
            out.append((a, k))
    r = lc(l.c)
    for a, k in out:
        if k:
            r = r + la(ATOMS[a]).scale(k)
    return red(r)


def words(c):
    """word terms the state knows something about"""
    out = []
    seen = set()
    for l in c.cons:
        for a, _ in l.t:
            t = ATOMS[a].term
            if t is not None and a not in seen:
                seen.add(a)
                out.append(t)
    return out


def feasible(c, extra, E, lo):
    """can the state hold together with the constraints extra, the carry sum E lying in [lo, lo + 2^64)?"""
    d = c.copy()
    for l in extra:
        d.add_lin(l)
    ts = words(c) + [x for f in c.facts for x in (f[1] if f[0] == "not" else f)[1:3] if isinstance(x, T)]
    for a, _ in E.t:
        t = ATOMS[a].term
        if t is None:
            continue
        for u in ts:
            if u is not t and u.op == t.op and same_term(c, u, t):
                d.add_lin(u.lin() - la(ATOMS[a]))
                d.add_lin(la(ATOMS[a]) - u.lin())
    for t in words(c):
        if t.w > 64 and const_bits(t) > 64:
            continue
        if t.op in ("wadd", "wsub", "trunc", "lin", "not"):
            if cancel(c, red(flat(c, t) - E)).is_const() and red(cancel(c, red(flat(c, t) - E))) is ZERO:
                d.add_lin(t.lin() - (E - lo))
                d.add_lin((E - lo) - t.lin())
            # related by a small constant or by the carry itself: exact difference up to a multiple of 2^64 is not used
    if not d.feasible():
        return False
    for f in c.facts:
        g = f[1] if f[0] == "not" else f
        if g[0] == "teq":
            x, y = exact(c, g[1]), exact(c, g[2])
            if f[0] == "not":
                if entails_eq(d.cons, x, y):
                    return False
            else:
                e = d.copy()
                e.add_lin(x - y)
                e.add_lin(y - x)
                if not e.feasible():
                    return False
        elif g[0] == "tlt":
            x, y = exact(c, g[1]), exact(c, g[2])
            e = d.copy()
            e.add_lin(y - x - 1 if f[0] != "not" else x - y)
            if not e.feasible():
                return False
    return True


class Carry:
    """the carry into the next digit: a known word `v`, or the carry out of A + B + v"""

    def __init__(self, v, A=None, B=None):
        self.v, self.A, self.B = v, A, B

    def total(self, c):
        return exact(c, self.A) + exact(c, self.B) + self.v

    def known(self, c):
        """0, 1 or None"""
        if self.A is None:
            return self.v.c if self.v.is_const() else None
        E = self.total(c)
        extra = []
        for a, _ in E.t:
            t = ATOMS[a].term
            if t is not None:
                extra += [la(ATOMS[a]), lc((1 << cbits(t)) - 1) - la(ATOMS[a])]
        if not feasible(c, extra + [lc(W64 - 1) - E], E, 0):
            return 1
        if not feasible(c, extra + [E - W64], E, W64):
            return 0
        return None

    def equals(self, c, r):
        """is the carry the word r (a reduced linear form)?"""
        r = red(r)
        if r.is_const():
            return r.c in (0, 1) and self.known(c) == r.c
        a = r.atom()
        if a is None or a.term is None:
            return False
        t = a.term
        if self.A is None:
            if self.v.is_const():
                return self.split(c, t)
            b = self.v.atom()
            return b is not None and (b is a or (b.term is not None and same_term(c, t, b.term)))
        while t.op == "trunc" and t.w >= 64:
            t = t.a[0]
        if t.op == "shr" and t.a[1].is_const() and t.a[1].c == 64:
            x = exact(c, t.a[0])
            return cancel_exact(c, x - self.total(c)) is ZERO
        return self.split(c, t)

    def split(self, c, t):
        if t.op == "b2i":
            v = c.truth(t.a[0])
            if v is None:
                raise NeedSplit(cond=t.a[0])
            return self.known(c) == int(v)
        return False


def cancel_exact(c, l):
    out = []
    for a, k in l.t:
        t = ATOMS[a].term
        for n, (b, m) in enumerate(out):
            u = ATOMS[b].term
            if b == a or (t is not None and u is not None and t.op == u.op and same_term(c, t, u)):
                out[n] = (b, m + k)
                break
        else:
            out.append((a, k))
    r = lc(l.c)
    for a, k in out:
        if k:
            r = r + la(ATOMS[a]).scale(k)
    return r


def unmask(c, t, eb):
    """t with masks that keep the low eb bits removed"""
    while t.op in ("and", "trunc"):
        if t.op == "trunc":
            if t.w < 64:
                return t
            t = t.a[0]
            continue
        for m, o in ((t.a[1], t.a[0]), (t.a[0], t.a[1])):
            r = la(new_atom("mr", 0, 63))
            d = c.copy()
            d.add_lin(eb - 1 - r)
            if forall(d, lambda e: bit(e, m, r) is True):
                t = o
                break
        else:
            return t
    return t


def is_sum(st, segs, w, A, B, cin):
    """segs (digits of a value of width w) = A + B + cin mod 2^w; A, B: position -> term"""
    n, eb = w.n, w.eb
    SMALL.clear()

    def walk(c, pos, k, carry):
        # k: next segment
        while True:
            if not c.decide(n - 1 - pos):
                return True
            if k >= len(segs):
                return False
            lo, hi, u = segs[k]
            if not c.decide(hi - pos - 1) or not c.decide(hi - lo - 1):
                k += 1
                continue
            break
        if not c.decide_eq(lo, pos) and not c.decide(pos - lo):
            return False
        top = c.decide_eq(pos, n - 1)
        if top or (hi - pos) is ONE:
            t = seg_at(u, pos)
            if top:
                t = unmask(c, t, eb)
            rem = cancel(c, red(flat(c, t) - flat(c, A(pos)) - flat(c, B(pos))))
            if not carry.equals(c, rem):
                return False
            if top:
                return True
            nxt = step(c, pos, carry, rem)
            return walk(c, pos + 1, k + 1, nxt)
        # a run [pos, hi): leave the top digit for the end
        end = hi
        if not c.decide(n - 1 - hi):
            end = n - 1
        q = la(new_atom("cq", 0, None))
        d = c.copy()
        d.add_lin(q - pos)
        d.add_lin(end - 1 - q)
        got = []

        def run(e):
            rem = cancel(e, red(flat(e, seg_at(u, q)) - flat(e, A(q)) - flat(e, B(q))))
            if rem.is_const():
                got.append(("k", rem.c))
                return rem.c in (0, 1) and Carry(rem, A(q), B(q)).known(e) == rem.c
            a = rem.atom()
            if a is None or a.term is None or a.term.op != "rec":
                return False
            rid, K = a.term.a
            f = REC[rid]
            if f["step"] is None:
                return False
            got.append(("r", rid, q - K, a.term.w))
            SMALL.add(rid)
            nx = as_term(subst_t(f["step"], {f["kid"]: K}).lin(), a.term.w)
            return Carry(la(a), A(q), B(q)).equals(e, cancel(e, red(flat(e, nx))))
        if not forall(d, run):
            return False
        g = set(got)
        if len(g) != 1:
            return False
        g = got[0]
        if g[0] == "k":
            if not carry.equals(c, lc(g[1])):
                return False
            return walk(c, end, k, Carry(lc(g[1])))
        if any(a == x for a, _ in g[2].t for x, _ in q.t):
            return False
        first = rebuild("rec", (g[1], pos - g[2]), g[3])
        if not carry.equals(c, cancel(c, red(flat(c, first)))):
            return False
        return walk(c, end, k, Carry(rebuild("rec", (g[1], end - g[2]), g[3]).lin()))

    def step(c, pos, carry, rem):
        o = Carry(rem, A(pos), B(pos))
        k = o.known(c)
        return Carry(lc(k)) if k is not None else o

    return forall(st, lambda c: walk(c, ZERO, 0, Carry(lc(cin))))
