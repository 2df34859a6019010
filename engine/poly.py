"""Words as exact integer polynomials.

A word computed with additions, multiplications, shifts by constants and
truncations is written as a polynomial over the operands' digits and over
"high part" atoms H(P, k) = floor(P / 2^k): truncating a word P to k bits gives
P - 2^k * H(P, k), exactly.  A high part is dropped where P is shown to be
below 2^k, from bounds obtained by putting (P - (2^k - 1)) / 2^k <= H <= P / 2^k
back in, newest atom first.  Two computations of one number then have the same
polynomial, whatever order they add their partial products in.

The quotient and the remainder of two words X and Y are atoms Q and R with
X = Y * Q + R and 0 <= R < Y; `expand` puts X - Y * Q for R."""
from lin import ATOMS, Lin, lc
from terms import T, NeedSplit, const_bits, ones, as_term
from state import ORG


class Infeasible(Exception):
    """no value of the digits takes this path"""


class Dom:
    def __init__(self, st):
        self.st = st
        self._defs = None
        self.open = set()
        self.info = []         # atom -> (kind, payload, low, high)
        self.keys = {}
        self.known = {}        # (polynomial, k) -> high part where the path says what it is
        self.memo = {}
        self.bmemo = {}

    # ------------------------------------------------------------ polynomials: dict monomial -> coefficient
    @staticmethod
    def const(c):
        return {(): c} if c else {}

    @staticmethod
    def add(p, q, f=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + f * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def scale(p, f):
        return {m: c * f for m, c in p.items()} if f else {}

    @staticmethod
    def mul(p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    @staticmethod
    def key(p):
        return tuple(sorted(p.items()))

    def atom(self, key, kind, payload, lo, hi):
        a = self.keys.get(key)
        if a is None:
            a = self.keys[key] = len(self.info)
            self.info.append((kind, payload, lo, hi))
        return {(a,): 1}

    # ------------------------------------------------------------ bounds
    def plain(self, p):
        """an upper bound of p, term by term"""
        s = 0
        for m, c in p.items():
            lo = hi = 1
            for a in m:
                _, _, l, h = self.info[a]
                v = (lo * l, lo * h, hi * l, hi * h)
                lo, hi = min(v), max(v)
            s += c * (hi if c > 0 else lo)
        return s

    def ub(self, p):
        """an upper bound of p"""
        k = self.key(p)
        if k in self.bmemo:
            return self.bmemo[k]
        best = self.plain(p)
        den = 1
        seen = None
        for _ in range(400):
            hs = [m[0] for m in p if len(m) == 1 and self.info[m[0]][0] in ("H", "R") and (seen is None or m[0] < seen)]
            if not hs:
                break
            h = max(hs)
            seen = h
            kind, (q, n), _, _ = self.info[h]
            c = p[(h,)]
            p = {m: v for m, v in p.items() if m != (h,)}
            if kind == "R":          # 0 <= R <= n - 1
                if c > 0:
                    p = self.add(self.add(p, n, c), self.const(-c))
                best = min(best, self.plain(p) // den)
                continue
            f = 1 << n
            p = self.add(self.scale(p, f), q, c)
            if c < 0:
                p = self.add(p, self.const(-c * (f - 1)))
            den *= f
            b = self.plain(p) // den
            best = min(best, b)
        self.bmemo[k] = best
        return best

    def lb(self, p):
        return -self.ub(self.scale(p, -1))

    # ------------------------------------------------------------ high parts
    def high(self, p, k, force=None):
        """floor(p / 2^k)"""
        f = 1 << k
        out, rest = {}, {}
        for m, c in p.items():
            if c % f == 0:
                out[m] = c // f
            elif m == ():
                q = c // f
                if q:
                    out[m] = q
                rest[m] = c - q * f
            else:
                rest[m] = c
        if not rest:
            return out
        key = (self.key(rest), k)
        if force is not None and key not in self.known:
            v = force()
            if v is not None:
                if not self.lb(p) >> k <= v.get((), 0) <= self.ub(p) >> k:
                    raise Infeasible()
                self.known[key] = self.add(v, out, -1)
        if key in self.known:
            return self.add(out, self.known[key])
        lo, hi = self.lb(rest) >> k, self.ub(rest) >> k
        if lo == hi:
            return self.add(out, self.const(lo))
        return self.add(out, self.atom(("H",) + key, "H", (rest, k), lo, hi))

    def wrap(self, p, k, force=None):
        """p modulo 2^k"""
        if not p:
            return p
        h = self.high(p, k, force)
        return self.add(p, h, -(1 << k)) if h else p

    # ------------------------------------------------------------ quotients
    def divide(self, t):
        """(Q, R) for the word division t"""
        x, y = self.term(t.a[0]), self.term(t.a[1])
        if set(x) <= {()} and set(y) == {()}:
            return tuple(map(self.const, divmod(x.get((), 0), y[()])))
        k = (self.key(x), self.key(y))
        if ("Q",) + k not in self.keys:
            hi = self.ub(x)
            for n in (1, 32, 64, 128):
                if self.ub(self.add(x, y, -(1 << n))) < 0:
                    hi = min(hi, (1 << n) - 1)
                    break
            if self.ub(self.add(x, y, -1)) < 0:
                hi = 0
            q = self.atom(("Q",) + k, "Q", (x, y), 0, hi)
            self.atom(("R",) + k, "R", (q, y), 0, max(0, min(self.ub(x), self.ub(y) - 1)))
        q = self.keys[("Q",) + k]
        if self.info[q][3] == 0:
            return {}, x
        return {(q,): 1}, {(self.keys[("R",) + k],): 1}

    def expand(self, p):
        """p with every remainder written as X - Y * Q"""
        for _ in range(400):
            rs = [a for m in p for a in m if self.info[a][0] == "R"]
            if not rs:
                return p
            a = max(rs)
            q, y = self.info[a][1]
            x = self.info[next(iter(q))[0]][1][0]
            v = self.add(x, self.mul(q, y), -1)
            out = {}
            for m, c in p.items():
                if a in m:
                    l = list(m)
                    l.remove(a)
                    out = self.add(out, self.mul({tuple(l): c}, v))
                else:
                    out = self.add(out, {m: c})
            p = out
        return p

    def over(self, p, y):
        """a polynomial q with p = y * q, or None"""
        if not p:
            return {}
        if not y:
            return None
        m = max(y)
        c = y[m]
        q = {}
        for n, d in p.items():
            l = list(n)
            try:
                for a in m:
                    l.remove(a)
            except ValueError:
                continue
            if d % c == 0:
                q[tuple(l)] = d // c
        return q if q and not self.add(p, self.mul(q, y), -1) else None

    # ------------------------------------------------------------ terms
    def lin(self, l, raw=False):
        p = self.const(l.c)
        for a, k in l.t:
            t = ATOMS[a].term
            if t is not None:
                q = self._term(t, True) if raw else self.term(t)
            elif a in self.defs():
                q = self.defined(a)
            else:
                A = ATOMS[a]
                if A.lo is None or A.hi is None:
                    lo, hi = 0, 1 << 400
                    if A.lo is None:
                        lo = -hi
                else:
                    lo, hi = A.lo, A.hi
                q = self.atom(("a", a), "w", None, lo, hi)
            p = self.add(p, q, k)
        return p

    def defs(self):
        """numbers the path defines as quotient or remainder by a power of two: atom -> (which, dividend, exponent)"""
        if self._defs is None:
            self._defs = {}
            cons = set(self.st.cons)
            for l in cons:
                if -l not in cons:
                    continue
                for r, f in l.t:
                    R = ATOMS[r]
                    if f != -1 or R.term is not None or R.lo != 0 or R.hi is None or R.hi & (R.hi + 1) or R.hi == 0:
                        continue
                    for q, g in l.t:
                        if g == -(R.hi + 1) and ATOMS[q].term is None and q not in self._defs and r not in self._defs:
                            e = Lin(l.c, tuple((a, k) for a, k in l.t if a not in (q, r)))
                            k = (R.hi + 1).bit_length() - 1
                            self._defs[q] = (0, e, k)
                            self._defs[r] = (1, e, k)
        return self._defs

    def defined(self, a):
        r = self.memo.get(a)
        if r is None:
            if a in self.open:                   # defined through itself
                A = ATOMS[a]
                return self.atom(("a", a), "w", None, A.lo, A.hi if A.hi is not None else 1 << 400)
            self.open.add(a)
            which, e, k = self.defs()[a]
            p = self.lin(e)
            r = self.high(p, k) if which == 0 else self.wrap(p, k)
            self.open.discard(a)
            self.memo[a] = r
        return r

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._term(t)
        return r

    def opaque(self, t):
        return self.atom(("t", t), "w", None, 0, (1 << const_bits(t)) - 1)

    def _term(self, t, raw=False):
        st = self.st
        o, w = t.op, t.w
        if o == "c":
            return self.const(t.a[0])
        if o == "dig":
            r = st.resolve_dig(t)
            if r is not t:
                return self.term(r)
        v = None if raw else st.term_const(t)
        if v is not None:
            return self.const(v)
        if o == "dig":
            b = 64
            if t.a[0] in ORG and t.a[1].is_const():
                n, eb = ORG[t.a[0]]
                if n.is_const() and eb.is_const() and n.c == t.a[1].c + 1:
                    b = eb.c
            if b <= 8:
                f = {q[2].c: q[3] for q in st.facts if q[0] == "bit" and q[1] is t and q[2].is_const()}
                if all(k in f for k in range(b)):
                    return self.const(sum(1 << k for k in range(b) if f[k]))
            lo, hi = self.limits(t, (1 << b) - 1)
            return self.const(lo) if lo == hi else self.atom(("t", t), "w", t, lo, hi)
        if o == "lin":
            return self.wrap(self.lin(t.a[0]), w)
        if o == "wadd":
            return self.wrap(self.add(self.term(t.a[0]), self.term(t.a[1])), w, lambda: self.carry(t))
        if o == "wsub":
            return self.wrap(self.add(self.term(t.a[0]), self.term(t.a[1]), -1), w, lambda: self.borrow(t))
        if o == "wmul":
            return self.wrap(self.mul(self.term(t.a[0]), self.term(t.a[1])), w)
        if o in ("udiv", "urem"):
            y = self.term(t.a[1])
            if self.lb(y) < 1:
                v = st.truth(("teq", t.a[1], T("c", (0,), t.a[1].w)))
                if v is not False:
                    return self.opaque(t)
            return self.divide(t)[o == "urem"]
        if o == "trunc":
            return self.wrap(self.term(t.a[0]), w)
        if o == "shr" and t.a[1].is_const():
            return self.high(self.term(t.a[0]), t.a[1].c)
        if o == "shl" and t.a[1].is_const():
            return self.wrap(self.scale(self.term(t.a[0]), 1 << t.a[1].c), w)
        if o == "not":
            return self.add(self.const(ones(w)), self.term(t.a[0]), -1)
        if o == "and":
            for x, y in (t.a, t.a[::-1]):
                if y.op == "c" and y.a[0] & (y.a[0] + 1) == 0:
                    return self.wrap(self.term(x), y.a[0].bit_length())
        if o in ("or", "xor"):
            for x, y in (t.a, t.a[::-1]):
                if x.op == "shl" and x.a[1].is_const() and const_bits(y) <= x.a[1].c:
                    return self.add(self.term(x), self.term(y))
        if o == "ite":
            v = st.truth(t.a[0])
            if v is None:
                raise NeedSplit(cond=t.a[0])
            return self.term(t.a[1] if v else t.a[2])
        if o == "b2i":
            v = st.truth(t.a[0])
            if v is not None:
                return self.const(int(v))
            c, f = t.a[0], False
            if c[0] == "not":
                c, f = c[1], True
            r = None
            if c[0] == "tlt":
                x, y = c[1], c[2]
                if x.op == "wadd" and y in x.a:
                    r = self.high(self.add(self.term(x.a[0]), self.term(x.a[1])), x.w)
                else:
                    r = self.scale(self.high(self.add(self.term(x), self.term(y), -1), 130), -1)
            if r is not None:
                return self.add(self.const(1), r, -1) if f else r
        return self.opaque(t)

    def limits(self, t, hi):
        """what the path says about the size of an operand's digit"""
        lo = 0
        for l in self.st.cons:
            if len(l.t) == 1:
                a, k = l.t[0]
                u = ATOMS[a].term
                if u is t:
                    if k > 0:
                        lo = max(lo, -(l.c // k))
                    else:
                        hi = min(hi, l.c // -k)
                elif u is not None and u.op == "clz" and self.st_is(u.a[0], t):
                    if k == 1 and 0 < -l.c <= t.w:
                        hi = min(hi, (1 << t.w + l.c) - 1)
                    elif k == -1 and 0 <= l.c < t.w:
                        lo = max(lo, 1 << t.w - 1 - l.c)
        for f in self.st.facts:
            if f[0] == "bit" and f[1] is t and f[3] and f[2].is_const():
                lo = max(lo, 1 << f[2].c)
            elif f[0] == "not" and f[1][0] == "teq" and f[1][1] is t and f[1][2].op == "c" and f[1][2].a[0] == 0:
                lo = max(lo, 1)
        return lo, max(lo, hi)

    def st_is(self, u, t):
        return u is t or u.op == "dig" and self.st.resolve_dig(u) is t

    def carry(self, t):
        """does the sum t overflow, if the path tells"""
        for u in t.a:
            v = self.st.truth(("tlt", t, u))
            if v is not None:
                return self.const(int(v))
        return None

    def borrow(self, t):
        v = self.st.truth(("tlt", t.a[0], t.a[1]))
        return None if v is None else self.const(-int(v))

    def possible(self):
        """raise Infeasible if a comparison the path made cannot come out as it did"""
        for l in self.st.cons:
            if self.ub(self.lin(l, True)) < 0:
                raise Infeasible()
        for f in self.st.facts:
            neg = f[0] == "not"
            g = f[1] if neg else f
            if g[0] not in ("tlt", "teq") or not all(isinstance(x, T) for x in g[1:3]):
                continue
            p = self.add(self._term(g[1], True), self._term(g[2], True), -1)
            if g[0] == "tlt":
                if not neg and self.lb(p) >= 0 or neg and self.ub(p) < 0:
                    raise Infeasible()
            elif neg and not p or not neg and (self.lb(p) > 0 or self.ub(p) < 0):
                raise Infeasible()

    # ------------------------------------------------------------ numbers
    def number(self, segs, n):
        """the number with the given digits, or None"""
        from state import seg_at
        p = {}
        for k in range(n):
            t = None
            for lo, hi, u in segs:
                if not (lo.is_const() and hi.is_const()):
                    return None
                if lo.c <= k < hi.c:
                    t = seg_at(u, lc(k))
            if t is None:
                return None
            p = self.add(p, self.scale(self.term(t), 1 << 64 * k))
        return p

    def operand(self, name, n):
        p = {}
        for k in range(n):
            p = self.add(p, self.scale(self.term(T("dig", (name, lc(k)), 64)), 1 << 64 * k))
        return p

    def congruent(self, p, w):
        """p = 0 modulo 2^w for every value of the atoms"""
        return all(c % (1 << w) == 0 for c in p.values())
