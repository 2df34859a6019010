"""Concretisation of abstract counterexamples.

A state in which an obligation could not be established is reported only if it
contains a concrete point (values of the width/position symbols and of the
input digits) that satisfies every constraint and fact of the state and at
which the obligation is definitely false.  A state reached through a widening,
a join or an unmodelled call (st.taint) is never used.
"""
import random
from lin import Lin, ATOMS, lc, ZERO, ONE
from terms import T, tc, ones
from state import State, Region, HASH, HID, ORG, seg_at
import interp


class Unknown(Exception):
    pass


class Env:
    def __init__(self, st, rnd):
        self.st = st
        self.rnd = rnd
        self.atoms = {}
        self.digs = {}
        self.ubs = {}
        self.pick = None
        self.memo = {}
        self.depth = 0

    # ------------------------------------------------------------ integers
    def L(self, l):
        v = l.c
        for a, k in l.t:
            v += k * self.A(a)
        return v

    def A(self, a):
        v = self.atoms.get(a)
        if v is not None:
            return v
        A = ATOMS[a]
        if A.term is not None:
            return self.Tm(A.term)
        d = DMREV().get(a)
        if d is not None:
            r, m, isq = d
            x = self.L(r)
            v = x // m if isq else x % m
        else:
            v = self.choose_atom(A)
        self.atoms[a] = v
        return v

    def choose_atom(self, A):
        lo = A.lo if A.lo is not None else 0
        hi = A.hi if A.hi is not None else lo + 4
        if a_in(A):
            lo2, hi2 = bounds(self, A, lo, hi)
            if lo2 > hi2:
                raise Unknown("empty")
            c = self.rnd.random()
            if c < 0.35:
                return lo2
            if c < 0.6:
                return hi2
            return self.rnd.randint(lo2, min(hi2, lo2 + 300))
        raise Unknown("atom")

    # ------------------------------------------------------------ words
    def Tm(self, t):
        r = self.memo.get(t)
        if r is None:
            self.depth += 1
            if self.depth > 300:
                raise Unknown("depth")
            r = self._T(t)
            self.depth -= 1
            self.memo[t] = r
        return r

    def _T(self, t):
        o = t.op
        w = t.w
        m = ones(w)
        if o == "c":
            return t.a[0]
        if o == "dig":
            return self.dig(t)
        if o == "lin":
            return self.L(t.a[0]) & m
        if o in ("and", "or", "xor"):
            a, b = self.Tm(t.a[0]), self.Tm(t.a[1])
            return a & b if o == "and" else a | b if o == "or" else a ^ b
        if o == "not":
            return ~self.Tm(t.a[0]) & m
        if o in ("shl", "shr", "ashr"):
            a, k = self.Tm(t.a[0]), self.L(t.a[1])
            if not 0 <= k < w:
                if o == "ashr" or k < 0:
                    raise Unknown("shift")
                return 0
            if o == "shl":
                return (a << k) & m
            if o == "shr":
                return a >> k
            s = a - ((a >> (w - 1)) << w)
            return (s >> k) & m
        if o == "trunc":
            return self.Tm(t.a[0]) & m
        if o == "sext":
            fw = t.a[1]
            a = self.Tm(t.a[0])
            return (a | (m ^ ones(fw))) if a >> (fw - 1) & 1 else a
        if o == "wadd":
            return (self.Tm(t.a[0]) + self.Tm(t.a[1])) & m
        if o == "wsub":
            return (self.Tm(t.a[0]) - self.Tm(t.a[1])) & m
        if o == "wmul":
            return (self.Tm(t.a[0]) * self.Tm(t.a[1])) & m
        if o in ("udiv", "urem"):
            a, b = self.Tm(t.a[0]), self.Tm(t.a[1])
            if b == 0:
                raise Unknown("div0")
            return a // b if o == "udiv" else a % b
        if o == "ite":
            return self.Tm(t.a[1] if self.C(t.a[0]) else t.a[2])
        if o == "b2i":
            return int(self.C(t.a[0]))
        if o == "popcnt":
            return bin(self.Tm(t.a[0])).count("1")
        if o == "clz":
            return t.a[0].w - self.Tm(t.a[0]).bit_length()
        if o == "ctz":
            v = self.Tm(t.a[0])
            return (v & -v).bit_length() - 1 if v else t.a[0].w
        raise Unknown(o)

    def dig(self, t):
        name = t.a[0]
        i = self.L(t.a[1])
        k = (name, i)
        v = self.digs.get(k)
        if v is not None:
            return v
        n, eb = ORG[name]
        n = self.L(n)
        if not 0 <= i < n:
            raise Unknown("index")
        for lo, hi, u in self.st.org.get(name, ()):
            if u.op == "dig" and u.a[0] == name:
                continue
            if self.L(lo) <= i < self.L(hi):
                v = self.Tm(seg_at(u, lc(i)))
                break
        if v is None:
            b = self.L(eb) if i == n - 1 else 8 if name[0] == "s" else 64
            v = self.word(b)
            for f in self.st.facts:
                if f[0] == "bit" and f[1].op == "dig" and f[1].a[0] == name:
                    try:
                        if self.L(f[1].a[1]) == i:
                            j = self.L(f[2])
                            if 0 <= j < b:
                                v = v | 1 << j if f[3] else v & ~(1 << j)
                    except Unknown:
                        pass
            v &= ones(b)
        self.digs[k] = v
        return v

    def word(self, b):
        r = self.rnd
        c = r.random()
        if c < 0.14:
            v = 0
        elif c < 0.26:
            v = ones(b)
        elif c < 0.34:
            v = 1
        elif c < 0.42:
            v = 1 << (b - 1)
        elif c < 0.5 and self.pool:
            v = r.choice(self.pool)
        elif c < 0.58:
            v = 1 << r.randrange(b)
        elif c < 0.66:
            v = ones(b) ^ (1 << r.randrange(b))
        else:
            v = r.getrandbits(b)
        return v & ones(b)

    # ------------------------------------------------------------ conditions
    def C(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "not":
            return not self.C(c[1])
        if k == "and":
            return self.C(c[1]) and self.C(c[2])
        if k == "or":
            return self.C(c[1]) or self.C(c[2])
        if k == "xor":
            return self.C(c[1]) != self.C(c[2])
        if k == "ge":
            return self.L(c[1]) >= 0
        if k == "eq0":
            return self.L(c[1]) == 0
        if k == "teq":
            return self.Tm(c[1]) == self.Tm(c[2])
        if k == "tlt":
            return self.Tm(c[1]) < self.Tm(c[2])
        if k == "bit":
            j = self.L(c[2])
            v = bool(self.Tm(c[1]) >> j & 1) if j >= 0 else False
            if len(c) > 3:
                return v == c[3]
            return v
        if k == "ub":
            i = c[1]
            if isinstance(i, str) and i.startswith("arg"):
                v = self.ubs.get(i)
                if v is None:
                    v = self.ubs[i] = bool(self.rnd.getrandbits(1))
                return v
            if isinstance(i, tuple) and i:
                if i[0] == "scmp":
                    w = i[3]
                    a, b = self.L(i[1]), self.L(i[2])
                    a -= (a >> (w - 1)) << w
                    b -= (b >> (w - 1)) << w
                    return a < b
                if i[0] == "mulovf":
                    return self.Tm(i[1]) * self.Tm(i[2]) > ones(i[1].w)
                if i[0] == "pow2":
                    a = self.L(i[1])
                    return a != 0 and a & (a - 1) == 0
        raise Unknown(str(k))

    # ------------------------------------------------------------ values
    def V(self, v):
        """concrete copy of a value; unknown parts stay unknown"""
        if isinstance(v, Lin):
            try:
                return lc(self.L(v))
            except Unknown:
                return v
        if isinstance(v, T):
            try:
                return tc(self.Tm(v), v.w)
            except Unknown:
                return v
        if isinstance(v, tuple) and v:
            if v[0] in ("ge", "eq0", "teq", "tlt", "bit", "not", "and", "or", "xor", "ub"):
                try:
                    return self.C(v)
                except Unknown:
                    return v
            return tuple(self.V(x) for x in v)
        return v


def a_in(A):
    """input symbols (widths, positions, radix, string length)"""
    return isinstance(A.name, str) and A.name[:1] in "emqrs" and A.term is None


def bounds(env, A, lo, hi):
    """tighten the range of an input symbol by constraints whose other symbols are already fixed"""
    for c in env.st.cons:
        k = dict(c.t).get(A.id)
        if not k:
            continue
        rest = c.c
        ok = True
        for a, x in c.t:
            if a == A.id:
                continue
            if a in env.atoms:
                rest += x * env.atoms[a]
            else:
                B = ATOMS[a]
                v = B.hi if x > 0 else B.lo
                if v is None or B.term is not None:
                    ok = False
                    break
                rest += x * v
        if not ok:
            continue
        if k > 0:
            lo = max(lo, -(rest // k))
        else:
            hi = min(hi, rest // -k)
    return lo, hi


_REV = {}


def DMREV():
    if len(_REV) != 2 * len(interp.DM):
        _REV.clear()
        for (r, d), (q, m) in interp.DM.items():
            _REV[q.t[0][0]] = (r, d, True)
            _REV[m.t[0][0]] = (r, d, False)
    return _REV


def consts(st):
    out = set()

    def go(x, d=0):
        if d > 12:
            return
        if isinstance(x, T):
            if x.op == "c":
                out.add(x.a[0])
            for y in x.a:
                go(y, d + 1)
        elif isinstance(x, Lin):
            out.add(abs(x.c))
            for a, _ in x.t:
                if ATOMS[a].term is not None:
                    go(ATOMS[a].term, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                go(y, d + 1)

    for f in st.facts:
        go(f)
    for c in st.cons:
        go(c)
    r = []
    for v in sorted(out):
        for d in (-1, 0, 1):
            if 0 <= v + d < 1 << 64:
                r.append(v + d)
    return r[:200]


def witness(st, check, seed=1, tries=300, extra=()):
    """search a concrete point of st at which check(concrete state, env) is False.
    check returns True (fine), False (violated) or None (not decided there)."""
    if st.taint:
        return None
    rnd = random.Random(seed * 7919 + 13)
    pool = consts(st)
    # digits of the operands mentioned anywhere
    for n in range(tries):
        e = Env(st, rnd)
        e.pool = pool
        try:
            ok = all(e.L(c) >= 0 for c in st.cons) and all(e.C(f) for f in st.facts) and org_ok(st, e)
        except Unknown:
            continue
        except ZeroDivisionError:
            continue
        if not ok:
            continue
        cs, env = concrete(st, e)
        r = check(cs, e)
        if r is False:
            return e
    return None


def org_ok(st, e):
    """refined digits respect the size of their operand's top digit"""
    for o, segs in st.org.items():
        n, eb = ORG[o]
        n = e.L(n)
        b = e.L(eb)
        if b < 64 and n >= 1 and n <= 200:
            if e.dig(T("dig", (o, lc(n - 1)), 64)) >> b:
                return False
    return True


def concrete(st, e):
    cs = State()
    for k, v in st.env.items():
        cs.env[k] = e.V(v)
    for rid, r in st.heap.items():
        ln = r.len
        segs = r.segs
        try:
            n = e.L(r.len)
            ln = lc(n)
            if n <= 300:
                out = []
                for i in range(n):
                    x = None
                    for lo, hi, u in r.segs:
                        if e.L(lo) <= i < e.L(hi):
                            x = seg_at(u, lc(i))
                            break
                    if x is None:
                        x = T("unk", (0, "gap", r.w), r.w)
                    try:
                        x = tc(e.Tm(x), x.w)
                    except Unknown:
                        pass
                    out.append((lc(i), lc(i + 1), x))
                segs = tuple(out)
        except Unknown:
            pass
        cs.heap[rid] = r.with_(len=ln, segs=segs, cap=e.V(r.cap) if r.cap is not None else None)
    for o, (n, eb) in ORG.items():
        try:
            n = e.L(n)
        except Unknown:
            continue
        if n > 300:
            continue
        out = []
        for i in range(n):
            t = T("dig", (o, lc(i)), 64)
            try:
                out.append((lc(i), lc(i + 1), tc(e.dig(t), 128)))
            except Unknown:
                out.append((lc(i), lc(i + 1), t))
        cs.org[o] = tuple(out)
    cs.ev = st.ev
    cs.facts = frozenset()
    return cs, e


def describe(e, sc):
    """the concrete inputs of a witness"""
    out = []
    for op in sc.ops:
        w = e.L(op.width.w)
        n = e.L(op.width.n)
        v = 0
        for i in range(n):
            v |= e.dig(T("dig", (op.name, lc(i)), 64)) << (64 * i)
        out.append("%s = %#x (%d bits)" % (op.name, v, w))
    for i, s in sorted(sc.sym.items()):
        try:
            if s[0] == "width":
                out.append("target width %d" % e.L(s[1].w))
            elif s[0] in ("pos", "shift", "radix", "usize"):
                out.append("%s %d" % (s[0], e.L(s[1])))
            elif s[0] == "bool":
                out.append("arg%d = %s" % (i, e.C(s[1])))
            elif s[0] == "word":
                out.append("arg%d = %#x" % (i, e.Tm(s[1])))
            elif s[0] == "array":
                out.append("arg%d = [%s]" % (i, ", ".join(hex(e.Tm(t)) for t in s[1])))
            elif s[0] == "str":
                n = e.L(s[1])
                out.append("string of bytes [%s]" % ", ".join(str(e.dig(T("dig", (s[2], lc(j)), 8))) for j in range(min(n, 40))))
        except Unknown:
            pass
    return "; ".join(out)
