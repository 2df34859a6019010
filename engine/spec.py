"""What each public operation of apint must do (the oracle).

Every public function is mapped to a canonical operation.  An operation says
  errs   - on which inputs it fails, with which error and payload
  width  - the width of its result
  bit    - every bit of the result as a Boolean formula over the operands' bits (None: not stated bitwise)
  num    - the same result as a number, used only to confirm a concrete counterexample
Nothing here is derived from the implementation; it is the documented meaning.
"""
import re
from lin import Lin, lc, la, new_atom, ZERO, ONE, entails
from terms import T, NeedSplit, bit, f_not, f_and, f_or, f_xor, f_equal, forall, tc, fits, ones
from state import State, dig, HASH, seg_at, seg_read, ORG
from scen import APINT, INT, UINT, view


# ------------------------------------------------------------------ operand access
class In:
    """the inputs of one scenario"""

    def __init__(self, sc):
        self.sc = sc
        self.x = sc.ops[0] if sc.ops else None
        self.y = sc.ops[1] if len(sc.ops) > 1 else None
        self.tw = self.pos = self.shift = self.word = self.arr = self.flag = self.usize = self.radix = self.s = None
        for i, s in sorted(sc.sym.items()):
            if s[0] == "width":
                self.tw = s[1]
            elif s[0] == "pos":
                self.pos = s[1]
            elif s[0] == "shift":
                self.shift = s[1]
            elif s[0] == "word":
                self.word = s
            elif s[0] == "array":
                self.arr = s[1]
            elif s[0] == "bool":
                self.flag = s[1]
            elif s[0] == "usize":
                self.usize = s[1]
            elif s[0] == "radix":
                self.radix = s[1]
            elif s[0] == "str":
                self.s = s


def ob(c, op, q, r):
    """bit 64*q+r of operand op (False at and above its width)"""
    w = op.width
    if not c.decide(q):
        return False
    if not c.decide(w.n - 1 - q):
        return False
    return bit(c, dig(op.name, q), r)


def sign(c, op):
    return ob(c, op, op.width.n - 1, op.width.eb - 1)


def qr(p):
    """quotient and remainder symbols of a position 64*q+r as built by the scenario"""
    q, r = ZERO, lc(p.c)
    for a, k in p.t:
        if k % 64 == 0:
            q = q + la_id(a).scale(k // 64)
        else:
            r = r + la_id(a).scale(k)
    return q, r


def la_id(a):
    from lin import ATOMS
    return la(ATOMS[a])


class N:
    """a concrete point: numbers for all inputs"""

    def __init__(self, e, sc):
        self.e = e
        i = In(sc)
        self.i = i
        for nm, op in (("x", i.x), ("y", i.y)):
            if op is not None:
                w = e.L(op.width.w)
                n = e.L(op.width.n)
                v = 0
                for k in range(n):
                    v |= e.dig(T("dig", (op.name, lc(k)), 64)) << (64 * k)
                setattr(self, nm, v)
                setattr(self, "w" + nm, w)
        self.tw = e.L(i.tw.w) if i.tw is not None else None
        self.pos = e.L(i.pos) if i.pos is not None else None
        self.shift = e.L(i.shift) if i.shift is not None else None
        self.word = e.Tm(i.word[1]) if i.word is not None else None
        self.arr = [e.Tm(t) for t in i.arr] if i.arr is not None else None
        self.flag = e.C(i.flag) if i.flag is not None else None
        self.usize = e.L(i.usize) if i.usize is not None else None

    def s(self, v, w):
        return v - (1 << w) if v >> (w - 1) & 1 else v


# ------------------------------------------------------------------ failure conditions
class Lincond:
    """a condition on widths / positions"""

    def __init__(self, c):
        self.c = c

    def prove(self, st, val):
        return not st.assume(self.c, not val)

    def conc(self, n):
        return n.e.C(self.c)


def contradiction(c):
    """do the facts of the state contradict its (re)defined operand digits?"""
    for f in c.facts:
        c2 = c.copy()
        c2.facts = c.facts - {f}
        try:
            if f[0] == "bit":
                g = bit(c2, f[1], f[2])
                if g is True or g is False:
                    if g != f[3]:
                        return True
                continue
            if f[0] == "not":
                if c2.truth(f[1]) is True:
                    return True
            elif c2.truth(f) is False:
                return True
        except NeedSplit:
            continue
    return False


def redefine(st, name, new, lo=None, hi=None):
    """states in which the digits [lo,hi) of operand `name` are additionally known to be `new`;
    empty if that contradicts what the state knows"""
    n = ORG[name][0]
    lo = ZERO if lo is None else lo
    hi = n if hi is None else hi
    old = st.org.get(name)
    c = st.copy()
    if old:
        for a, b, u in old:
            if u.op == "dig" and u.a[0] == name:
                continue
            # some index in [a,b) and [lo,hi): the old and the new value must agree there
            k = la(new_atom("k", 0, None))
            d = st.copy()
            for l in (k - a, b - 1 - k, k - lo, hi - 1 - k):
                d.add_lin(l)
            if not d.feasible():
                continue
            v = d.truth(("teq", seg_at(u, k), seg_at(new, k)))
            if v is False and (entails(st.cons, b - a - 1) and entails(st.cons, a - lo) and entails(st.cons, hi - b)):
                return []
    from state import seg_replace
    base = old if old else ((ZERO, n, dig(name, HASH)),)
    try:
        c.org = dict(c.org)
        c.org[name] = seg_replace(c, base, lo, hi, [(lo, hi, new)], n)
    except NeedSplit as s:
        out = []
        for x in st.split(s):
            out += redefine(x, name, new, lo, hi)
        return out
    return [] if contradiction(c) else [c]


class Zero:
    """operand op is zero"""

    def __init__(self, op):
        self.op = op

    def prove(self, st, val):
        if val:
            q = la(new_atom("zq", 0, None))
            c = st.copy()
            c.add_lin(self.op.width.n - 1 - q)
            r = la(new_atom("zr", 0, 63))
            return forall(c, lambda d: ob(d, self.op, q, r) is False)
        return not redefine(st, self.op.name, tc(0, 64))

    def conc(self, n):
        return (n.y if self.op is n.i.y else n.x) == 0


class Unrep:
    """the value of op needs more than k bits"""

    def __init__(self, op, k):
        self.op, self.k = op, k

    def prove(self, st, val):
        w = self.op.width
        if not val:
            q = la(new_atom("zq", 0, None))
            r = la(new_atom("zr", 0, 63))
            n0, k0 = divmod(self.k, 64)
            c = st.copy()
            c.add_lin(w.n - 1 - q)
            c.add_lin(q - (n0 + (k0 > 0)))
            if not forall(c, lambda d: ob(d, self.op, q, r) is False):
                return False
            if not k0:
                return True
            c = st.copy()
            c.add_lin(w.n - 1 - n0)
            c.add_lin(r - k0)
            return forall(c, lambda d: ob(d, self.op, lc(n0), r) is False)
        # assume it fits and look for a contradiction
        sts = [st]
        n0 = self.k // 64
        out = []
        s = st.assume_lin(w.n - 1 - lc((self.k + 63) // 64))
        rest = []
        if s.feasible():
            rest = redefine(s, self.op.name, tc(0, 64), lc((self.k + 63) // 64), w.n)
        s2 = st.assume_lin(lc((self.k + 63) // 64) - w.n)
        if s2.feasible():
            rest.append(s2)
        for z in rest:
            if self.k % 64:
                # the digit holding position k has only k%64 bits
                d0 = dig(self.op.name, lc(n0))
                z = z.add_fact(("tlt", d0, tc(1 << (self.k % 64), 64)))
                z.add_lin(lc((1 << (self.k % 64)) - 1) - d0.lin())
                if not z.feasible() or contradiction(z) or self.clash(z, d0):
                    continue
            out.append(z)
        return not out

    def clash(self, z, d0):
        k0 = self.k % 64
        if k0 <= 3:
            no = {f[1][2].a[0] for f in z.facts if f[0] == "not" and f[1][0] == "teq" and f[1][1] is d0 and f[1][2].op == "c"}
            if no >= set(range(1 << k0)):
                return True
        # facts that say a bit above k of the digit is set
        for f in z.facts:
            if f[0] == "bit" and f[1] is d0 and f[3] and entails(z.cons, f[2] - (self.k % 64)):
                return True
        try:
            b = la(new_atom("b", self.k % 64, 63))
            for f in z.facts:
                if f[0] == "not" and f[1][0] in ("tlt",) and f[1][1] is d0 and f[1][2].op == "c" and f[1][2].a[0] <= 1 << (self.k % 64):
                    if f[1][2].a[0] == 1 << (self.k % 64):
                        return True
        except NeedSplit:
            pass
        return False

    def conc(self, n):
        return n.x >> self.k != 0


class Err:
    __slots__ = ("tag", "cond", "kind", "payload", "num")

    def __init__(self, tag, cond, kind, payload):
        self.tag, self.cond, self.kind, self.payload = tag, cond, kind, payload


def mismatch(i):
    d = i.x.width.w - i.y.width.w
    return Err("width", Lincond(("not", ("eq0", d))), "UnmatchingBitwidth",
               {"*": ("pair", (i.x.width.w, i.y.width.w))})


def badpos(i):
    return Err("pos", Lincond(("ge", i.pos - i.x.width.w)), "InvalidBitAccess",
               {"pos": ("lin", i.pos), "width": ("lin", i.x.width.w)})


def badshift(i):
    return Err("shift", Lincond(("ge", i.shift - i.x.width.w)), "InvalidShiftAmount",
               {"shift_amount": ("lin", i.shift), "width": ("lin", i.x.width.w)})


def badtrunc(i):
    return Err("cast", Lincond(("ge", i.tw.w - i.x.width.w - 1)), "TruncationBitWidthTooLarge",
               {"target": ("lin", i.tw.w), "current": ("lin", i.x.width.w)})


def badext(i):
    return Err("cast", Lincond(("ge", i.x.width.w - i.tw.w - 1)), "ExtensionBitWidthTooSmall",
               {"target": ("lin", i.tw.w), "current": ("lin", i.x.width.w)})


def divzero(tag):
    def f(i):
        return Err("div", Zero(i.y), "DivisionByZero", {"op": ("variant", tag), "lhs": ("value", i.x)})
    return f


PRIMS = {"bool": (1, False), "i8": (8, True), "u8": (8, False), "i16": (16, True), "u16": (16, False), "i32": (32, True),
         "u32": (32, False), "i64": (64, True), "u64": (64, False), "i128": (128, True), "u128": (128, False)}


def unrep(pr):
    def f(i):
        return Err("prim", Unrep(i.x, PRIMS[pr][0]), "ValueUnrepresentable",
                   {"value": ("value", i.x), "destination_ty": ("variant", pr.capitalize())})
    return f


# ------------------------------------------------------------------ operations
class Op:
    def __init__(self, name, errs=(), width="x", bit=None, num=None, res="ap", slots=None, group=""):
        self.name = name
        self.errs = errs
        self.width = width      # 'x' | 'y' | 't' | int
        self.bit = bit
        self.num = num
        self.res = res          # 'ap' value | 'bool' | 'int' | 'ord' | None
        self.slots = slots
        self.group = group


def M(w):
    return (1 << w) - 1


OPS = {}


def op(name, **k):
    OPS[name] = Op(name, **k)


def b2(f):
    return lambda c, i, q, r: f(ob(c, i.x, q, r), ob(c, i.y, q, r))


MM = (mismatch,)
op("and", errs=MM, bit=b2(f_and), num=lambda n: n.x & n.y, group="bitwise")
op("or", errs=MM, bit=b2(f_or), num=lambda n: n.x | n.y, group="bitwise")
op("xor", errs=MM, bit=b2(f_xor), num=lambda n: n.x ^ n.y, group="bitwise")
op("not", bit=lambda c, i, q, r: f_not(ob(c, i.x, q, r)), num=lambda n: ~n.x & M(n.wx), group="bitwise")
op("set_all", bit=lambda c, i, q, r: True, num=lambda n: M(n.wx), group="bitwise")
op("unset_all", bit=lambda c, i, q, r: False, num=lambda n: 0, group="bitwise")
op("flip_all", bit=lambda c, i, q, r: f_not(ob(c, i.x, q, r)), num=lambda n: ~n.x & M(n.wx), group="bitwise")


def at_pos(val):
    def f(c, i, q, r):
        pq, pr = qr(i.pos)
        b = ob(c, i.x, q, r)
        if c.decide_eq(q, pq) and c.decide_eq(r, pr):
            return f_not(b) if val is None else val
        return b
    return f


def at_msb(val):
    def f(c, i, q, r):
        b = ob(c, i.x, q, r)
        w = i.x.width
        if c.decide_eq(q, w.n - 1) and c.decide_eq(r, w.eb - 1):
            return f_not(b) if val is None else val
        return b
    return f


PP = (badpos,)
op("set", errs=PP, bit=at_pos(True), num=lambda n: n.x | 1 << n.pos, group="bitwise")
op("unset", errs=PP, bit=at_pos(False), num=lambda n: n.x & ~(1 << n.pos), group="bitwise")
op("flip", errs=PP, bit=at_pos(None), num=lambda n: n.x ^ 1 << n.pos, group="bitwise")
op("get", errs=PP, res="bool", bit=lambda c, i: ob(c, i.x, *qr(i.pos)), num=lambda n: bool(n.x >> n.pos & 1), group="bitwise")
op("set_msb", bit=at_msb(True), num=lambda n: n.x | 1 << n.wx - 1, group="bitwise")
op("unset_msb", bit=at_msb(False), num=lambda n: n.x & ~(1 << n.wx - 1), group="bitwise")
op("flip_msb", bit=at_msb(None), num=lambda n: n.x ^ 1 << n.wx - 1, group="bitwise")


def minus(c, q, r, pq, pr):
    """digit and bit of position (64q+r) - (64pq+pr)"""
    if c.decide(r - pr):
        return q - pq, r - pr
    return q - pq - 1, r - pr + 64


def plus(c, q, r, pq, pr):
    if c.decide(lc(63) - r - pr):
        return q + pq, r + pr
    return q + pq + 1, r + pr - 64


def shl_bit(c, i, q, r):
    pq, pr = qr(i.shift)
    a, b = minus(c, q, r, pq, pr)
    return ob(c, i.x, a, b)


def lshr_bit(c, i, q, r):
    pq, pr = qr(i.shift)
    return ob(c, i.x, *plus(c, q, r, pq, pr))


def ashr_bit(c, i, q, r):
    pq, pr = qr(i.shift)
    a, b = plus(c, q, r, pq, pr)
    w = i.x.width
    if c.decide(w.w - 1 - (a.scale(64) + b)):
        return ob(c, i.x, a, b)
    return sign(c, i.x)


SS = (badshift,)
op("shl", errs=SS, bit=shl_bit, num=lambda n: n.x << n.shift & M(n.wx), group="shift")
op("lshr", errs=SS, bit=lshr_bit, num=lambda n: n.x >> n.shift, group="shift")
op("ashr", errs=SS, bit=ashr_bit, num=lambda n: n.s(n.x, n.wx) >> n.shift & M(n.wx), group="shift")


def keep(c, i, q, r):
    return ob(c, i.x, q, r)


def sext_bit(c, i, q, r):
    w = i.x.width
    if c.decide(w.w - 1 - (q.scale(64) + r)):
        return ob(c, i.x, q, r)
    return sign(c, i.x)


op("trunc", errs=(badtrunc,), width="t", bit=keep, num=lambda n: n.x & M(n.tw), group="cast")
op("zext", errs=(badext,), width="t", bit=keep, num=lambda n: n.x, group="cast")
op("sext", errs=(badext,), width="t", bit=sext_bit, num=lambda n: n.s(n.x, n.wx) & M(n.tw), group="cast")
op("zres", width="t", bit=keep, num=lambda n: n.x & M(n.tw), group="cast")
op("sres", width="t", bit=sext_bit, num=lambda n: n.s(n.x, n.wx) & M(n.tw), group="cast")
op("assign", width="y", bit=lambda c, i, q, r: ob(c, i.y, q, r), num=lambda n: n.y, group="assign")
op("strict_assign", errs=MM, width="y", bit=lambda c, i, q, r: ob(c, i.y, q, r), num=lambda n: n.y, group="assign")
op("same", bit=keep, num=lambda n: n.x, group="same")

op("zero", width="t", bit=lambda c, i, q, r: False, num=lambda n: 0, group="ctor")
op("one", width="t", bit=lambda c, i, q, r: c.decide_eq(q, ZERO) and c.decide_eq(r, ZERO), num=lambda n: 1, group="ctor")
op("ones", width="t", bit=lambda c, i, q, r: True, num=lambda n: M(n.tw), group="ctor")


def msb_only(v):
    def f(c, i, q, r):
        hit = c.decide_eq(q, i.tw.n - 1) and c.decide_eq(r, i.tw.eb - 1)
        return v if hit else not v
    return f


op("smin", width="t", bit=msb_only(True), num=lambda n: 1 << n.tw - 1, group="ctor")
op("smax", width="t", bit=msb_only(False), num=lambda n: M(n.tw) >> 1, group="ctor")
op("oneopt", width="t", bit=OPS["one"].bit, num=lambda n: 1, group="ctor")
op("random", width="t", group="random")
op("randomize", group="random")


def from_word(c, i, q, r):
    if i.flag is not None:
        v = c.truth(i.flag)
        hit = c.decide_eq(q, ZERO) and c.decide_eq(r, ZERO)
        return (v if v is not None else ("c", i.flag)) if hit else False
    return bit(c, i.word[1], q.scale(64) + r)


def from_arr(c, i, q, r):
    n = len(i.arr)
    for k in range(n):
        if c.decide_eq(q, lc(k)):
            return bit(c, i.arr[n - 1 - k], r)
    return False


for pr, (k, s) in PRIMS.items():
    op("from_" + pr, width=k, bit=from_word, num=lambda n: int(n.flag) if n.flag is not None else n.word, group="prim")

    def resize_bit(k, s):
        def f(c, i, p):
            # bit p of the primitive
            q, r = (ZERO, p) if c.decide(lc(63) - p) else (ONE, p - 64)
            return sext_bit(c, i, q, r) if s else keep(c, i, q, r)
        return f

    op("resize_to_" + pr, res=("int", k), bit=resize_bit(k, s),
       num=(lambda k, s: lambda n: (n.s(n.x, n.wx) if s else n.x) & M(k))(k, s), group="prim")
    op("try_to_" + pr, errs=(unrep(pr),), res=("int", k), bit=resize_bit(k, s),
       num=(lambda k, s: lambda n: (n.s(n.x, n.wx) if s and n.wx < k else n.x) & M(k))(k, s), group="prim")
for k in (2, 3, 4, 5, 6, 7, 8, 16, 32):
    op("from_arr%d" % k, width=64 * k, bit=from_arr,
       num=lambda n: sum(d << 64 * j for j, d in enumerate(reversed(n.arr))), group="prim")

# arithmetic (bits not stated; the number is used to confirm counterexamples of other properties only)
op("add", errs=MM, num=lambda n: n.x + n.y & M(n.wx), group="arith")
op("sub", errs=MM, num=lambda n: n.x - n.y & M(n.wx), group="arith")
op("mul", errs=MM, num=lambda n: n.x * n.y & M(n.wx), group="arith")
op("neg", num=lambda n: -n.x & M(n.wx), group="arith")
op("inc", num=lambda n: n.x + 1 & M(n.wx), group="arith")
op("dec", num=lambda n: n.x - 1 & M(n.wx), group="arith")
op("abs", num=lambda n: abs(n.s(n.x, n.wx)) & M(n.wx), group="arith")


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def sq(n):
    return tdiv(n.s(n.x, n.wx), n.s(n.y, n.wy)) & M(n.wx)


def sr(n):
    a, b = n.s(n.x, n.wx), n.s(n.y, n.wy)
    return (a - tdiv(a, b) * b) & M(n.wx)


def uq(n):
    return n.x // n.y


def ur(n):
    return n.x % n.y


op("udiv", errs=(mismatch, divzero("UnsignedDiv")), num=uq, group="div")
op("urem", errs=(mismatch, divzero("UnsignedRem")), num=ur, group="div")
op("sdiv", errs=(mismatch, divzero("SignedDiv")), num=sq, group="div")
op("srem", errs=(mismatch, divzero("SignedRem")), num=sr, group="div")
op("udivrem", errs=(mismatch, divzero("UnsignedDivRem")), num=(uq, ur), slots=("x", "y"), group="div")
op("uremdiv", errs=(mismatch, divzero("UnsignedRemDiv")), num=(ur, uq), slots=("x", "y"), group="div")
op("sdivrem", errs=(mismatch, divzero("SignedDivRem")), num=(sq, sr), slots=("x", "y"), group="div")
op("sremdiv", errs=(mismatch, divzero("SignedRemDiv")), num=(sr, sq), slots=("x", "y"), group="div")

# predicates, comparisons, counts
op("is_zero", res="bool", num=lambda n: n.x == 0, group="pred")
op("is_one_int", res="bool", num=lambda n: n.x == 1 and n.wx > 1, group="pred")
op("is_one", res="bool", num=lambda n: n.x == 1, group="pred")
op("is_all_set", res="bool", num=lambda n: n.x == M(n.wx), group="pred")
op("is_even", res="bool", bit=lambda c, i: f_not(ob(c, i.x, ZERO, ZERO)), num=lambda n: n.x & 1 == 0, group="pred")
op("is_odd", res="bool", bit=lambda c, i: ob(c, i.x, ZERO, ZERO), num=lambda n: n.x & 1 == 1, group="pred")
op("msb", res="bool", bit=lambda c, i: sign(c, i.x), num=lambda n: bool(n.x >> n.wx - 1), group="pred")
op("not_msb", res="bool", bit=lambda c, i: f_not(sign(c, i.x)), num=lambda n: not n.x >> n.wx - 1, group="pred")
op("signum", res=("int", 8), num=lambda n: 0 if n.x == 0 else 255 if n.x >> n.wx - 1 else 1, group="pred")
for nm, f in (("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b), ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b)):
    op("u" + nm, errs=MM, res="bool", num=(lambda f: lambda n: f(n.x, n.y))(f), group="cmp")
    op("s" + nm, errs=MM, res="bool", num=(lambda f: lambda n: f(n.s(n.x, n.wx), n.s(n.y, n.wy)))(f), group="cmp")
    op("pu" + nm, res="bool", num=(lambda f: lambda n: n.wx == n.wy and f(n.x, n.y))(f), group="cmp")
    op("ps" + nm, res="bool", num=(lambda f: lambda n: n.wx == n.wy and f(n.s(n.x, n.wx), n.s(n.y, n.wy)))(f), group="cmp")
op("pucmp", res="ord", num=lambda n: None if n.wx != n.wy else (n.x > n.y) - (n.x < n.y), group="cmp")
op("pscmp", res="ord", num=lambda n: None if n.wx != n.wy else (n.s(n.x, n.wx) > n.s(n.y, n.wy)) - (n.s(n.x, n.wx) < n.s(n.y, n.wy)), group="cmp")
op("eq", res="bool", num=lambda n: n.wx == n.wy and n.x == n.y, group="eq")
op("width", res=("w",), num=lambda n: n.wx, group="width")
op("popcnt", res=("int", 64), num=lambda n: bin(n.x).count("1"), group="count")
op("zeros", res=("int", 64), num=lambda n: n.wx - bin(n.x).count("1"), group="count")
op("clz", res=("int", 64), num=lambda n: n.wx - n.x.bit_length(), group="count")
op("ctz", res=("int", 64), num=lambda n: (n.x & -n.x).bit_length() - 1 if n.x else n.wx, group="count")
op("hash", res=None, group="hash")
op("parse", width=None, group="parse")

# ------------------------------------------------------------------ names
BASE = {
    "wrapping_inc": "inc", "into_wrapping_inc": "inc", "wrapping_dec": "dec", "into_wrapping_dec": "dec",
    "wrapping_neg": "neg", "into_wrapping_neg": "neg", "wrapping_abs": "abs", "into_abs": "abs",
    "bitnot": "not", "into_bitnot": "not",
    "get_bit_at": "get", "set_bit_at": "set", "unset_bit_at": "unset", "flip_bit_at": "flip",
    "set_all": "set_all", "unset_all": "unset_all", "flip_all": "flip_all",
    "set_msb": "set_msb", "unset_msb": "unset_msb", "flip_msb": "flip_msb",
    "is_all_set": "is_all_set", "is_all_unset": "is_zero", "is_zero": "is_zero", "is_one": "is_one", "is_even": "is_even",
    "is_odd": "is_odd", "msb": "msb", "lsb": "is_odd", "is_negative": "msb", "is_positive": "not_msb", "signum": "signum",
    "count_ones": "popcnt", "count_zeros": "zeros", "leading_zeros": "clz", "trailing_zeros": "ctz",
    "assign": "assign", "strict_assign": "strict_assign",
    "zero": "zero", "one": "one", "all_unset": "zero", "all_set": "ones",
    "unsigned_min_value": "zero", "unsigned_max_value": "ones", "signed_min_value": "smin", "signed_max_value": "smax",
    "into_apint": "same", "into_signed": "same", "into_unsigned": "same",
    "random_with_width": "random", "random_with_width_using": "random", "randomize": "randomize", "randomize_using": "randomize",
    "from_str_radix": "parse",
}
for o in ("add", "sub", "mul"):
    BASE["wrapping_%s_assign" % o] = BASE["into_wrapping_" + o] = o
for o in ("and", "or", "xor"):
    BASE["bit%s_assign" % o] = BASE["into_bit" + o] = o
for o in ("udiv", "urem", "sdiv", "srem"):
    BASE["wrapping_%s_assign" % o] = BASE["into_wrapping_" + o] = o
for o in ("udivrem", "uremdiv", "sdivrem", "sremdiv"):
    BASE["wrapping_%s_assign" % o] = o
for o in ("shl", "lshr", "ashr"):
    BASE["wrapping_%s_assign" % o] = BASE["into_wrapping_" + o] = o
for o, t in (("truncate", "trunc"), ("zero_extend", "zext"), ("sign_extend", "sext"), ("zero_resize", "zres"), ("sign_resize", "sres")):
    BASE[o] = BASE["into_" + o] = t
for o in ("ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"):
    BASE["checked_" + o] = o
for pr in PRIMS:
    BASE["from_" + pr] = "from_" + pr
    BASE["resize_to_" + pr] = "resize_to_" + pr
    BASE["try_to_" + pr] = "try_to_" + pr
TR = {"Add": "add", "Sub": "sub", "Mul": "mul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "Neg": "neg", "Not": "not", "Shl": "shl"}


def signed(ty, name):
    """canonical operation of an Int (signed) / UInt (unsigned) method"""
    s = ty == "Int"
    m = {}
    for o in ("div", "rem"):
        m["wrapping_%s_assign" % o] = m["into_wrapping_" + o] = ("s" if s else "u") + o
    m["wrapping_shr_assign"] = m["into_wrapping_shr"] = "ashr" if s else "lshr"
    m["extend"] = m["into_extend"] = "sext" if s else "zext"
    m["resize"] = m["into_resize"] = "sres" if s else "zres"
    for o in ("lt", "le", "gt", "ge"):
        m["checked_" + o] = ("s" if s else "u") + o
    m["min_value"] = "smin" if s else "zero"
    m["max_value"] = "smax" if s else "ones"
    if s:
        m["one"] = "oneopt"
        m["is_one"] = "is_one_int"
    return m.get(name) or BASE.get(name)


class Fn:
    """a public function under a specification"""
    __slots__ = ("key", "f", "ty", "trait", "name", "op", "panics", "label", "consume", "ret")

    def __init__(self, p, key, ty, trait, opname):
        self.key = key
        self.f = p.fns[key]
        self.ty = ty
        self.trait = trait
        self.name = self.f.d["name"]
        self.op = OPS[opname]
        self.panics = "std::ops::" in trait
        self.label = "%s::%s" % (ty, self.name) if not trait or trait == "-" else "<%s as %s>::%s" % (ty, short(trait), self.name)


def short(t):
    return re.sub(r"(?:[a-z_]\w*::)+", "", t).replace("'a ", "")


def table(p):
    """all exported functions with a specification, and the labels of those without"""
    out, rest = [], []
    for k in p.roots:
        f = p.fns[k]
        if not f.d.get("exported"):
            continue
        ty = (f.d.get("impl_self") or "-").split("::")[-1]
        tr = f.d.get("impl_trait") or "-"
        nm = f.d["name"]
        o = None
        if ty in ("ApInt", "Int", "UInt"):
            if tr == "-":
                o = BASE.get(nm) if ty == "ApInt" else signed(ty, nm)
            else:
                m = re.match(r"std::ops::(\w+?)(Assign)?(?:<|$)", tr)
                if m and m.group(1) in TR:
                    o = TR[m.group(1)]
                elif m and m.group(1) in ("Div", "Rem"):
                    o = ("s" if ty == "Int" else "u") + m.group(1).lower()
                elif m and m.group(1) == "Shr":
                    o = "ashr" if ty == "Int" else "lshr"
                elif tr.endswith("Clone") or tr.endswith("From<apint::apint::ApInt>"):
                    o = "same"
                elif tr.endswith("PartialEq"):
                    o = "eq" if nm == "eq" else None
                elif tr.endswith("::Width"):
                    o = "width"
                elif tr.endswith("Hash"):
                    o = "hash"
                elif tr.endswith("PartialOrd"):
                    o = "p" + ("s" if ty == "Int" else "u") + (nm if nm != "partial_cmp" else "cmp")
                elif "convert::From<[" in tr:
                    o = "from_arr" + re.search(r"; (\d+)\]", tr).group(1)
                elif "convert::From<" in tr:
                    a = re.search(r"From<(\w+)>", tr)
                    o = "from_" + a.group(1) if a and a.group(1) in PRIMS else None
        if o is None or o not in OPS:
            rest.append(k)
            continue
        out.append(Fn(p, k, ty, tr, o))
    return out, rest
