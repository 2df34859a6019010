"""Hash-consed terms for machine words and their bit-level meaning.

All integers are represented by their unsigned bit pattern.  A word value is a
Lin; a Lin that is a single atom whose atom carries a term T stands for that
term.  `bit` gives the meaning of one (symbolic) bit of a term as a Boolean
formula over bits of leaves; `fits` decides an upper bound of the bit length.
"""
from lin import Lin, ATOMS, new_atom, la, lc, entails, entails_eq, ZERO


class NeedSplit(Exception):
    """a decision on  lin >= 0  (or on a condition) is needed"""

    def __init__(self, lin=None, cond=None):
        self.lin = lin
        self.cond = cond


class T:
    __slots__ = ("op", "a", "w", "id", "_atom", "h")
    tab = {}

    def __new__(cls, op, a, w):
        k = (op, a, w)
        r = cls.tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op = op
            r.a = a
            r.w = w
            r.id = len(cls.tab)
            r._atom = None
            r.h = hash(("T", r.id))
            cls.tab[k] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def lin(self):
        if self.op == "c":
            return lc(self.a[0])
        if self.op == "lin":
            return self.a[0]
        if self._atom is None:
            b = const_bits(self)
            self._atom = new_atom(self, 0, self.a[0].w if self.op in ("popcnt", "clz", "ctz") else (1 << b) - 1, self)
        return la(self._atom)

    def __repr__(self):
        if self.op == "c":
            v = self.a[0]
            return hex(v) if v > 255 else str(v)
        if self.op == "dig":
            return "%s[%s]" % (self.a[0], self.a[1])
        return "%s(%s)" % (self.op, ",".join(map(str, self.a)))


def const_bits(t):
    """cheap constant upper bound for the bit length"""
    o = t.op
    if o == "c":
        return t.a[0].bit_length()
    if o == "and":
        return min(const_bits(t.a[0]), const_bits(t.a[1]))
    if o in ("or", "xor"):
        return max(const_bits(t.a[0]), const_bits(t.a[1]))
    if o == "ite":
        return max(const_bits(t.a[1]), const_bits(t.a[2]))
    if o == "shr":
        b = const_bits(t.a[0])
        k = t.a[1]
        if k.is_const():
            return max(0, b - k.c)
        return b
    if o == "shl":
        k = t.a[1]
        if k.is_const():
            return min(t.w, const_bits(t.a[0]) + k.c)
        return t.w
    if o == "trunc":
        return min(t.w, const_bits(t.a[0]))
    if o in ("popcnt", "clz", "ctz"):
        return t.a[0].w.bit_length()
    if o == "udiv":
        return const_bits(t.a[0])
    if o == "urem":
        return min(const_bits(t.a[0]), const_bits(t.a[1]))
    if o == "b2i":
        return 1
    if o == "wadd":
        return min(t.w, max(const_bits(t.a[0]), const_bits(t.a[1])) + 1)
    if o == "wmul":
        return min(t.w, const_bits(t.a[0]) + const_bits(t.a[1]))
    if o == "lin":
        lo, hi = t.a[0].range()
        if lo is not None and lo >= 0 and hi is not None:
            return hi.bit_length()
        return t.w
    return t.w


def tc(v, w):
    return T("c", (v & ((1 << w) - 1),), w)


def as_term(l, w):
    if isinstance(l, T):
        return l
    if not l.t:
        return tc(l.c, w)
    a = l.atom()
    if a is not None and a.term is not None:
        return a.term
    return T("lin", (l,), w)


def is_c(t, v=None):
    return t.op == "c" and (v is None or t.a[0] == v)


def ones(w):
    return (1 << w) - 1


def mk(op, x, y, w):
    """binary bit operation on terms"""
    if x.op == "c" and y.op == "c":
        a, b = x.a[0], y.a[0]
        r = {"and": a & b, "or": a | b, "xor": a ^ b}[op]
        return tc(r, w)
    if x.op == "c":
        x, y = y, x
    if y.op == "c":
        v = y.a[0]
        if op == "and":
            if v == 0:
                return tc(0, w)
            if v == ones(w):
                return x
            if v & (v + 1) == 0 and const_bits(x) <= v.bit_length():
                return x
        elif op == "or":
            if v == 0:
                return x
            if v == ones(w):
                return tc(v, w)
        else:
            if v == 0:
                return x
            if v == ones(w):
                return mk_not(x, w)
    if x is y:
        return x if op != "xor" else tc(0, w)
    if y.op != "c" and x.id > y.id:
        x, y = y, x
    return T(op, (x, y), w)


def mk_not(x, w):
    if x.op == "c":
        return tc(~x.a[0], w)
    if x.op == "not" and x.w == w:
        return x.a[0]
    return T("not", (x,), w)


def mk_shl(x, k, w):
    if k.is_const():
        if k.c == 0:
            return x
        if k.c >= w:
            return tc(0, w)
        if x.op == "c":
            return tc(x.a[0] << k.c, w)
        if x.op == "shl" and x.w == w and x.a[1].is_const():
            return mk_shl(x.a[0], x.a[1] + k, w)
    if is_c(x, 0):
        return x
    return T("shl", (x, k), w)


def mk_shr(x, k, w):
    if k.is_const():
        if k.c == 0:
            return x
        if k.c >= const_bits(x):
            return tc(0, w)
        if x.op == "c":
            return tc(x.a[0] >> k.c, w)
        if x.op == "shr" and x.a[1].is_const():
            return mk_shr(x.a[0], x.a[1] + k, w)
        if x.op == "or":
            # (lo | hi << 64) >> 64
            return mk("or", mk_shr(x.a[0], k, w), mk_shr(x.a[1], k, w), w)
        if x.op == "shl" and x.a[1].is_const() and const_bits(x.a[0]) + x.a[1].c <= x.w:
            d = x.a[1].c - k.c
            return mk_shl(x.a[0], lc(d), w) if d >= 0 else mk_shr(x.a[0], lc(-d), w)
    if is_c(x, 0):
        return x
    return T("shr", (x, k), w)


def mk_trunc(x, w):
    if x.op == "c":
        return tc(x.a[0], w)
    if const_bits(x) <= w:
        return x
    if x.op == "or":
        return mk("or", mk_trunc(x.a[0], w), mk_trunc(x.a[1], w), w)
    if x.op == "and":
        return mk("and", mk_trunc(x.a[0], w), mk_trunc(x.a[1], w), w)
    if x.op == "xor":
        return mk("xor", mk_trunc(x.a[0], w), mk_trunc(x.a[1], w), w)
    if x.op == "shl" and x.a[1].is_const() and x.a[1].c >= w:
        return tc(0, w)
    if x.op == "trunc":
        return mk_trunc(x.a[0], w)
    if x.op == "sext" and x.a[1] >= w:
        return mk_trunc(x.a[0], w)
    return T("trunc", (x,), w)


def mk_sext(x, fw, w):
    if x.op == "c":
        v = x.a[0]
        if v >> (fw - 1) & 1:
            v |= ones(w) ^ ones(fw)
        return tc(v, w)
    if const_bits(x) < fw:
        return x
    return T("sext", (x, fw), w)


_UNK = [0]


def unk(w, why="", bits=None):
    _UNK[0] += 1
    return T("unk", (_UNK[0], why, w if bits is None else bits), w)


# ---------------------------------------------------------------- substitution
def subst_t(t, m, memo=None):
    """substitute atoms (id -> Lin) in all Lins below t"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = t
    if t.op == "c" or t.op == "unk":
        pass
    else:
        na = tuple(subst_any(x, m, memo) for x in t.a)
        if any(x is not y and x != y for x, y in zip(na, t.a)):
            r = rebuild(t.op, na, t.w)
    memo[t] = r
    return r


def subst_any(x, m, memo=None):
    if isinstance(x, T):
        return subst_t(x, m, memo)
    if isinstance(x, Lin):
        return subst_lin(x, m, memo)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m, memo) for y in x)
    return x


def subst_lin(l, m, memo=None):
    if not l.t:
        return l
    r = None
    for a, k in l.t:
        n = m.get(a)
        if n is None:
            tm = ATOMS[a].term
            if tm is not None:
                nt = subst_t(tm, m, memo)
                if nt is not tm:
                    n = nt.lin()
        if n is not None:
            if r is None:
                r = {}
            r[a] = n
    if r is None:
        return l
    return l.subst(r)


REC = {}     # loop-carried words: id -> {"init": value at 1, "step": value at kid + 1 in terms of the value at kid}


def mk_rec(rid, k, w):
    """the value of a loop-carried word when its loop is entered for the k-th time"""
    d = REC[rid]
    if k.is_const():
        if k.c == 1:
            return d["init"]
        if 1 < k.c <= 4 and d["step"] is not None:
            return subst_t(d["step"], {d["kid"]: k - 1})
    return T("rec", (rid, k), w)


def has_op(t, ops, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, T):
        if t in seen:
            return False
        seen.add(t)
        return t.op in ops or any(has_op(x, ops, seen) for x in t.a)
    if isinstance(t, Lin):
        return any(ATOMS[a].term is not None and has_op(ATOMS[a].term, ops, seen) for a, _ in t.t)
    if isinstance(t, tuple):
        return any(has_op(x, ops, seen) for x in t)
    return False


def free_atoms(t, out, seen=None):
    """atoms that are not terms, below t"""
    if seen is None:
        seen = set()
    if isinstance(t, T):
        if t not in seen:
            seen.add(t)
            for x in t.a:
                free_atoms(x, out, seen)
    elif isinstance(t, Lin):
        for a, _ in t.t:
            if ATOMS[a].term is not None:
                free_atoms(ATOMS[a].term, out, seen)
            else:
                out.add(a)
    elif isinstance(t, tuple):
        for x in t:
            free_atoms(x, out, seen)
    return out


def rebuild(op, a, w):
    if op == "rec":
        return mk_rec(a[0], a[1], w)
    if op in ("and", "or", "xor"):
        return mk(op, a[0], a[1], w)
    if op == "not":
        return mk_not(a[0], w)
    if op == "shl":
        return mk_shl(a[0], a[1], w)
    if op == "shr":
        return mk_shr(a[0], a[1], w)
    if op == "trunc":
        return mk_trunc(a[0], w)
    if op == "sext":
        return mk_sext(a[0], a[1], w)
    if op == "lin":
        return as_term(a[0], w)
    return T(op, a, w)


# ---------------------------------------------------------------- bit-level meaning
def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "n":
        return f[1]
    return ("n", f)


def f_and(f, g):
    if f is False or g is False:
        return False
    if f is True:
        return g
    if g is True:
        return f
    return ("&", f, g)


def f_or(f, g):
    return f_not(f_and(f_not(f), f_not(g)))


def f_xor(f, g):
    if f is False:
        return g
    if g is False:
        return f
    if f is True:
        return f_not(g)
    if g is True:
        return f_not(f)
    return ("^", f, g)


def single_bit(ctx, t):
    """position of the only set bit if t is 1<<p (p < w), else None"""
    if t.op == "c":
        v = t.a[0]
        if v and v & (v - 1) == 0:
            return lc(v.bit_length() - 1)
        return None
    if t.op == "shl" and is_c(t.a[0], 1):
        if ctx.decide(lc(t.w - 1) - t.a[1]):
            return t.a[1]
        return None
    if t.op == "shr" and t.a[0].op == "c":
        v = t.a[0].a[0]
        if v and v & (v - 1) == 0:
            p = lc(v.bit_length() - 1) - t.a[1]
            if ctx.decide(p):
                return p
    return None


def bit(ctx, t, j, d=0):
    if d > 60:
        return ("a", t, j)
    if j.is_const() and j.c < 0:
        return False
    o = t.op
    if o == "c":
        v = t.a[0]
        if j.is_const():
            return bool(v >> j.c & 1)
        p = 0
        runs = []
        while v >> p:
            if v >> p & 1:
                s = p
                while v >> p & 1:
                    p += 1
                runs.append((s, p))
            else:
                p += 1
        for s, e in runs:
            if s == 0 or ctx.decide(j - s):
                if ctx.decide(lc(e - 1) - j):
                    return True
            else:
                return False
        return False
    if o == "and":
        f = bit(ctx, t.a[0], j, d + 1)
        if f is False:
            return False
        return f_and(f, bit(ctx, t.a[1], j, d + 1))
    if o == "or":
        f = bit(ctx, t.a[0], j, d + 1)
        if f is True:
            return True
        return f_or(f, bit(ctx, t.a[1], j, d + 1))
    if o == "xor":
        return f_xor(bit(ctx, t.a[0], j, d + 1), bit(ctx, t.a[1], j, d + 1))
    if o == "not":
        if not ctx.decide(lc(t.w - 1) - j):
            return False
        return f_not(bit(ctx, t.a[0], j, d + 1))
    if o == "shl":
        if not ctx.decide(lc(t.w - 1) - j):
            return False
        if not ctx.decide(j - t.a[1]):
            return False
        return bit(ctx, t.a[0], j - t.a[1], d + 1)
    if o == "shr":
        return bit(ctx, t.a[0], j + t.a[1], d + 1)
    if o == "ashr":
        if not ctx.decide(lc(t.w - 1) - j):
            return False
        if ctx.decide(lc(t.w - 1) - j - t.a[1]):
            return bit(ctx, t.a[0], j + t.a[1], d + 1)
        return bit(ctx, t.a[0], lc(t.w - 1), d + 1)
    if o == "trunc":
        if not ctx.decide(lc(t.w - 1) - j):
            return False
        return bit(ctx, t.a[0], j, d + 1)
    if o == "sext":
        fw = t.a[1]
        if ctx.decide(lc(fw - 1) - j):
            return bit(ctx, t.a[0], j, d + 1)
        if not ctx.decide(lc(t.w - 1) - j):
            return False
        return bit(ctx, t.a[0], lc(fw - 1), d + 1)
    if o == "wsub":
        x, y = t.a
        p = single_bit(ctx, y)
        if p is not None:
            if x.op == "xor" and y in x.a:
                z = x.a[1] if x.a[0] is y else x.a[0]
                if fits(ctx, z, p + 1):
                    if not ctx.decide(lc(t.w - 1) - j):
                        return False
                    if ctx.decide(p - j):
                        return bit(ctx, z, j, d + 1)
                    return bit(ctx, z, p, d + 1)
            if is_c(y, 1):
                r = _minus_one(ctx, x, j, t.w)
                if r is not None:
                    return r
    if o == "wadd" and is_c(t.a[1], ones(t.w)):
        r = _minus_one(ctx, t.a[0], j, t.w)
        if r is not None:
            return r
    if o == "lin":
        l = t.a[0]
        if l.c == -1 and len(l.t) == 1 and l.t[0][1] == 1 and ATOMS[l.t[0][0]].term is not None:
            r = _minus_one(ctx, ATOMS[l.t[0][0]].term, j, t.w)
            if r is not None:
                return r
        lo, hi = l.range()
        if hi is not None and lo is not None and lo >= 0 and not ctx.decide(lc(hi.bit_length() - 1) - j):
            return False
    if o == "ite":
        v = ctx.truth(t.a[0])
        if v is None:
            raise NeedSplit(cond=t.a[0])
        return bit(ctx, t.a[1] if v else t.a[2], j, d + 1)
    if o == "b2i":
        if not ctx.decide(lc(0) - j):
            return False
        v = ctx.truth(t.a[0])
        if v is not None:
            return v
        return ("c", t.a[0])
    if o == "dig":
        r = ctx.resolve_dig(t)
        if r is not t:
            return bit(ctx, r, j, d + 1)
        b = ctx.dig_bits(t)
        if not ctx.decide(b - 1 - j):
            return False
        f = ctx.bit_fact(t, j)
        if f is not None:
            return f
        return ("a", t, j)
    v = ctx.term_const(t)
    if v is not None:
        return bit(ctx, tc(v, t.w), j, d + 1)
    b = const_bits(t)
    if o == "unk":
        b = t.a[2]
    if isinstance(b, int):
        b = lc(b)
    if not ctx.decide(b - 1 - j):
        return False
    f = ctx.bit_fact(t, j)
    if f is not None:
        return f
    return ("a", t, j)


def _minus_one(ctx, x, j, w):
    """bit j of x - 1 where x is a power of two or zero"""
    if x.op == "shl" and is_c(x.a[0], 1):
        if ctx.decide(lc(w - 1) - x.a[1]):
            return ctx.decide(x.a[1] - j - 1)
        return ctx.decide(lc(w - 1) - j)  # 0 - 1
    p = single_bit(ctx, x)
    if p is not None:
        return ctx.decide(p - j - 1)
    return None


def f_atoms(f, out):
    if f is True or f is False:
        return
    if f[0] in ("a", "c"):
        if f not in out:
            out.append(f)
    else:
        for g in f[1:]:
            f_atoms(g, out)


def f_eval(f, env):
    if f is True or f is False:
        return f
    k = f[0]
    if k in ("a", "c"):
        return env[f]
    if k == "n":
        return not f_eval(f[1], env)
    if k == "&":
        return f_eval(f[1], env) and f_eval(f[2], env)
    return f_eval(f[1], env) != f_eval(f[2], env)


def f_equal(ctx, f, g):
    """logical equivalence of two formulas, atoms compared under ctx"""
    if f is g:
        return True
    at = []
    f_atoms(f, at)
    f_atoms(g, at)
    cls = []
    rep = {}
    for a in at:
        for c in cls:
            if a[0] == c[0] == "a" and same_term(ctx, a[1], c[1]) and ctx.decide_eq(a[2], c[2]):
                rep[a] = c
                break
            if a == c:
                rep[a] = c
                break
        else:
            cls.append(a)
            rep[a] = a
    if len(cls) > 10:
        return False
    for n in range(1 << len(cls)):
        ev = {c: bool(n >> i & 1) for i, c in enumerate(cls)}
        env = {a: ev[rep[a]] for a in at}
        if f_eval(f, env) != f_eval(g, env):
            return False
    return True


def same_term(ctx, s, t):
    """structural equality, Lins compared under ctx (may raise NeedSplit)"""
    if s is t:
        return True
    if s.op == "dig":
        r = ctx.resolve_dig(s)
        if r is not s:
            return same_term(ctx, r, t)
    if t.op == "dig":
        r = ctx.resolve_dig(t)
        if r is not t:
            return same_term(ctx, s, r)
    if s.op != t.op or len(s.a) != len(t.a):
        return False
    if s.op in ("c", "unk"):
        return s.a == t.a
    for x, y in zip(s.a, t.a):
        if isinstance(x, T):
            if not isinstance(y, T) or not same_term(ctx, x, y):
                return False
        elif isinstance(x, Lin):
            if not isinstance(y, Lin) or not lin_same(ctx, x, y):
                return False
        elif x != y:
            return False
    return True


def lin_same(ctx, x, y):
    if x is y:
        return True
    if entails_eq(ctx.cons, x, y):
        return True
    if any(ATOMS[a].term is not None for a, _ in x.t + y.t):
        ax, ay = x.atom(), y.atom()
        if ax is not None and ay is not None and ax.term is not None and ay.term is not None:
            return same_term(ctx, ax.term, ay.term)
        return False
    return ctx.decide_eq(x, y)


BITWISE = ("c", "and", "or", "xor", "not", "shl", "shr", "ashr", "trunc", "sext", "dig", "wsub", "wadd", "lin", "ite", "b2i")


def forall(ctx, fn, depth=0):
    """fn(ctx) for all refinements of ctx needed to decide it"""
    if not ctx.feasible():
        return True
    try:
        return fn(ctx)
    except NeedSplit as s:
        if depth > 44:
            return False
        for c in ctx.split(s):
            if not forall(c, fn, depth + 1):
                return False
        return True


_J = [None]


def term_equal(ctx, s, t, w=64):
    """value equality of two words for every model of ctx"""

    def go(c):
        try:
            if same_term(c, s, t):
                return True
        except NeedSplit:
            pass
        j = la(new_atom("j", 0, w - 1))

        def gb(c2):
            return f_equal(c2, bit(c2, s, j), bit(c2, t, j))

        return forall(c, gb)

    return forall(ctx, go)


def fits(ctx, t, b):
    """every bit of t at position >= b is zero (b: Lin). May raise NeedSplit."""
    if isinstance(b, int):
        b = lc(b)
    if entails(ctx.cons, b - const_bits(t)):
        return True
    o = t.op
    if o == "c":
        return entails(ctx.cons, b - t.a[0].bit_length())
    j = la(new_atom("fj", 0, t.w - 1))
    c = ctx.assume_lin(j - b)

    def gb(c2):
        f = bit(c2, t, j)
        if f is False:
            return True
        if f is True:
            return False
        at = []
        f_atoms(f, at)
        if len(at) > 8:
            return False
        return not any(f_eval(f, {a: bool(n >> i & 1) for i, a in enumerate(at)}) for n in range(1 << len(at)))

    if o in ("udiv",):
        return fits(ctx, t.a[0], b)
    if o == "urem":
        return fits(ctx, t.a[0], b) or fits(ctx, t.a[1], b)
    if o == "wadd":
        if fits(ctx, t.a[0], b - 1) and fits(ctx, t.a[1], b - 1):
            return True
    return forall(c, gb)
