"""Abstract states: values, digit regions as segmented arrays, facts."""
from lin import Lin, ATOMS, new_atom, la, lc, entails, entails_eq, consistent, ZERO, ONE
import terms
from terms import (T, NeedSplit, as_term, subst_any, subst_t, subst_lin, bit, fits, same_term,
                   const_bits, tc, unk, f_not, is_c, single_bit, mk)

HASH_ATOM = new_atom("#", 0, None)
HASH = la(HASH_ATOM)
HID = HASH_ATOM.id

# static description of initial digit arrays: name -> (len, bits of the last digit)
ORG = {}

_ID = [0]


def fresh_id():
    _ID[0] += 1
    return _ID[0]


class Region:
    __slots__ = ("elem", "len", "segs", "status", "kind", "w", "cap")

    def __init__(self, elem, len, segs, status="live", kind="heap", w=64, cap=None):
        self.elem = elem      # 'D' Digit struct, 'I' plain integer, '?' anything
        self.len = len
        self.segs = segs
        self.status = status  # live / freed
        self.kind = kind      # heap / inline (SmallVec of <= 1) / const
        self.w = w
        self.cap = cap

    def with_(self, **k):
        r = Region(self.elem, self.len, self.segs, self.status, self.kind, self.w, self.cap)
        for a, b in k.items():
            setattr(r, a, b)
        return r


def dig(o, i):
    return T("dig", (o, i), 64)


def arr(w=64, why=""):
    """unknown contents: an uninterpreted array indexed by position"""
    return T("arr", (fresh_id(), why, HASH), w)


class State:
    __slots__ = ("env", "heap", "org", "cons", "facts", "ev", "taint", "_feas")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.org = {}
        self.cons = frozenset()
        self.facts = frozenset()
        self.ev = frozenset()
        self.taint = frozenset()
        self._feas = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.org = dict(self.org)
        s.cons = self.cons
        s.facts = self.facts
        s.ev = self.ev
        s.taint = self.taint
        s._feas = self._feas
        return s

    # ------------------------------------------------ linear part
    def feasible(self):
        if self._feas is None:
            self._feas = consistent(self.cons)
        return self._feas

    def add_lin(self, l):
        """assume l >= 0 in place"""
        if l.t:
            if l not in self.cons:
                self.cons = self.cons | {l}
                self._feas = None
        elif l.c < 0:
            self._feas = False

    def assume_lin(self, l):
        s = self.copy()
        s.add_lin(l)
        return s

    def ge(self, l):
        return entails(self.cons, l)

    def eq(self, a, b):
        return entails_eq(self.cons, a, b)

    def decide(self, l):
        if not l.t:
            return l.c >= 0
        if entails(self.cons, l):
            return True
        if entails(self.cons, -l - 1):
            return False
        raise NeedSplit(l)

    def decide_eq(self, a, b):
        d = a - b
        if not d.t:
            return d.c == 0
        if entails(self.cons, d):
            if entails(self.cons, -d):
                return True
            if entails(self.cons, d - 1):
                return False
            raise NeedSplit(d - 1)
        if entails(self.cons, -d - 1):
            return False
        raise NeedSplit(d)

    def split(self, s):
        if s.lin is not None:
            return [x for x in (self.assume_lin(s.lin), self.assume_lin(-s.lin - 1)) if x.feasible()]
        out = []
        for v in (True, False):
            out += self.assume(s.cond, v)
        return out

    # ------------------------------------------------ facts about words
    def resolve_dig(self, t):
        segs = self.org.get(t.a[0])
        if segs is None:
            return t
        i = t.a[1]
        for lo, hi, u in segs:
            if u.op == "dig" and u.a[0] == t.a[0]:
                continue
            if self.decide(i - lo) and self.decide(hi - i - 1):
                return subst_t(u, {HID: i})
        return t

    def dig_bits(self, t):
        ln, eb = ORG[t.a[0]]
        if eb.is_const() and eb.c == 64:
            return eb
        if self.decide_eq(t.a[1], ln - 1):
            return eb
        return lc(64)

    def bit_fact(self, t, j):
        for f in self.facts:
            if f[0] == "bit":
                if f[1] is t or (f[1].op == t.op == "dig" and f[1].a[0] == t.a[0] and self.eq(f[1].a[1], t.a[1])):
                    if self.eq(f[2], j):
                        return f[3]
            elif f[0] == "tlt" and f[2].op == "c" and f[1] is t and f[2].a[0] > 0:
                if self.ge(j - (f[2].a[0] - 1).bit_length()):
                    return False
        return None

    def term_const(self, t):
        for f in self.facts:
            if f[0] == "teq" and f[1] is t and f[2].op == "c":
                return f[2].a[0]
        return None

    def refine_dig(self, t, u):
        """assume dig t equals term u (in place)"""
        o, i = t.a
        segs = self.org.get(o)
        if segs is None:
            segs = ((ZERO, ORG[o][0], dig(o, HASH)),)
        self.org[o] = seg_write(self, segs, i, u, dig(o, HASH) if KEEP_OWN else None)

    # ------------------------------------------------ conditions
    def truth(self, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        try:
            return self._truth(c)
        except NeedSplit:
            return None

    def _truth(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "not":
            v = self._truth(c[1])
            return None if v is None else not v
        if k == "ge":
            if entails(self.cons, c[1]):
                return True
            if entails(self.cons, -c[1] - 1):
                return False
            return None
        if k == "eq0":
            d = c[1]
            if entails(self.cons, d) and entails(self.cons, -d):
                return True
            if entails(self.cons, d - 1) or entails(self.cons, -d - 1):
                return False
            return None
        if k in ("and", "or"):
            a, b = self._truth(c[1]), self._truth(c[2])
            if k == "and":
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        if k == "xor":
            a, b = self._truth(c[1]), self._truth(c[2])
            return None if a is None or b is None else a != b
        if k == "bit":
            f = bit(self, c[1], c[2])
            return f if f is True or f is False else None
        if c in self.facts:
            return True
        if ("not", c) in self.facts:
            return False
        if k == "teq":
            s, t = c[1], c[2]
            f = self.teq_formula(c)
            if f is True or f is False:
                return f
            if f is not None:
                from terms import f_atoms
                return None
            try:
                if same_term(self, s, t):
                    return True
            except NeedSplit:
                pass
            cs, ct = self.const_of(s), self.const_of(t)
            if cs is not None and ct is not None:
                return cs == ct
            for f in self.facts:
                g, v = (f[1], False) if f[0] == "not" else (f, True)
                if g[0] == "teq" and (self.tsame(g[1], s) and self.tsame(g[2], t) or self.tsame(g[1], t) and self.tsame(g[2], s)):
                    return v
                if v and g[0] == "tlt" and (self.tsame(g[1], s) and self.tsame(g[2], t) or self.tsame(g[1], t) and self.tsame(g[2], s)):
                    return False
            # linear view
            d = s.lin() - t.lin()
            if entails(self.cons, d - 1) or entails(self.cons, -d - 1):
                return False
            return None
        if k == "tlt":
            s, t = c[1], c[2]
            cs, ct = self.const_of(s), self.const_of(t)
            if cs is not None and ct is not None:
                return cs < ct
            if ct == 0:
                return False
            if self.tsame(s, t):
                return False
            for f in self.facts:
                g, v = (f[1], False) if f[0] == "not" else (f, True)
                if g[0] == "tlt":
                    if self.tsame(g[1], s) and self.tsame(g[2], t):
                        return v
                    if v and self.tsame(g[1], t) and self.tsame(g[2], s):
                        return False
            d = t.lin() - s.lin() - 1
            if entails(self.cons, d):
                return True
            if entails(self.cons, -d - 1):
                return False
            return None
        return None

    def tsame(self, s, t):
        if s is t:
            return True
        try:
            return same_term(self, s, t)
        except NeedSplit:
            return False

    def const_of(self, t):
        if t.op == "c":
            return t.a[0]
        if t.op == "dig":
            try:
                r = self.resolve_dig(t)
            except NeedSplit:
                return None
            if r is not t:
                return self.const_of(r)
            return None
        return self.term_const(t)

    def teq_formula(self, c):
        """bit formula equivalent to the word equality, if it is about one bit; else None"""
        s, t = c[1], c[2]
        if t.op != "c":
            s, t = t, s
        if t.op != "c":
            return None
        v = t.a[0]
        if s.op == "dig":
            r = self.resolve_dig(s)
            if r is not s:
                s = r
            if s.op == "dig" and v in (0, 1):
                b = self.dig_bits(s)
                if entails_eq(self.cons, b, ONE):
                    f = bit(self, s, ZERO)
                    return f if v == 1 else f_not(f)
        if s.op == "c":
            return s.a[0] == v
        if s.op == "b2i":
            if v > 1:
                return False
            x = self._truth(s.a[0])
            if x is None:
                f = ("c", s.a[0])
            else:
                f = x
            return f if v else f_not(f)
        if v.bit_length() > const_bits(s):
            return False
        if const_bits(s) <= 1:
            f = bit(self, s, ZERO)
            return f if v == 1 else f_not(f)
        if s.op == "and":
            for x, m in ((s.a[0], s.a[1]), (s.a[1], s.a[0])):
                if m.op in ("c", "shl", "shr"):
                    p = single_bit(self, m)
                    if p is not None:
                        f = bit(self, x, p)
                        if v == 0:
                            return f_not(f)
                        if m.op == "c":
                            return f if v == m.a[0] else False
        return None

    def assume(self, c, val=True):
        """list of states refining self in which c has value val (0..n states)"""
        if c is True or c is False:
            return [self] if c == val else []
        k = c[0]
        if k == "not":
            return self.assume(c[1], not val)
        if k in ("and", "or"):
            if (k == "and") == val:
                out = []
                for s in self.assume(c[1], val):
                    out += s.assume(c[2], val)
                return out
            out = list(self.assume(c[1], val))
            for s in self.assume(c[1], not val):
                out += s.assume(c[2], val)
            return out
        if k == "xor":
            out = []
            for a in (True, False):
                for s in self.assume(c[1], a):
                    out += s.assume(c[2], a != val)
            return out
        if k == "ge":
            l = c[1] if val else -c[1] - 1
            s = self.assume_lin(l)
            return [s] if s.feasible() else []
        if k == "eq0":
            d = c[1]
            if val:
                s = self.copy()
                s.add_lin(d)
                s.add_lin(-d)
                return [s] if s.feasible() else []
            return [s for s in (self.assume_lin(d - 1), self.assume_lin(-d - 1)) if s.feasible()]
        try:
            v = self._truth(c)
            if v is not None:
                return [self] if v == val else []
            return self._assume_word(c, val)
        except NeedSplit as sp:
            out = []
            for s in self.split(sp):
                out += s.assume(c, val)
            return out

    def add_fact(self, f):
        s = self.copy()
        s.facts = self.facts | {f}
        return s

    def _assume_word(self, c, val):
        k = c[0]
        if k == "bit":
            f = bit(self, c[1], c[2])
            return self.assume_formula(f, val)
        if k == "teq":
            f = self.teq_formula(c)
            if f is not None:
                return self.assume_formula(f, val)
            s, t = c[1], c[2]
            if s.op == "c":
                s, t = t, s
            if not val:
                r = self.add_fact(("not", ("teq", s, t)))
                if t.op == "c" and t.a[0] == 0:
                    r.add_lin(s.lin() - 1)
                    # x op y != 0 gives nothing about parts
                return [r] if r.feasible() else []
            if t.op == "c" and t.a[0] == 0 and s.op == "or":
                out = []
                for x in self.assume(("teq", s.a[0], t), True):
                    out += x.assume(("teq", s.a[1], t), True)
                return out
            if t.op == "c" and t.a[0] == 0 and s.op == "xor":
                return self.assume(("teq", s.a[0], s.a[1]), True)
            if s.op == "not" and t.op == "c":
                return self.assume(("teq", s.a[0], tc(~t.a[0], s.w)), True)
            if s.op == "dig" or t.op == "dig":
                r = self.copy()
                s2 = self.resolve_dig(s) if s.op == "dig" else s
                t2 = self.resolve_dig(t) if t.op == "dig" else t
                if s2.op == "dig" and t2.op == "dig":
                    if s2.a[0] < t2.a[0]:
                        s2, t2 = t2, s2
                    if s2.a[0] != t2.a[0]:
                        r.refine_dig(s2, t2)
                        return [r]
                elif s2.op == "dig" and t2.op != "c" and closed(t2) and known_fit(self, t2, s2):
                    r.refine_dig(s2, t2)
                    return [r]
                elif t2.op == "dig" and s2.op != "c" and closed(s2) and known_fit(self, s2, t2):
                    r.refine_dig(t2, s2)
                    return [r]
                elif s2.op == "dig" and s2 is not t2 and t2.op == "c":
                    if t2.a[0] and not fits(self, t2, self.dig_bits(s2)):
                        return []
                    r.refine_dig(s2, t2)
                    return [r]
                elif t2.op == "dig" and s2.op == "c":
                    r.refine_dig(t2, s2)
                    return [r]
            r = self.add_fact(("teq", s, t))
            if not (s.op == "dig" or t.op == "dig"):
                d = s.lin() - t.lin()
                r.add_lin(d)
                r.add_lin(-d)
            return [r] if r.feasible() else []
        if k == "tlt":
            s, t = c[1], c[2]
            r = self.add_fact(c if val else ("not", c))
            d = t.lin() - s.lin() - 1
            r.add_lin(d if val else -d - 1)
            return [r] if r.feasible() else []
        r = self.add_fact(c if val else ("not", c))
        return [r]

    def assume_formula(self, f, val):
        if f is True or f is False:
            return [self] if f == val else []
        k = f[0]
        if k == "n":
            return self.assume_formula(f[1], not val)
        if k == "a":
            return [self.add_fact(("bit", f[1], f[2], val))]
        if k == "c":
            return self.assume(f[1], val)
        if k == "&":
            if val:
                out = []
                for s in self.assume_formula(f[1], True):
                    out += s.assume_formula(f[2], True)
                return out
            out = list(self.assume_formula(f[1], False))
            for s in self.assume_formula(f[1], True):
                out += s.assume_formula(f[2], False)
            return out
        out = []
        for a in (True, False):
            for s in self.assume_formula(f[1], a):
                out += s.assume_formula(f[2], a != val)
        return out


# ---------------------------------------------------------------- segments
def closed(t):
    """a word that depends on widths and positions only"""
    if t.op == "c":
        return True
    if t.op in ("shl", "shr"):
        return closed(t.a[0])
    if t.op in ("and", "or", "xor"):
        return closed(t.a[0]) and closed(t.a[1])
    return t.op == "not" and closed(t.a[0])


def known_fit(st, t, d):
    try:
        return fits(st, t, st.dig_bits(d))
    except NeedSplit:
        return False


def seg_at(u, i):
    return subst_t(u, {HID: i})


def seg_read(ctx, segs, i):
    n = len(segs)
    for x, (lo, hi, u) in enumerate(segs):
        if x == n - 1 or ctx.decide(hi - i - 1):
            return seg_at(u, i)
    return None


def seg_clip(ctx, segs, a, b):
    """contents on [a, b)"""
    out = []
    for lo, hi, u in segs:
        if lo is hi:
            continue
        if ctx.decide(a - hi):          # hi <= a
            continue
        if ctx.decide(lo - b):          # lo >= b
            break
        l = lo if ctx.decide(lo - a) else a
        h = hi if ctx.decide(b - hi) else b
        out.append((l, h, u))
    return out


def seg_shift(segs, d):
    if d.is_const() and d.c == 0:
        return list(segs)
    return [(lo + d, hi + d, subst_t(u, {HID: HASH - d})) for lo, hi, u in segs]


KEEP_OWN = False    # set while a bounded instance is analysed: what is learnt of a digit is never merged away


def seg_write(ctx, segs, i, u, own=None):
    out = []
    n = len(segs)
    done = False
    for x, (lo, hi, t) in enumerate(segs):
        if done or not (x == n - 1 or ctx.decide(hi - i - 1)):
            out.append((lo, hi, t))
            continue
        if not ctx.eq(lo, i):
            out.append((lo, i, t))
        out.append((i, i + 1, u))
        if not ctx.eq(i + 1, hi):
            out.append((i + 1, hi, t))
        done = True
    return seg_norm(ctx, out, own)


def seg_replace(ctx, segs, a, b, new, total):
    out = seg_clip(ctx, segs, ZERO, a) + list(new) + seg_clip(ctx, segs, b, total)
    return seg_norm(ctx, out)


def seg_norm(ctx, segs, own=None):
    """own: these segments are what is known of the array itself, so nothing is merged into its own bare digits"""
    out = []
    for s in segs:
        lo, hi, u = s
        if lo is hi:
            continue
        while True:
            if not out:
                out.append((lo, hi, u))
                break
            m = seg_merge(ctx, out[-1], (lo, hi, u))
            if m is None or (own is not None and m[2] is own and not (u is own and out[-1][2] is own)):
                out.append((lo, hi, u))
                break
            out.pop()
            lo, hi, u = m
    return tuple(out)


def seg_merge(ctx, s, t):
    a, b, x = s
    b2, c, y = t
    if x is y:
        return (a, c, x)
    o1 = (b - a) is ONE
    o2 = (c - b2) is ONE
    if not o1 and not o2 and ctx is not None:
        o1 = ctx.eq(b - a, ONE)
        o2 = ctx.eq(c - b2, ONE)
    if o2 and _same(ctx, seg_at(x, b2), y):
        return (a, c, x)
    if o1 and _same(ctx, seg_at(y, a), x):
        return (a, c, y)
    if o1 and o2:
        u = antiunify(x, y, a, ONE, HASH)
        if u is not None and u.op != "arr":
            return (a, c, u)
    return None


def _same(ctx, s, t):
    if s is t:
        return True
    if s.op != t.op or s.op == "arr":
        return False
    if ctx is None:
        return False
    try:
        return same_term(ctx, s, t)
    except NeedSplit:
        return False


def antiunify(x, y, p1, step, var):
    """term u(var) with u(p1)=x and u(p1+step)=y, or None (step: Lin const 1)"""
    if x is y:
        return x
    if isinstance(x, Lin) and isinstance(y, Lin):
        d = y - x
        if d.is_const():
            return x + (var - p1).scale(d.c)
        ax, ay = x.atom(), y.atom()
        if ax is not None and ay is not None and ax.term is not None and ay.term is not None:
            u = antiunify(ax.term, ay.term, p1, step, var)
            return None if u is None else u.lin()
        return None
    if isinstance(x, T) and isinstance(y, T):
        if x.op != y.op or len(x.a) != len(y.a) or x.w != y.w:
            return None
        if x.op in ("c", "unk", "arr"):
            return None
        args = []
        for p, q in zip(x.a, y.a):
            u = antiunify(p, q, p1, step, var)
            if u is None:
                break
            args.append(u)
        else:
            return terms.rebuild(x.op, tuple(args), x.w)
        if x.op in ("and", "or", "xor", "wadd", "wmul"):
            u = antiunify(x.a[0], y.a[1], p1, step, var)
            v = antiunify(x.a[1], y.a[0], p1, step, var)
            if u is not None and v is not None:
                return terms.rebuild(x.op, (u, v), x.w)
        return None
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        out = []
        for p, q in zip(x, y):
            u = antiunify(p, q, p1, step, var)
            if u is None:
                return None
            out.append(u)
        return tuple(out)
    if x == y:
        return x
    return None


def contents_equal(ctx, s1, s2, a, b):
    """pointwise equality of two segment lists on [a, b) (may be decided by splitting inside)"""
    c = ctx.copy()
    if (b - a) is ONE:
        i = a
    else:
        i = la(new_atom("p", 0, None))
        c.add_lin(i - a)
        c.add_lin(b - i - 1)

    def go(c2):
        x = y = None
        n = len(s1)
        for q, (lo, hi, u) in enumerate(s1):
            if q == n - 1 or c2.decide(hi - i - 1):
                x = seg_at(u, i)
                break
        n = len(s2)
        for q, (lo, hi, u) in enumerate(s2):
            if q == n - 1 or c2.decide(hi - i - 1):
                y = seg_at(u, i)
                break
        if x is y:
            return True
        if x is None or y is None:
            return False
        return terms.term_equal(c2, x, y, 64)

    return terms.forall(c, go)
