"""Linear integer expressions over atoms and entailment of linear constraints.

A Lin is a hash-consed  c + sum(coef * atom).  Atoms are integers into ATOMS;
each atom has an intrinsic integer range.  `Cons` objects (frozensets of Lin,
each meaning Lin >= 0) are queried by Fourier-Motzkin elimination with integer
tightening; an answer "entailed" is sound, "not entailed" may be incomplete.
"""
from math import gcd


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "term")

    def __init__(self, id, name, lo, hi, term=None):
        self.id = id
        self.name = name
        self.lo = lo
        self.hi = hi
        self.term = term


ATOMS = []
NAMED = {}


def new_atom(name, lo=None, hi=None, term=None):
    a = Atom(len(ATOMS), name, lo, hi, term)
    ATOMS.append(a)
    return a


class Lin:
    __slots__ = ("c", "t", "h", "__weakref__")
    _tab = {}

    def __new__(cls, c, t=()):
        k = (c, t)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.c = c
            r.t = t
            r.h = hash(("L",) + k)
            cls._tab[k] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Lin(self.c * k, tuple((a, c * k) for a, c in self.t))

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        if o is self:
            return ZERO
        return self + o.scale(-1)

    def is_const(self):
        return not self.t

    def atom(self):
        """the Atom if this is exactly one atom"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return ATOMS[self.t[0][0]]
        return None

    def subst(self, m):
        """m: atom id -> Lin"""
        if not any(a in m for a, _ in self.t):
            return self
        r = Lin(self.c, tuple(x for x in self.t if x[0] not in m))
        for a, k in self.t:
            if a in m:
                r = r + m[a].scale(k)
        return r

    def range(self):
        lo = hi = self.c
        for a, k in self.t:
            A = ATOMS[a]
            l, h = (A.lo, A.hi) if k > 0 else (A.hi, A.lo)
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = ATOMS[a].name
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + str(n))
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s).replace("+-", "-")


ZERO = Lin(0)
ONE = Lin(1)


def lc(n):
    return Lin(n)


def la(atom):
    return Lin(0, ((atom.id, 1),))


def sym(name, lo=None, hi=None):
    return la(new_atom(name, lo, hi))


FM_CAP = 600
STATS = {"q": 0, "fm": 0, "giveup": 0}


def _norm(c, t):
    """normalise c + t >= 0 (t dict) with integer tightening; None if trivially true, False if infeasible"""
    if not t:
        return None if c >= 0 else False
    g = 0
    for k in t.values():
        g = gcd(g, k)
        if g == 1:
            break
    if g > 1:
        c = c // g
        t = {a: k // g for a, k in t.items()}
    return c, t


def tighten(cons, add, big):
    bnd = {}
    for k, c in cons.items():
        if len(k) == 1:
            bnd[k[0]] = c      # x*a + c >= 0 with x = 1 or -1
    for _ in range(2):
        ch = False
        for a, k in big:
            c = cons.get(k)
            if c is None:
                continue
            m = c
            x = 0
            for b, y in k:
                if b == a:
                    x = y
                    continue
                v = bnd.get((b, -1 if y > 0 else 1))
                if v is None:
                    m = None
                    break
                # y > 0: b <= v;  y < 0: b >= -v
                m += y * v if y > 0 else -y * v
            if m is None:
                continue
            # x*a + m >= 0
            if x > 0:
                key, n = (a, 1), m // x
            else:
                key, n = (a, -1), m // -x
            o = bnd.get(key)
            if o is None or n < o:
                bnd[key] = n
                ch = True
                if not add(n, {a: key[1]}):
                    return False
        if not ch:
            break
    return True


def infeasible(lins):
    """True if the conjunction of lin>=0 (plus atom ranges) has no integer solution (sound, incomplete)."""
    STATS["fm"] += 1
    cons = {}
    atoms = set()

    def add(c, t):
        n = _norm(c, t)
        if n is None:
            return True
        if n is False:
            return False
        c, t = n
        k = tuple(sorted(t.items()))
        o = cons.get(k)
        if o is None or c < o:
            cons[k] = c
            # contradiction with the opposite?
            nk = tuple((a, -x) for a, x in k)
            oc = cons.get(nk)
            if oc is not None and oc + c < 0:
                return False
        return True

    for l in lins:
        if not add(l.c, dict(l.t)):
            return True
        atoms.update(a for a, _ in l.t)
    for a in atoms:
        A = ATOMS[a]
        if A.lo is not None:
            if not add(-A.lo, {a: 1}):
                return True
        if A.hi is not None:
            if not add(A.hi, {a: -1}):
                return True
    # integer rounding of the bounds of atoms with a larger coefficient
    big = [(a, k) for k in cons if len(k) > 1 for a, x in k if x > 1 or x < -1]
    if big:
        if not tighten(cons, add, big):
            return True
    # equalities with a unit coefficient: substitute
    changed = True
    while changed:
        changed = False
        for k, c in list(cons.items()):
            nk = tuple((a, -x) for a, x in k)
            if cons.get(nk) == -c:
                u = next(((a, x) for a, x in k if x in (1, -1)), None)
                if u is None:
                    continue
                a, x = u
                # a = -(c + rest)/x
                rest = {b: -y * x for b, y in k if b != a}
                rc = -c * x
                old = cons
                cons = {}
                ok = True
                for k2, c2 in old.items():
                    d = dict(k2)
                    y = d.pop(a, 0)
                    if y:
                        for b, z in rest.items():
                            v = d.get(b, 0) + y * z
                            if v:
                                d[b] = v
                            else:
                                d.pop(b, None)
                        c2 = c2 + y * rc
                    if not add(c2, d):
                        ok = False
                        break
                if not ok:
                    return True
                changed = True
                break
    while cons:
        # choose the variable with the least product
        pos, neg = {}, {}
        for k in cons:
            for a, x in k:
                if x > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        best = None
        for a in set(pos) | set(neg):
            p = pos.get(a, 0)
            n = neg.get(a, 0)
            s = p * n - p - n
            if best is None or s < best[0]:
                best = (s, a)
        a = best[1]
        P, N, R = [], [], {}
        for k, c in cons.items():
            x = dict(k).get(a, 0)
            if x > 0:
                P.append((k, c, x))
            elif x < 0:
                N.append((k, c, -x))
            else:
                R[k] = c
        if len(P) * len(N) > FM_CAP:
            STATS["giveup"] += 1
            return False
        cons = R
        for k, c, x in P:
            for k2, c2, y in N:
                g = gcd(x, y)
                mx, my = y // g, x // g
                d = {b: z * mx for b, z in k if b != a}
                for b, z in k2:
                    if b != a:
                        v = d.get(b, 0) + z * my
                        if v:
                            d[b] = v
                        else:
                            d.pop(b, None)
                if not add(c * mx + c2 * my, d):
                    return True
        if len(cons) > FM_CAP:
            STATS["giveup"] += 1
            return False
    return False


def _component(cons, atoms):
    atoms = set(atoms)
    out = []
    rest = list(cons)
    ch = True
    while ch:
        ch = False
        nr = []
        for l in rest:
            if any(a in atoms for a, _ in l.t):
                out.append(l)
                n = len(atoms)
                atoms.update(a for a, _ in l.t)
                ch = ch or len(atoms) > n
            else:
                nr.append(l)
        rest = nr
    return out


_CACHE = {}


def entails(cons, l):
    """cons (frozenset of Lin) entails l >= 0"""
    if not l.t:
        return l.c >= 0
    lo, hi = l.range()
    if lo is not None and lo >= 0:
        return True
    if l in cons:
        return True
    key = (cons, l)
    r = _CACHE.get(key)
    if r is None:
        STATS["q"] += 1
        n = -l - 1
        comp = _component(cons, [a for a, _ in n.t])
        r = infeasible(comp + [n])
        if len(_CACHE) > 400000:
            _CACHE.clear()
        _CACHE[key] = r
    return r


def entails_eq(cons, a, b):
    d = a - b
    if not d.t:
        return d.c == 0
    return entails(cons, d) and entails(cons, -d)


def consistent(cons):
    key = (cons, None)
    r = _CACHE.get(key)
    if r is None:
        r = not infeasible(list(cons))
        _CACHE[key] = r
    return r
