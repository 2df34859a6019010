"""Bit counts: is a number the number of ones / zeros / leading / trailing zeros of an operand?

The operand's digits are split at the digit the result refers to; sums written
by a loop are followed by induction over the loop's own recurrence."""
from lin import Lin, ATOMS, lc, la, new_atom, ZERO, ONE, entails, entails_eq
from terms import T, NeedSplit, REC, forall, tc, subst_t, as_term, same_term, fits
from state import dig, HASH

MAXW = 1 << 60      # no value of that many bits fits in memory


def digit_terms(c, ops):
    out = []
    seen = set()
    for l in c.cons:
        for a, _ in l.t:
            t = ATOMS[a].term
            if t is not None and a not in seen and t.op in ops:
                seen.add(a)
                out.append(t)
    return out


def strengthen(c, x, extra=()):
    """c with the bounds of the bit counts it mentions (may ask for a case split); None if it cannot happen"""
    d = c.copy()
    d.add_lin(lc(MAXW) - x.width.w)
    ts = digit_terms(c, ("clz", "ctz", "popcnt", "rec"))
    for l in extra:
        for a, _ in l.t:
            t = ATOMS[a].term
            if t is not None and t.op in ("clz", "ctz", "popcnt", "rec") and t not in ts:
                ts.append(t)
    whole = [t for t in ts if t.op == "rec"]
    for t in ts:
        l = t.lin()
        d.add_lin(l)
        if t.op == "rec":
            f = REC[t.a[0]]
            if not f["lin"] or f["step"] is None:
                continue
            cur = T("rec", (t.a[0], la(ATOMS[f["kid"]])), t.w).lin()
            inc = value(f["step"]) - cur
            lo, hi = inc.range()
            l0, h0 = value(f["init"]).range()
            if lo is not None and hi is not None and l0 is not None and h0 is not None:
                d.add_lin(lc(h0) + (t.a[1] - 1).scale(hi) - l)
                d.add_lin(l - lc(l0) - (t.a[1] - 1).scale(lo))
            if t in whole and c.decide(t.a[1] - 2):      # its last step
                u = value(subst_t(f["step"], {f["kid"]: t.a[1] - 1}))
                d.add_lin(u - l)
                d.add_lin(l - u)
                ts += [ATOMS[a].term for a, _ in u.t if ATOMS[a].term is not None and ATOMS[a].term not in ts]
            continue
        u = t.a[0]
        if u.op != "dig":
            continue
        r = c.resolve_dig(u)
        if r.op == "c":
            v, w = r.a[0], r.w
            n = bin(v).count("1") if t.op == "popcnt" else w - v.bit_length() if t.op == "clz" else (v & -v).bit_length() - 1 if v else w
            d.add_lin(l - n)
            d.add_lin(lc(n) - l)
            continue
        b = c.dig_bits(u)
        nz = c.truth(("teq", u, tc(0, 64))) is False
        if t.op == "clz":
            d.add_lin(l - 64 + b)
            d.add_lin(lc(63 if nz else 64) - l)
        elif t.op == "ctz":
            d.add_lin((b - 1 if nz else lc(64)) - l)
        else:
            d.add_lin(b - l)
            if nz:
                d.add_lin(l - 1)
    d._feas = None
    return d if d.feasible() else None


def impossible(st, x):
    return forall(st, lambda c: strengthen(c, x) is None)


def value(t):
    return t.lin() if isinstance(t, T) else t


def same(d, a, b):
    return a is b or entails_eq(d.cons, a, b)


def zero_run(c, x, lo, hi):
    """digits [lo, hi) of x are zero"""
    q = la(new_atom("zq", 0, None))
    d = c.copy()
    d.add_lin(q - lo)
    d.add_lin(hi - 1 - q)
    return forall(d, lambda e: e.resolve_dig(dig(x.name, q)).op == "c" and e.resolve_dig(dig(x.name, q)).a[0] == 0)


def is_count(st, x, what, v):
    def go(c):
        d = strengthen(c, x, (v,))
        if d is None:
            return True
        n, eb, W = x.width.n, x.width.eb, x.width.w
        if what in ("clz", "ctz"):
            at = [ATOMS[a].term for a, k in v.t if ATOMS[a].term is not None]
            if any(t.op != what or t.a[0].op != "dig" or t.a[0].a[0] is not x.name for t in at) or len(at) > 1:
                return False
            if not at:
                if zero_run(c, x, ZERO, n):
                    return same(d, v, W)
                return False
            j = at[0].a[0].a[1]
            nz = c.truth(("teq", at[0].a[0], tc(0, 64))) is False
            if what == "clz":
                return zero_run(c, x, j + 1, n) and (nz or same(d, j, ZERO)) and same(d, v, at[0].lin() + (n - 1 - j).scale(64) - 64 + eb)
            if not zero_run(c, x, ZERO, j):
                return False
            if nz:
                return same(d, v, at[0].lin() + j.scale(64))
            return False
        return total(c, d, x, what, v)
    return forall(st, go)


def total(c, d, x, what, v):
    """v = sum of the popcounts of all digits, or the width minus it"""
    n, W = x.width.n, x.width.w
    ivs, rest = [], lc(v.c)
    want = 1 if what == "popcnt" else -1
    for a, k in v.t:
        t = ATOMS[a].term
        if t is None:
            rest = rest + la(ATOMS[a]).scale(k)
        elif t.op == "popcnt" and k == want and t.a[0].op == "dig" and t.a[0].a[0] is x.name:
            ivs.append((t.a[0].a[1], t.a[0].a[1] + 1))
        elif t.op == "rec" and k == 1:
            r = recsum(c, x, t.a[0], t.a[1], want)
            if r is None:
                return False
            ivs += r[0]
            rest = rest + r[1]
        else:
            return False
    # the runs cover [0, n) once
    pos = ZERO
    left = list(ivs)
    while left:
        for iv in left:
            if same(d, iv[0], iv[1]):
                left.remove(iv)
                break
            if same(d, iv[0], pos):
                pos = iv[1]
                left.remove(iv)
                break
        else:
            return False
    return same(d, pos, n) and same(d, rest, ZERO if what == "popcnt" else W)


def recsum(c, x, rid, K, want):
    """the recurrence as (runs of digits counted, number added)"""
    f = REC[rid]
    if not f["lin"] or f["step"] is None:
        return None
    kid = f["kid"]
    k = la(ATOMS[kid])
    inc = value(f["step"]) - T("rec", (rid, k), 64).lin()
    g = lc(inc.c)
    idx = None
    for a, m in inc.t:
        t = ATOMS[a].term
        if t is None or t.op != "popcnt" or m != want or idx is not None or t.a[0].op != "dig" or t.a[0].a[0] is not x.name:
            return None
        idx = t.a[0].a[1]
    if idx is None or not g.is_const():
        return None
    z = idx - k
    ivs = []
    if not any(a == kid for a, _ in z.t):
        ivs.append((z + 1, z + K))
    else:
        z = idx + k
        if any(a == kid for a, _ in z.t):
            return None
        # indices z - 1 down to z - (K - 1)
        ivs.append((z - K + 1, z))
    rest = (K - 1).scale(g.c)
    i0 = value(f["init"])
    rest = rest + i0.c
    for a, m in i0.t:
        t = ATOMS[a].term
        if t is None:
            rest = rest + la(ATOMS[a]).scale(m)
        elif t.op == "popcnt" and m == want and t.a[0].op == "dig" and t.a[0].a[0] is x.name:
            ivs.append((t.a[0].a[1], t.a[0].a[1] + 1))
        else:
            return None
    return ivs, rest
