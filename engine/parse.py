"""Reading numbers from text: the outcomes of from_str_radix on every string of given shapes.

A shape fixes the radix, the length and all characters but one; the remaining
character is any ASCII byte.  The abstract outcomes of such a shape partition
the bytes by constraints on that byte, so the set of bytes that reaches each
outcome, and what the outcome holds for each of them, is computed exactly.
An outcome obtained through something the analysis does not model counts as
undecided; so does a byte that reaches several outcomes or none."""
import random
import jobs as jobs_
import scen, spec, judge, conc, interp, loops
from lin import lc, Lin
from terms import T, tc
from state import Region
from conc import Env, Unknown

DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
UPP = DIG.upper()


def val(b, r):
    """value of an ASCII byte as a digit of radix r, -1 for a separator, None if it is neither"""
    c = chr(b)
    if c == "_":
        return -1
    v = DIG.find(c.lower()) if c.isascii() and c.isalnum() else -1
    return v if 0 <= v < r else None


def expected(s, r):
    """('err', position or None) or ('ok', number) for the byte string s"""
    if not s or s[0] == 95 or s[-1] == 95:
        return ("err", None)
    x = 0
    for k, b in enumerate(s):
        v = val(b, r)
        if v is None:
            return ("err", k)
        if v >= 0:
            x = x * r + v
    return ("ok", x)


def filler(r, n, seed=0):
    """a valid string of n characters using every digit in both cases, now and then a separator"""
    out = []
    for k in range(n):
        d = (k * 7 + seed * 5 + r - 1) % r
        c = (UPP if (k + seed) % 3 == 1 else DIG)[d]
        if k % 11 == 7 and 0 < k < n - 1:
            c = "_"
        out.append(ord(c))
    return out


def shapes(r, long):
    """(characters, index of the free one or None)"""
    out = [([], None)]
    for n, ps in ((1, (0,)), (2, (0, 1)), (3, (1,)), (12, (5,)), (20, (0, 13)), (34, (33,)), (70, (2, 66))):
        for p in ps:
            out.append((filler(r, n, n), p))
    out.append((filler(r, 3, 1)[:2] + [0xC3, 0xA9] + filler(r, 2, 1), None))     # a character outside ASCII
    for s in ([49, 95, 95, 49], [95, 49], [49, 95], [95], [48] * 30, [43, 49], [45, 49], [49, 32], [49, 0]):
        out.append((s, None))
    if long:
        for n in (64, 65, 100):
            for p in (0, n // 2, n - 1):
                out.append((filler(r, n, p), p))
    return out


def scenario(p, fn, r, s, free):
    sc = scen.scenarios(p, fn.f, slen=len(s), radix=r)[0]
    for rid, g in sc.st.heap.items():
        if g.kind == "ro" and g.w == 8:
            nm = rid[1]
            segs = tuple((lc(k), lc(k + 1), T("dig", (nm, lc(k)), 8) if k == free else tc(b, 8)) for k, b in enumerate(s))
            sc.st.heap[rid] = Region("I", lc(len(s)), segs, kind="ro", w=8, cap=lc(len(s)))
            return sc, nm
    return None, None


def payload(j, c, r, s, want):
    """is the error as described? True / False / None"""
    if c[1] is None:
        return None
    if c[1] != "InvalidStringRepr":
        return False
    res = True
    for n, (ft, v) in c[2].items():
        if isinstance(v, tuple) and v and v[0] == "TOP":
            lab = v[1]
            if not (isinstance(lab, tuple) and len(lab) == 3 and lab[1] == "string"):
                res = None
                continue
            src = lab[2]
            if isinstance(src, tuple) and src[0] == "SL":
                if not (src[3].is_const() and src[4].is_const()):
                    res = None
                elif src[3].c != 0 or src[4].c != len(s):
                    return False
            elif isinstance(src, tuple) and src[0] == "STR":
                return False
            else:
                res = None
        elif isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1 and isinstance(v[2][0], Lin):
            if v[2][0].is_const() and v[2][0].c != r:
                return False
        elif isinstance(v, tuple) and v[0] == "S" and v[1] == 0 and not v[2]:        # no position
            if want[1] is not None:
                return False
        elif isinstance(v, tuple) and v[0] == "S" and v[1] == 1:
            q = v[2][0]
            if not (isinstance(q, tuple) and q[0] == "S" and len(q[2]) == 2 and all(isinstance(x, Lin) and x.is_const() for x in q[2])):
                res = None
                continue
            at, ch = (x.c for x in q[2])
            if want[1] is None:
                if not (0 <= at < len(s) and s[at] == 95 and ch == 95):
                    return False
            elif s[want[1]] < 128 and (at != want[1] or ch != s[at]):
                return False
            elif s[want[1]] >= 128 and not want[1] <= at <= want[1] + 1:
                return False
        else:
            res = None
    return res


def text(s):
    return '"' + "".join(chr(b) if 32 <= b < 127 else "\\x%02x" % b for b in s) + '"'


def one(p, fn, r, s, free, numeric):
    """[(status, detail)] for one shape"""
    sc, nm = scenario(p, fn, r, s, free)
    if sc is None:
        return ("undecided", "no string argument", 0)
    I, outs = scen.run(p, fn.f, sc, seconds=20, unroll=True, budget=150000)
    j = judge.J(p, fn, sc)
    bad, n, und = [], 0, 0
    rnd = random.Random(1)
    bounds = any(o.kind == "budget" for o in outs)
    for b in (range(128) if free is not None else (None,)):
        t = list(s)
        if b is not None:
            t[free] = b
        want = expected(t, r)
        n += 1
        hits = []
        lost = bounds
        for o in outs:
            if o.kind == "budget":
                continue
            e = Env(o.st, rnd)
            e.pool = []
            if free is not None:
                e.digs[(nm, free)] = b
            try:
                ok = all(e.L(c) >= 0 for c in o.st.cons) and all(e.C(f) for f in o.st.facts)
                for lo, hi, u in o.st.org.get(nm, ()):
                    if ok and free is not None and e.L(lo) <= free < e.L(hi) and not (u.op == "dig" and u.a[0] == nm):
                        from state import seg_at
                        ok = e.Tm(seg_at(u, lc(free))) == b
            except (Unknown, ZeroDivisionError):
                lost = True
                continue
            if ok:
                hits.append((o, e))
        if lost or len(hits) != 1 or [x for x in hits[0][0].st.taint if not x.startswith("~summary")]:
            und += 1
            continue
        o, e = hits[0]
        if o.kind == "ret":
            o.st.env[("ret", 0)] = o.val
        c = j.cls(o)
        if numeric:
            if want[0] != "ok":
                continue
            if c[0] != "ok":
                bad.append((t, "is not accepted"))
                continue
            try:
                cs, _ = conc.concrete(o.st, e)
                g = j.number(cs, e.V(c[1]))
            except Unknown:
                g = None
            if g is None:
                und += 1
            elif g[1] != want[1]:
                bad.append((t, "gives %#x instead of %#x" % (g[1], want[1])))
            continue
        if want[0] == "ok":
            if c[0] == "err":
                bad.append((t, "is rejected although every character is a digit"))
            elif c[0] == "?":
                und += 1
            continue
        if c[0] == "panic":
            bad.append((t, "panics: %s at %s" % (o.what, o.where)))
        elif c[0] == "ok":
            bad.append((t, "is accepted"))
        elif c[0] == "err":
            try:
                c = (c[0], c[1], {k: (ft, deep(e, v)) for k, (ft, v) in c[2].items()})
                q = payload(j, c, r, t, want)
            except Unknown:
                q = None
            if q is False:
                bad.append((t, "gives an error that does not describe it"))
            elif q is None:
                und += 1
        else:
            und += 1
    if bad:
        return ("violated", "radix %d: %s %s" % (r, text(bad[0][0]), bad[0][1]), n)
    return ("undecided", "%d of %d strings" % (und, n), n) if und else ("proved", "", n)


def deep(e, v):
    if isinstance(v, Lin):
        return lc(e.L(v))
    if isinstance(v, tuple) and v and v[0] == "S":
        return ("S", v[1], tuple(deep(e, x) for x in v[2]))
    if hasattr(v, "op"):
        return lc(e.Tm(v))
    return v


G = None


def job(a):
    k, r, numeric, long = a
    p, tab = G
    fn = tab[k]
    out = []
    for s, free in shapes(r, long):
        if numeric and expected([x if i != free else 48 for i, x in enumerate(s)], r)[0] != "ok":
            continue
        case = "radix %d, %d characters%s" % (r, len(s), "" if free is None else ", any at %d" % free)
        try:
            st, d, n = one(p, fn, r, s, free, numeric)
        except Exception as e:
            st, d, n = "undecided", "analysis: %r" % (e,), 1
        out.append((fn.label, case, "value" if numeric else "accepted iff valid", st, d, n))
    return out


def records(p, numeric, long=False):
    global G
    tab = spec.table(p)[0]
    G = (p, tab)
    fs = [k for k, f in enumerate(tab) if f.op.name == "parse"]
    rs = jobs_.run(job, [(k, r, numeric, long) for k in fs for r in range(36, 1, -1)], long)
    out = list(rs)
    if not fs:
        out.append(("from_str_radix", "-", "accepted iff valid", "undecided", "not found", 1))
    return out


def radix_new(p):
    """Radix::new on every byte"""
    out = []
    for f in p.fns.values():
        if f.local and f.path.endswith("radix::Radix::new") and f.argc == 1:
            und, bad = 0, None
            sc = scen.scenarios(p, f)
            if not sc:
                return [("Radix::new", "any u8", "2 to 36", "undecided", "arguments", 1)]
            sc = sc[0]
            I, outs = scen.run(p, f, sc, unroll=True)
            nm = [k for k in sc.orgs][0]
            for b in range(256):
                hits = []
                for o in outs:
                    e = Env(o.st, random.Random(1))
                    e.pool = []
                    e.digs[(nm, 0)] = b
                    try:
                        if all(e.L(c) >= 0 for c in o.st.cons) and all(e.C(x) for x in o.st.facts):
                            hits.append((o, e))
                    except Unknown:
                        hits += [None, None]
                if len(hits) != 1 or hits[0][0].st.taint:
                    und += 1
                    continue
                o, e = hits[0]
                if o.kind == "panic":
                    bad = bad or "Radix::new(%d) panics" % b
                elif isinstance(o.val, tuple) and o.val[0] == "S":
                    if (o.val[1] == 0) != (2 <= b <= 36):
                        bad = bad or "Radix::new(%d) is %s" % (b, "accepted" if o.val[1] == 0 else "rejected")
                    elif o.val[1] == 0:
                        v = deep(e, o.val[2][0])
                        while isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1:
                            v = v[2][0]
                        if isinstance(v, Lin) and v.is_const():
                            if v.c != b:
                                bad = bad or "Radix::new(%d) holds %d" % (b, v.c)
                        else:
                            und += 1
                else:
                    und += 1
            out.append(("Radix::new", "any u8", "2 to 36", "violated" if bad else "undecided" if und else "proved", bad or "%d values" % und, 256))
    if not out:
        out.append(("Radix::new", "any u8", "2 to 36", "undecided", "not found", 1))
    return out
