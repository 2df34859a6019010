"""The value of products, decided digit polynomial against digit polynomial.

Every multiplication function is followed at fixed widths with all digits of
both operands free.  On each path the digits of the result, taken as one exact
integer polynomial (poly.py), must equal the product of the operands' digits
modulo 2^width.  Where they do not, the path is compared with the product at
concrete points of it."""
import time
import jobs as jobs_
import scen, spec, judge, conc, poly, loops
from lin import lc
from terms import T, forall, tc
from conc import Unknown
from scen import view

CAP = 4000       # paths followed apart at one place
WIDTHS = (1, 7, 8, 37, 63, 64, 65, 100, 127, 128, 129, 160, 191, 192, 193, 255, 256, 257, 320)
ONE = (384, 448)                     # only for the in-place function of ApInt
MORE = (300, 370, 384, 448, 500)


def one(p, fn, w, seed, seconds):
    ss = scen.scenarios(p, fn.f, at=(w, w))
    if not ss:
        return "undecided", "arguments", 1
    n = (w + 63) // 64
    und, bad, num = [], None, 0
    for sc in ss:
        loops.CAP, old = CAP, loops.CAP
        try:
            I, outs = scen.run(p, fn.f, sc, seconds=seconds, unroll=True, budget=2000000)
        finally:
            loops.CAP = old
        j = judge.J(p, fn, sc)
        i = j.i
        X, Y = i.x.name, i.y.name
        for o in outs:
            num += 1
            if o.kind == "budget":
                und.append("budget")
                continue
            if o.st.taint:
                und.append("taint " + ",".join(sorted(map(str, o.st.taint))))
                continue
            c = j.cls(o)
            if c[0] == "ok":
                sl = j.slots(o, c)
                v = sl[0][1] if len(sl) == 1 else None
                x = view(o.st, v) if v is not None else None

                def same(st):
                    if x is None or not x.ok or not x.len.is_const() or x.len.c != n:
                        return False
                    d = poly.Dom(st)
                    try:
                        r = d.number(x.segs, n)
                        if r is None:
                            return False
                        r = d.add(r, d.mul(d.operand(X, n), d.operand(Y, n)), -1)
                        if d.congruent(r, w):
                            return True
                        d.possible()
                    except poly.Infeasible:
                        return True
                    return False
                try:
                    if forall(o.st.copy(), same):
                        continue
                except RecursionError:
                    und.append("depth")
                    continue
            elif forall(o.st.copy(), never):
                continue

            def check(cs, e):
                try:
                    a, b = (sum(e.dig(T("dig", (q, lc(k)), 64)) << 64 * k for k in range(n)) for q in (X, Y))
                    want = a * b & ((1 << w) - 1)
                    if c[0] in ("panic", "err"):
                        check.txt = "%#x * %#x: %s" % (a, b, o.what or "an error is returned")
                        return False
                    sl = j.slots(o, (c[0], e.V(c[1])) if c[0] == "ok" else c)
                    g = j.number(cs, e.V(sl[0][1]))
                    if g is None:
                        return None
                    check.txt = "%#x * %#x gives %#x instead of %#x" % (a, b, g[1], want)
                    return g[1] == want
                except (Unknown, ZeroDivisionError):
                    return None
            e = conc.witness(o.st, check, seed=seed, tries=300)
            if e is not None:
                bad = bad or "width %d: %s" % (w, check.txt[:600])
            elif c[0] == "ok":
                und.append("value not established")
            else:
                und.append("%s %s" % (c[0], o.what))
    if bad:
        return "violated", bad, num
    if und:
        return "undecided", "; ".join(sorted(set(map(str, und))))[:300], num
    return "proved", "", num


# ------------------------------------------------------------ division
DIV = {"udiv": ("q",), "urem": ("r",), "udivrem": ("q", "r"), "uremdiv": ("r", "q")}


def quotient(st, segs, n, X, Y, kind):
    """are the numbers of segs the quotient / remainder of X by Y on the path st?"""
    d = poly.Dom(st)
    try:
        x, y = d.operand(X, n), d.operand(Y, n)
        v = [d.number(s, n) for s in segs]
        if any(i is None for i in v):
            return False
        q = v[kind.index("q")] if "q" in kind else None
        r = v[kind.index("r")] if "r" in kind else None

        def rest(r):
            return d.lb(r) >= 0 and d.ub(d.add(r, y, -1)) < 0
        if q is not None and r is not None:
            ok = not d.expand(d.add(d.add(d.mul(y, q), r), x, -1)) and rest(r)
        elif q is not None:
            m = d.expand(d.add(x, d.mul(y, q), -1))
            ok = any(d.expand(c) == m and rest(c) for c in [{}, x] + [{(a,): 1} for a, i in enumerate(d.info) if i[0] == "R"])
        else:
            ok = rest(r) and d.over(d.expand(d.add(x, r, -1)), y) is not None
        if not ok:
            d.possible()
        return ok
    except poly.Infeasible:
        return True


def never(st):
    try:
        poly.Dom(st).possible()
    except poly.Infeasible:
        return True
    return False


def parts(n):
    """which digits of the dividend and the divisor are taken to be zero"""
    if n <= 2:
        return [("", n, n)]
    return [(", divisor below 2^64", n, 1), (", dividend below 2^128", 2, n)]


def div(p, fn, w, case, seed, seconds):
    ss = scen.scenarios(p, fn.f, at=(w, w))
    if not ss:
        return "undecided", "arguments", 1
    n = (w + 63) // 64
    und, bad, num = [], None, 0
    for sc in ss:
        j = judge.J(p, fn, sc)
        X, Y = j.i.x.name, j.i.y.name
        scen.ORG.clear()
        scen.ORG.update(sc.orgs)
        for nm, k in ((X, case[1]), (Y, case[2])):
            for i in range(k, n):
                sc.st.refine_dig(T("dig", (nm, lc(i)), 64), tc(0, 64))
        loops.CAP, old = CAP, loops.CAP
        try:
            I, outs = scen.run(p, fn.f, sc, seconds=seconds, unroll=True, budget=2000000)
        finally:
            loops.CAP = old
        for o in outs:
            num += 1
            if o.kind == "budget":
                und.append("budget")
                continue
            if o.st.taint:
                und.append("taint " + ",".join(sorted(map(str, o.st.taint))))
                continue
            c = j.cls(o)
            kind = DIV[fn.op.name]
            if c[0] == "ok":
                sl = j.slots(o, c)
                vs = [view(o.st, s[1]) if s[1] is not None else None for s in sl]
                if len(vs) == len(kind) and all(v is not None and v.ok and v.len.is_const() and v.len.c == n for v in vs):
                    if forall(o.st.copy(), lambda st: quotient(st, [v.segs for v in vs], n, X, Y, kind)):
                        continue
            elif forall(o.st.copy(), lambda st: not poly.Dom(st).operand(Y, n) or never(st)):
                continue                 # division by zero: decided elsewhere

            def check(cs, e):
                try:
                    a, b = (sum(e.dig(T("dig", (q, lc(k)), 64)) << 64 * k for k in range(n)) for q in (X, Y))
                    if b == 0:
                        return True
                    want = {"q": a // b, "r": a % b}
                    if c[0] in ("panic", "err"):
                        check.txt = "%#x / %#x: %s" % (a, b, o.what or "an error is returned")
                        return False
                    for s, k in zip(j.slots(o, (c[0], e.V(c[1]))), kind):
                        g = j.number(cs, e.V(s[1]))
                        if g is None:
                            return None
                        if g[1] != want[k]:
                            check.txt = "%#x / %#x gives the %s %#x instead of %#x" % (a, b, {"q": "quotient", "r": "remainder"}[k], g[1], want[k])
                            return False
                    return True
                except (Unknown, ZeroDivisionError):
                    return None
            e = conc.witness(o.st, check, seed=seed, tries=300)
            if e is not None:
                bad = bad or "width %d: %s" % (w, check.txt[:600])
            elif c[0] == "ok":
                und.append("value not established")
            else:
                und.append("%s %s" % (c[0], o.what))
    if bad:
        return "violated", bad, num
    if und:
        return "undecided", "; ".join(sorted(set(map(str, und))))[:300], num
    return "proved", "", num


DWIDTHS = (1, 2, 8, 31, 32, 33, 63, 64, 65, 96, 100, 127, 128, 129, 160, 192, 193, 255, 256, 320, 448, 512, 700, 1024)
DMORE = (257, 384, 600, 640, 1000, 1280)


def djob(a):
    k, w, case, seconds = a
    p, tab = G
    fn = tab[k]
    try:
        st, d, n = div(p, fn, w, case, 1, seconds)
    except Exception as e:
        st, d, n = "undecided", "analysis: %r" % (e,), 1
    return (fn.label, "width %d%s" % (w, case[0]), "quotient", st, d, n)


def divisions(p, long=False):
    global G
    tab = spec.table(p)[0]
    G = (p, tab)
    fs = [k for k, f in enumerate(tab) if f.op.name in DIV]
    jobs = [(k, w, c, 200 if long else 60) for w in sorted(DWIDTHS + (DMORE if long else ()), reverse=True) for c in parts((w + 63) // 64) for k in fs]
    out = jobs_.run(djob, jobs, long)
    if not fs:
        out.append(("wrapping_udiv_assign", "-", "quotient", "undecided", "not found", 1))
    return out


G = None


def job(a):
    k, w, seconds = a
    p, tab = G
    fn = tab[k]
    try:
        st, d, n = one(p, fn, w, 1, seconds)
    except Exception as e:
        st, d, n = "undecided", "analysis: %r" % (e,), 1
    return (fn.label, "width %d" % w, "product", st, d, n)


def records(p, long=False):
    global G
    tab = spec.table(p)[0]
    G = (p, tab)
    fs = [k for k, f in enumerate(tab) if f.op.name == "mul"]
    main = [k for k in fs if tab[k].label == "ApInt::wrapping_mul_assign"]
    jobs = [(k, w, 250 if long else 150) for w in reversed(ONE + ((512,) if long else ())) for k in main]
    jobs += [(k, w, 200 if long else 60) for w in sorted(WIDTHS + (MORE if long else ()), reverse=True) for k in fs if (k, w) not in {j[:2] for j in jobs}]
    out = jobs_.run(job, jobs, long)
    if not fs:
        out.append(("wrapping_mul_assign", "-", "product", "undecided", "not found", 1))
    return out
