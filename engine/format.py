"""Text produced by the Binary, LowerHex and UpperHex implementations.

Each implementation is followed, for a number of widths and with every digit
free, into the list of pieces it writes (literal text, or a digit with its
base, padding and case).  A list is right if it is the digits from the first
non-zero one down, that one unpadded and the others padded with zeros to the
full width; a list of another form is compared with the number at concrete
points of its path."""
import jobs as jobs_
import scen, conc
from lin import Lin, lc
from terms import T, tc
from conc import Unknown

PLAIN = (0x60000020, 0)
KIND = {"Binary": (1, 64, "b"), "LowerHex": (4, 16, "x"), "UpperHex": (4, 16, "X")}
WIDTHS = (1, 8, 37, 63, 64, 65, 100, 127, 128, 129, 192, 193, 255, 256, 320, 500, 512, 577, 640)
MORE = (2, 33, 191, 257, 384, 449, 511, 513, 600)


def targets(p):
    out = []
    for k, f in p.fns.items():
        tr = (f.d.get("impl_trait") or "").rsplit("::", 1)[-1]
        ty = (f.d.get("impl_self") or "").rsplit("::", 1)[-1]
        if f.local and f.d.get("name") == "fmt" and tr in KIND and ty in ("ApInt", "Int", "UInt"):
            out.append((ty + " as " + tr, tr, k))
    return sorted(out)


def zero(st, t):
    return st.truth(("teq", t, tc(0, 64)))


def pad(o, full):
    """options of a piece: 0 for none, else the number of characters it is filled up to with zeros; None otherwise"""
    fl, w = o
    if fl >> 23 & 1 or fl >> 21 & 1 or fl >> 25 & 3 or fl >> 28 & 1:
        return None
    if not fl >> 27 & 1:
        return 0
    if fl >> 24 & 1:
        return w
    return None


def structural(st, name, n, items, tr):
    bits, full, _ = KIND[tr]
    ds = [T("dig", (name, lc(k)), 64) for k in range(n)]
    if len(items) == 1 and items[0] == ("text", "0"):
        return all(zero(st, d) is True for d in ds)
    m = len(items)
    if m > n or any(i[0] != "num" or i[1] != tr or i[3] != (64, False) for i in items):
        return False
    for k, i in zip(range(m - 1, -1, -1), items):
        v = i[4]
        if not isinstance(v, Lin) or v != ds[k].lin():
            return False
        if pad(i[2], full) != (full if k < m - 1 else 0):
            return False
    return all(zero(st, d) is True for d in ds[m:]) and (m == 1 or zero(st, ds[m - 1]) is False)


def render(e, items):
    out = ""
    for i in items:
        if i[0] == "text":
            out += i[1]
        elif i[0] == "char":
            out += chr(e.L(i[1]))
        elif i[0] == "num" and i[3] and isinstance(i[4], Lin):
            v = e.L(i[4])
            p = pad(i[2], 0)
            if p is None or v < 0 or i[3][1]:
                return None
            f = {"Binary": "b", "LowerHex": "x", "UpperHex": "X", "Octal": "o", "Display": "d"}.get(i[1])
            if f is None:
                return None
            s = format(v, f)
            out += "0" * (p - len(s)) + s
        else:
            return None
    return out


def one(p, k, tr, w, seed):
    f = p.fns[k]
    ss = scen.scenarios(p, f, at=(w,))
    if not ss:
        return "undecided", "arguments", 1
    sc = ss[0]
    key = (0, "o1")
    sc.st.env[key] = ("FM", PLAIN, ())
    sc.args[1] = ("R", ("v",) + key, ())
    I, outs = scen.run(p, f, sc, seconds=30, unroll=True, budget=150000)
    name, n = sc.ops[0].name, (w + 63) // 64
    und, bad = [], None
    for o in outs:
        if o.kind == "budget":
            und.append("budget")
            continue
        if o.st.taint:
            und.append(",".join(sorted(o.st.taint)))
            continue
        items = None
        if o.kind == "ret":
            v = o.st.env.get(key)
            items = v[2] if isinstance(v, tuple) and v[0] == "FM" else None
            okv = isinstance(o.val, tuple) and o.val[0] == "S" and o.val[1] == 0
            if items is None:
                und.append("formatter")
                continue
            if okv and structural(o.st, name, n, items, tr):
                continue
            if not okv:
                items = None

        def check(cs, e):
            try:
                x = sum(e.dig(T("dig", (name, lc(i)), 64)) << 64 * i for i in range(n))
                want = format(x, KIND[tr][2])
                if items is None:
                    check.txt = "%s" % (o.what or "an error is returned")
                    return False
                s = render(e, items)
                if s is None:
                    return None
                check.txt = "%s is written as %s" % (want, s)
                return s == want
            except (Unknown, ZeroDivisionError):
                return None
        e = conc.witness(o.st, check, seed=seed, tries=200)
        if e is not None:
            bad = bad or "width %d: %s" % (w, check.txt[:300])
        else:
            und.append("text not established")
    if bad:
        return "violated", bad, len(outs)
    if und:
        return "undecided", "; ".join(sorted(set(und)))[:200], len(outs)
    return "proved", "", len(outs)


G = None


def job(a):
    label, tr, k, w = a
    try:
        st, d, n = one(G, k, tr, w, 1)
    except Exception as e:
        st, d, n = "undecided", "analysis: %r" % (e,), 1
    return (label, "width %d" % w, "text", st, d, n)


def records(p, long=False):
    global G
    G = p
    ts = targets(p)
    out = jobs_.run(job, [(l, tr, k, w) for w in sorted(WIDTHS + (MORE if long else ()), reverse=True) for l, tr, k in ts], long)
    for ty in ("ApInt", "Int", "UInt"):
        for tr in KIND:
            if ty + " as " + tr not in {t[0] for t in ts}:
                out.append((ty + " as " + tr, "-", "text", "undecided", "not found", 1))
    return out
