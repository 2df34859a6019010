"""Decide the obligations of a property on the public functions it concerns.

For every function and every width class the abstract outcomes are computed
once (all widths, all values) and the property's obligations are decided on
each.  An obligation that is not established is examined again with the widths
fixed to sample numbers (digits, positions and shift amounts stay symbolic and
loops are followed exactly); it is reported only if a concrete point of such a
state breaks it, otherwise it counts as undecided."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import scen, spec, judge, conc, loops, api
from lin import lc, ATOMS
from terms import NeedSplit
from judge import J

KERNELS = ("large_div_by_small", "large_div_by_u32", "large_div_by_large")
POOL = {"ip": [1, 2, 7, 8, 32, 33, 63], "if": [64], "ep": [65, 100, 129, 700, 191, 200, 127], "ef": [128, 192, 640, 256]}

# obligation name -> (abstract, concrete)
OBS = {
    "width": (J.a_width, J.c_width), "canon": (J.a_canon, J.c_canon), "store": (J.a_store, J.c_store),
    "unch": (J.a_unch, J.c_unch), "shared": (J.a_shared, J.c_shared), "alloc": (J.a_alloc, J.c_alloc),
    "frozen": (J.a_frozen, J.c_frozen), "panic": (J.a_panic, J.c_panic), "bits": (J.a_bits, J.c_bits),
}
for _t in ("width", "pos", "shift", "cast", "div", "prim", "none"):
    OBS["err:" + _t] = ((lambda t: lambda j, o: j.a_err(o, t))(_t), (lambda t: lambda j, o, cs, n: j.c_err(o, cs, n, t))(_t))


def havoc(I, fn, args):
    return fn.path.rsplit("::", 1)[-1] in KERNELS


_API = {}


def api_for(p):
    if id(p) not in _API:
        _API[id(p)] = api.handler(api.contracts(p, spec.table(p)[0]))
    return _API[id(p)]


class Rec:
    """one decided obligation"""
    __slots__ = ("fn", "scen", "ob", "status", "detail", "n")

    def __init__(self, fn, scen, ob, status, detail="", n=1):
        self.fn, self.scen, self.ob, self.status, self.detail, self.n = fn, scen, ob, status, detail, n


def outcome_text(j, o):
    c = j.cls(o)
    if c[0] == "panic":
        return "panics: %s%s" % (c[1], (" at " + str(o.where)) if o.where else "")
    if c[0] == "err":
        return "returns Err(%s)" % c[1]
    return "returns Ok" if j.res else "returns"


def intervals(st):
    """interval propagation over the linear constraints: atom -> [lo, hi]"""
    iv = {}
    for c in st.cons:
        for a, _ in c.t:
            A = ATOMS[a]
            iv[a] = [A.lo, A.hi]
    for _ in range(8):
        ch = False
        for c in st.cons:
            for a, k in c.t:
                rest = c.c
                for b, x in c.t:
                    if b != a:
                        v = iv[b][1 if x > 0 else 0]
                        if v is None:
                            rest = None
                            break
                        rest += x * v
                if rest is None:
                    continue
                lo, hi = iv[a]
                if k > 0:
                    n = -(rest // k)
                    if lo is None or n > lo:
                        iv[a][0] = n
                        ch = True
                else:
                    n = rest // -k
                    if hi is None or n < hi:
                        iv[a][1] = n
                        ch = True
        if not ch:
            break
    return iv


def sample_widths(sc, st, n=3, cap=6000):
    """concrete widths for the scenario's width symbols that satisfy the state's constraints"""
    import random
    rnd = random.Random(5)
    iv = intervals(st)
    atoms = sorted({a for w in sc.widths for a, _ in w.w.t})
    out = []
    for t in range(80):
        val = {}
        for a in atoms:
            lo, hi = iv.get(a) or (ATOMS[a].lo, ATOMS[a].hi)
            lo = 1 if lo is None else lo
            hi = lo + 6 if hi is None else hi
            c = rnd.random()
            m = hi if c > 0.85 and hi < 100 else lo + (0 if t == 0 or c < 0.4 else rnd.randint(0, min(8 if hi > 100 else 63, hi - lo)) if hi > lo else 0)
            val[a] = m
        at = tuple(w.w.c + sum(k * val[a] for a, k in w.w.t) for w in sc.widths)
        if any(v > cap for v in at) or at in out:
            continue
        ok = True
        for c in st.cons:
            if all(a in val for a, _ in c.t) and c.c + sum(k * val[a] for a, k in c.t) < 0:
                ok = False
                break
        if ok:
            out.append(at)
            if len(out) >= n:
                break
    big = sorted({abs(k) for c in st.cons for k in [c.c] + [k for _, k in c.t] if cap < abs(k) <= 1 << 24})
    for k in big[:2]:          # thresholds far out: a width beyond (fine where no loop runs over the digits)
        at = []
        for w in sc.widths:
            e = [a for a, m in w.w.t if m == 64]
            r = [a for a, m in w.w.t if m == 1]
            at.append(64 * (k // 64 + 67) + (5 if r else 0) if e else None)
        if at and None not in at and tuple(at) not in out:
            out.append(tuple(at))
    return out


def pool_widths(sc, k):
    d = sc.desc
    if not sc.widths:
        return [()]
    if len(sc.widths) == 1:
        l = POOL[d]
        return [(w,) for w in l[:k]]
    a, r, b = d[:2], d[2], d[3:]
    out = []
    for x in POOL[a]:
        for y in POOL[b]:
            if (r == "=" and x == y) or (r == "<" and x < y) or (r == ">" and x > y):
                out.append((x, y))
    if r == "=":
        return out[:k]
    if len(out) > k:
        s = len(out) / k
        out = [out[int(i * s)] for i in range(k)]
    return out


def decide(p, fn, names, cfg, only=None):
    """first stage, all inputs: (records, statistics, what remains open)

    open: (scenario, {obligation: outcomes}, widths worth a closer look)"""
    recs, todo = [], []
    stats = {"scen": 0, "out": 0, "steps": 0, "inst": 0}
    try:
        scs = scen.scenarios(p, fn.f)
    except Exception as e:
        return [Rec(fn.label, "-", n, "undecided", "scenario: %r" % e) for n in names], stats, []
    if not scs:
        return [Rec(fn.label, "-", n, "undecided", "arguments not representable") for n in names], stats, []
    if only is not None:       # this width class, or ("") all that have no job of their own
        scs = [s for s in scs if (s.desc == only if only else s.desc not in ("ep=ep", "ef=ef"))]
    for sc in scs:
        want = [n for n in names if relevant(n, fn, sc)]
        if not want:
            continue
        stats["scen"] += 1
        fails = {}
        try:
            I, outs = scen.run(p, fn.f, sc, seconds=cfg.get("seconds", 120), havoc=havoc, api=api_for(p))
            stats["out"] += len(outs)
            stats["steps"] += I.steps
            j = J(p, fn, sc)
            for o in outs:
                for n in want:
                    try:
                        r = OBS[n][0](j, o)
                    except (NeedSplit, RecursionError):
                        r = False
                    if r is not True:
                        fails.setdefault(n, []).append((o, outcome_text(j, o)))
        except Exception:
            tb = traceback.format_exc().strip().splitlines()
            for n in want:
                fails.setdefault(n, []).append((None, "analysis: " + tb[-1][:200] + " " + (tb[-3].strip() if len(tb) > 3 else "")))
            outs = []
        for n in want:
            if n not in fails:
                recs.append(Rec(fn.label, sc.desc, n, "proved", "", len(outs)))
        if fails:
            ats = []
            for n, l in fails.items():
                for o, _ in l[:6]:
                    if o is not None:
                        try:
                            for a in sample_widths(sc, o.st):
                                if a not in ats:
                                    ats.append(a)
                        except Exception:
                            pass
            ats = ats[:5]
            for a in pool_widths(sc, cfg.get("pool", 5)):
                if a not in ats:
                    ats.append(a)
            todo.append((sc.desc, {n: "; ".join(sorted({t for _, t in l}))[:200] for n, l in fails.items()}, ats))
    return recs, stats, todo


INPLACE = ("not", "and", "or", "xor", "shl", "lshr", "ashr", "inc", "dec", "neg", "add", "sub")


def relevant(n, fn, sc):
    """does the obligation say something about this width class?"""
    if n == "alloc":       # values of at most 64 bits, or an in-place operation documented as not allocating
        if fn.op.name in INPLACE and not fn.name.startswith("into_") and not fn.panics:
            return True
        if fn.op.group == "cmp" and "=" not in sc.desc:      # reported through an error, which carries text
            return False
        return "e" not in sc.desc
    return True


def refine(p, fn, at, names, cfg):
    """second stage, one choice of widths: {obligation: witness text}"""
    found = {}
    ss = scen.scenarios(p, fn.f, at=at)
    if not ss:
        return found
    s2 = ss[0]
    I, outs = scen.run(p, fn.f, s2, seconds=cfg.get("inst_seconds", 15), unroll=True, budget=250000)
    skip = set()
    while len(skip) < 3 and any(o.kind == "budget" for o in outs):
        # the paths through the most expensive callee are given up; the others are still followed
        c = [(n, k) for k, n in I.cost.items() if n >= 0.6 * I.steps and p.fns[k].local and "{closure" not in k and k not in skip]
        if not c:
            break
        skip.add(min(c)[1])
        s2 = scen.scenarios(p, fn.f, at=at)[0]
        I, outs = scen.run(p, fn.f, s2, seconds=cfg.get("inst_seconds", 15), unroll=True, budget=100000,
                           havoc=lambda I, f, args: f.key in skip)
    j = J(p, fn, s2)
    for o in outs:
        if o.st.taint or o.kind == "budget":
            continue
        if o.kind == "ret":
            o.st.env[("ret", 0)] = o.val
        for n in names:
            if n in found:
                continue
            try:
                if OBS[n][0](j, o) is True:
                    continue
            except (NeedSplit, RecursionError):
                pass

            def check(cs, e):
                try:
                    return OBS[n][1](j, o, cs, spec.N(e, s2))
                except (conc.Unknown, ZeroDivisionError, NeedSplit):
                    return None
            e = conc.witness(o.st, check, seed=cfg.get("seed", 1), tries=cfg.get("tries", 200))
            if e is not None:
                found[n] = "%s: input %s; %s" % (explain(n), conc.describe(e, s2), outcome_text(j, o))
    return found


def explain(n):
    return {"width": "result width wrong", "canon": "bits above the width are set", "store": "storage not owned once / not sized by the width",
            "unch": "a failed operation changed an operand", "shared": "a shared operand changed or is aliased",
            "frozen": "an operand borrowed immutably is written to",
            "alloc": "heap allocation on a path documented not to allocate", "panic": "reachable panic", "bits": "wrong result value",
            "err:width": "width mismatch not handled as specified", "err:pos": "bit position check wrong", "err:shift": "shift amount check wrong",
            "err:cast": "target width check wrong", "err:div": "zero divisor not handled as specified",
            "err:prim": "range check wrong", "err:none": "None/Some wrong"}.get(n, n)
