"""Which obligations on which functions make up each property."""
import heapq, os, queue, sys, time
from multiprocessing import Pool
import scen, spec, sweep
from prog import Prog

G = None     # (program, function table)


def two(fn):
    return any(e is spec.mismatch for e in fn.op.errs)


AR = ("arith", "div")


def C01(fn):
    return ["canon"] if (fn.op.res == "ap" or fn.op.errs) and fn.op.group not in ("parse",) else []


def C02(fn):
    return ["err:width"] if two(fn) else []


def C03(fn):
    return ["unch"] if fn.op.errs else []


def C04(fn):
    return ["err:div"] if fn.op.group == "div" else []


def C05(fn):
    return ["err:pos"] if spec.badpos in fn.op.errs else ["err:shift"] if spec.badshift in fn.op.errs else []


def C06(fn):
    out = []
    if fn.op.res == "ap" and fn.op.group not in ("parse", "prim") or fn.op.name == "width":
        out.append("width")
    if spec.badtrunc in fn.op.errs or spec.badext in fn.op.errs:
        out.append("err:cast")
    return out


def C07(fn):
    return ["store"] if fn.op.group not in ("parse",) else []


def C08(fn):
    return ["shared"] if fn.op.group not in ("parse",) else []


def C11(fn):
    return ["bits"] if fn.op.group == "bitwise" else []


def C20(fn):
    return ["bits"] if fn.op.group == "cast" else []


def C09(fn):
    return ["alloc"] if fn.op.group in ("bitwise", "shift", "arith", "div", "pred", "cmp", "eq", "count", "width", "same", "assign", "cast") else []


def C10(fn):
    return ["bits"] if fn.op.group in ("eq", "assign", "same", "hash") else []


def C12(fn):
    return ["bits"] if fn.op.group == "pred" else []


def C13(fn):
    return ["bits"] if fn.op.group == "cmp" else []


def C24(fn):
    return ["bits"] if fn.op.name in ("sdiv", "srem", "sdivrem", "sremdiv", "neg", "abs") else []


def C25(fn):
    return ["bits"] if fn.op.name in ("add", "sub", "inc", "dec", "neg") else []


def C26(fn):
    return ["bits"] if fn.op.group == "count" else []


SIGNLESS = ("parse", "random", "hash")


def C14(fn):
    if fn.ty not in ("Int", "UInt") or fn.op.group in SIGNLESS:
        return []
    return ["bits"] + (["err:none"] if fn.op.name == "oneopt" else [])


def errtags(fn):
    """the error obligations of the operation"""
    t = []
    for e in fn.op.errs:
        n = {"mismatch": "width", "badpos": "pos", "badshift": "shift", "badtrunc": "cast", "badext": "cast"}.get(e.__name__)
        n = n or ("div" if fn.op.group == "div" else "prim" if fn.op.group == "prim" else None)
        if n and "err:" + n not in t:
            t.append("err:" + n)
    return t


def C15(fn):
    if fn.panics:
        return ["bits", "panic"] + errtags(fn) if fn.op.res == "ap" else []
    return ["bits"] + errtags(fn) if fn.name.startswith("into_") else []


def C16(fn):
    if fn.op.group != "prim":
        return []
    return ["bits", "width"] if fn.op.res == "ap" else ["bits", "err:prim"]


def C21(fn):
    if fn.panics or fn.op.group in ("parse", "hash"):
        return []
    return ["panic"]


def C22(fn):
    return ["bits", "width"] if fn.op.group in ("ctor", "random") else []


def C23(fn):
    return ["bits"] if fn.op.group == "shift" else []


def C19(fn):
    if fn.op.group == "parse":
        return []
    return ["frozen"]


def none(fn):
    return []


def C18_text(p, quick):
    import parse
    return parse.radix_new(p) + parse.records(p, False, not quick)


def C27_text(p, quick):
    import parse
    return parse.records(p, True, not quick)


def C28_text(p, quick):
    import format
    return format.records(p, not quick)


def C17_serde(p, quick):
    import serial
    return serial.records(p, not quick)


def C31_small(p, quick):
    import small
    return small.records(p, not quick)


def C05_numbers(p, quick):
    """the numbers callers give reach the operations unchanged"""
    import small
    return [r for r in small.records(p) if r[0] in ("BitPos::new", "BitPos::from", "ShiftAmount::from")]


def C06_numbers(p, quick):
    import small
    return [r for r in small.records(p) if r[0] in ("BitWidth::new", "BitWidth::from") or r[2] == "constant"]


def C19_types(p, quick):
    """type-level facts: records (where, case, rule, status, detail, n)"""
    out = []
    seen = {}
    for path, send, sync, span, cells in p.adts:
        nm = path.split("::")[-1]
        if path.count("::") <= 2 and nm in ("ApInt", "Int", "UInt"):
            seen[nm] = True
            for tr, ok in (("Send", send), ("Sync", sync)):
                out.append((nm, "-", tr, "proved" if ok else "violated", "%s is not %s (%s:%d)" % (nm, tr, span[0], span[1]), 1))
            out.append((nm, "-", "no interior mutability", "violated" if cells else "proved",
                        "%s (%s:%d) contains %s, so a shared reference can change it" % (nm, span[0], span[1], ", ".join(cells)), 1))
    for nm in ("ApInt", "Int", "UInt"):
        if nm not in seen:
            out.append((nm, "-", "Send", "undecided", "type not found", 1))
    bad = [x for x in p.statics if x[1] or x[4]]
    for x in bad:
        out.append((x[0], "-", "no mutable global", "violated", "static %s at %s:%d is mutable state shared by all callers" % (x[0], x[3][0], x[3][1]), 1))
    if not bad:
        out.append(("crate", "-", "no mutable global", "proved", "", 1))
    return out


def C29_values(p, quick):
    import product
    return product.records(p, not quick)


def C30_values(p, quick):
    import product
    return product.divisions(p, not quick)


EXTRA = {"C05": C05_numbers, "C06": C06_numbers, "C17": C17_serde, "C29": C29_values, "C30": C30_values, "C18": C18_text, "C19": C19_types, "C27": C27_text, "C28": C28_text, "C31": C31_small}
PROPS = {
    "C01": (C01, "every value visible after a call has zero bits above its width"),
    "C02": (C02, "different widths: error naming both widths; equal widths: never that error"),
    "C03": (C03, "Err outcomes leave every &mut operand identical"),
    "C04": (C04, "equal widths: division error (tag, dividend) iff the divisor is zero"),
    "C05": (C05, "position / amount accepted iff below the width, error carries both"),
    "C06": (C06, "result widths and cast acceptance"),
    "C07": (C07, "ownership typestate of digit buffers"),
    "C08": (C08, "shared operands identical after the call, no two visible values share a buffer"),
    "C09": (C09, "no allocation event on successful paths of the listed classes"),
    "C10": (C10, "equality, clone and assignment decided by width and every digit"),
    "C11": (C11, "every result bit of bitwise operations"),
    "C12": (C12, "predicates against the value of all bits"),
    "C13": (C13, "comparisons against the order of the values"),
    "C14": (C14, "Int / UInt methods against the signed / unsigned operation"),
    "C15": (C15, "consuming and operator forms against the operation; panic iff error"),
    "C16": (C16, "primitive conversions: width, bits, range error"),
    "C18": (none, "outcome (accepted, error with input, radix, position and character, panic) of every byte in every string shape and radix"),
    "C27": (none, "number held by the result for every byte in every string shape and radix"),
    "C17": (none, "tree of numbers, sequences and maps written and read through the serde traits, with every digit and width free"),
    "C31": (none, "number read back from a width, position, shift amount or radix against the number it was made from; comparisons against those of the numbers"),
    "C28": (none, "sequence of text pieces and digits written by the formatting traits, for free digits at each width"),
    "C29": (none, "digits of the product as exact polynomials in the operands' digits, on every path at each width, all digits free"),
    "C30": (none, "dividend = divisor * quotient + remainder with remainder < divisor as exact polynomials, on every path at each width, all digits free"),
    "C19": (C19, "Send and Sync hold, no interior mutability or mutable global, no write through a shared reference on any path"),
    "C20": (C20, "every result bit of truncation, extension and resizing"),
    "C21": (C21, "no panicking path is feasible"),
    "C22": (C22, "bit patterns of constructors"),
    "C23": (C23, "every result bit of shifts"),
    "C25": (C25, "sums, differences, increments and decrements digit by digit with the carry followed through every loop"),
    "C26": (C26, "bit counts against the digits they refer to, sums followed through the loop"),
    "C24": (C24, "signed operations expressed through the unsigned ones by the sign rules"),
}
FLOOR = {}
BOUND = "static proof over the compiler's MIR, bounded: %s; every digit is free, so all values of those cases are covered"
TECH = {
    "C17": "abstract interpretation of compiled MIR, with serde's data model as the caller-supplied serializer and deserializer",
    "C18": "abstract interpretation of compiled MIR, unrolled per string shape and radix, one byte free over all its values",
    "C27": "abstract interpretation of compiled MIR, unrolled per string shape and radix, one byte free over all its values",
    "C28": "abstract interpretation of compiled MIR, unrolled per width, with the pieces written as an effect trace",
    "C29": "abstract interpretation of compiled MIR, unrolled per width, in a domain of exact integer polynomials with carry terms",
    "C30": "abstract interpretation of compiled MIR, unrolled per width, in a domain of exact integer polynomials with quotient and remainder terms",
}
NOTE = {
    "C17": BOUND % "reading: every width against every digit count up to 20 (40 thorough), and a list of malformed inputs; writing: all widths up to 320 bits and some up to 700",
    "C18": "static proof over the compiler's MIR, bounded: the string shapes and all 35 radices listed in DESIGN.md, every byte value at the free position",
    "C27": "static proof over the compiler's MIR, bounded: the string shapes and all 35 radices listed in DESIGN.md, every digit at the free position",
    "C28": BOUND % "19 widths up to 640 bits (28 in the thorough run)",
    "C29": BOUND % "19 widths up to 320 bits for all functions, and 384 and 448 bits for the in-place one (more in the thorough run)",
    "C30": BOUND % "24 widths up to 1024 bits; above 128 bits only a divisor below 2^64 or a dividend below 2^128",
}


def work1(a):
    k, names, cfg, only = a
    p, tab = G
    if time.time() > cfg["deadline"]:
        return k, only, [(tab[k].label, "-", n, "undecided", "time limit", 1) for n in names], {}, []
    recs, stats, todo = sweep.decide(p, tab[k], names, cfg, only)
    return k, only, [(r.fn, r.scen, r.ob, r.status, r.detail, r.n) for r in recs], stats, todo


def work2(a):
    k, desc, names, at, cfg = a
    p, tab = G
    try:
        return k, desc, sweep.refine(p, tab[k], at, names, cfg)
    except Exception as e:
        return k, desc, {}


SPLIT = ["ep=ep", "ef=ef", ""]


def check(pid, tier, seed, mir, t0, known=()):
    global G
    p = Prog(mir)
    tab, rest = spec.table(p)
    G = (p, tab)
    sel, title = PROPS[pid]
    jobs, nfn = [], 0
    quick = tier == "quick"
    end = t0 + (720 if quick else 3000)
    cfg = {"seed": seed, "deadline": t0 + (420 if quick else 2400)}
    if not quick:
        cfg.update(pool=12, tries=1000, inst_seconds=60, seconds=300)
    for k, fn in enumerate(tab):
        names = sel(fn)
        if names:
            nfn += 1
            if fn.op.name == "mul" or fn.op.group == "div":      # the expensive ones: one job per width class
                for sc in SPLIT:
                    jobs.append((k, names, cfg, sc))
            else:
                jobs.append((k, names, cfg, None))
    heavy = [j for j in jobs if tab[j[0]].op.name == "mul"] + [j for j in jobs if tab[j[0]].op.group == "div"]
    hv = {id(j) for j in heavy}
    light = [j for j in jobs if id(j) not in hv]
    recs, tot, todo = [], {"scen": 0, "out": 0, "steps": 0, "inst": 0}, []
    missing = {(k, o): n for k, n, _, o in jobs}
    found, stop = {}, end
    np = min(8, os.cpu_count() or 8)
    pool = Pool(np)
    done = queue.Queue()
    closer, busy1, busy2, busyh = [], 0, 0, 0       # second-stage work, by round
    heavy.reverse()
    light.reverse()
    try:
        while True:
            while busy1 + busy2 < np and (closer or heavy or light):
                if closer and (busy2 < np // 2 or not (heavy or light)):
                    _, _, x = heapq.heappop(closer)
                    pool.apply_async(work2, (x,), callback=lambda r: done.put((2, r)), error_callback=lambda e: done.put((2, None)))
                    busy2 += 1
                else:
                    h = bool(heavy) and (busyh < np // 2 - 1 or not light)
                    pool.apply_async(work1, ((heavy if h else light).pop(),), callback=lambda r, h=h: done.put((1 + 2 * h, r)),
                                     error_callback=lambda e, h=h: done.put((1 + 2 * h, None)))
                    busy1 += 1
                    busyh += h
            if not busy1 and not busy2:
                break
            try:
                stage, r = done.get(timeout=max(0.1, stop - time.time()))
            except queue.Empty:
                break
            if stage != 2:
                busy1 -= 1
                busyh -= stage == 3
                if r is None:
                    continue
                k, o, rr, st, td = r
                recs += rr
                missing.pop((k, o), None)
                for x in st:
                    tot[x] += st[x]
                for desc, fails, ats in td:
                    todo.append((k, desc, fails))
                    for rnd, at in enumerate(ats):
                        heapq.heappush(closer, (rnd, (k, desc, rnd), (k, desc, sorted(fails), at, cfg)))
            else:
                busy2 -= 1
                if r is None:
                    continue
                k, desc, f = r
                tot["inst"] += 1
                for n, txt in f.items():
                    found.setdefault((k, desc, n), txt)
                    if quick and "%s | %s" % (tab[k].label, n) not in known:
                        stop = min(stop, time.time() + 15)      # one is enough: a few more, then report
    finally:
        pool.terminate()
        pool.join()
    for (k, _), names in missing.items():
        recs += [(tab[k].label, "-", n, "undecided", "not reached", 1) for n in names]
    todo.sort(key=lambda x: x[:2])
    for k, desc, fails in todo:
        for n, txt in fails.items():
            f = found.get((k, desc, n))
            recs.append((tab[k].label, desc, n, "violated" if f else "undecided", f or txt, 1))
    if pid in EXTRA:
        ex = EXTRA[pid](p, quick)
        recs += ex
        if not jobs:
            nfn = len({r[0] for r in ex})
            tot["out"] = sum(r[5] for r in ex)
    viol = sorted((r[0], r[1], r[2], r[4]) for r in recs if r[3] == "violated")
    und = sorted("%s [%s] %s: %s" % (r[0], r[1], r[2], r[4]) for r in recs if r[3] == "undecided")
    done = sum(1 for r in recs if r[3] == "proved")
    if not jobs:
        expl = "abstract interpretation of the compiled MIR; rule: %s. %d functions, %d cases, %d strings, values or paths covered; %d cases decided, %d undecided." % (
            title, nfn, len(recs), tot["out"], done, len(und))
    else:
        expl = None
    cov = {
        "explanation": expl or "abstract interpretation of the compiled MIR; rule: %s. %d functions, %d width scenarios, %d outcome states, %d abstract steps, %d fixed-width re-analyses; %d obligations, %d discharged for all inputs, %d undecided." % (
            title, nfn, tot["scen"], tot["out"], tot["steps"], tot["inst"], len(recs), done, len(und)),
        "functions": sorted({r[0] for r in recs}), "obligations": len(recs), "discharged": done, "undecided": und,
    }
    need = FLOOR.get(pid, 1)
    if nfn < need:
        viol.append(("anchor", "-", "coverage", "only %d public functions found where at least %d are expected" % (nfn, need)))
    return viol, cov
