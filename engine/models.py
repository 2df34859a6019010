"""Abstract semantics of the library functions the crate calls.

Everything not listed here and without a body in the dump is treated as
unknown (the state is marked, and an obligation that fails in a marked state is
reported as undecided rather than as a violation).
"""
from lin import Lin, ATOMS, new_atom, la, lc, ZERO, ONE, sym
from terms import (T, NeedSplit, as_term, tc, mk, mk_not, mk_shl, mk_shr, unk, mk_trunc, const_bits, ones, subst_t, fits)
from state import (State, Region, HASH, HID, ORG, dig, arr, fresh_id, seg_read, seg_write, seg_clip, seg_shift, seg_replace,
                   seg_norm, seg_at)
from prog import norm_path

END = "END"


class Info:
    __slots__ = ("c", "path", "fid", "bb", "dty", "I", "name")

    def __init__(self, c, path, fid, bb, dty, I):
        self.c, self.path, self.fid, self.bb, self.dty, self.I = c, path, fid, bb, dty, I
        self.name = c.get("name")

    def targ(self, i):
        t = self.c.get("targs") or []
        t = [x for x in t if isinstance(x, int)]
        return t[i] if i < len(t) else None


def top(why=""):
    return ("TOP", (fresh_id(), why))


UNIT = ("S", 0, ())
NONE = ("S", 0, ())


def some(v):
    return ("S", 1, (v,))


def ok(v):
    return ("S", 0, (v,))


def err(v):
    return ("S", 1, (v,))


# ------------------------------------------------------------------ slices
def as_slice(I, st, v):
    for _ in range(4):
        if not isinstance(v, tuple):
            return None
        if v[0] == "SL":
            return v
        if v[0] in ("BOX", "VEC", "SV"):
            r = st.heap.get(v[1])
            return ("SL", ("h", v[1]), (), ZERO, r.len) if r is not None else None
        if v[0] == "R":
            x = I.load(st, v[1], v[2])
            if isinstance(x, tuple) and x[0] == "A":
                return ("SL", v[1], v[2], ZERO, lc(len(x[1])))
            if isinstance(x, tuple) and x[0] in ("BOX", "VEC", "SV", "SL", "R"):
                v = x
                continue
            if isinstance(x, tuple) and x[0] == "S" and len(x[2]) == 1:
                v = x[2][0]
                continue
            return None
        if v[0] == "S" and len(v[2]) == 1:
            v = v[2][0]
            continue
        return None
    return None


def ptr_add(I, p, n):
    root, proj = p[1], p[2]
    if proj and proj[-1][0] == "i":
        return ("R", root, proj[:-1] + (("i", proj[-1][1] + n),))
    if n.is_const() and n.c == 0:
        return p
    return ("R", root, proj + (("cell",), ("i", n)))


def slice_from_ptr(I, st, p, n):
    if isinstance(p, tuple) and p[0] == "S" and len(p[2]) == 1:
        p = p[2][0]
    if not (isinstance(p, tuple) and p[0] == "R"):
        return top("slice")
    root, proj = p[1], p[2]
    if proj and proj[-1][0] == "i":
        off = proj[-1][1]
        if root[0] == "h" and len(proj) == 1:
            r = st.heap.get(root[1])
            if r is not None:
                if r.status != "live":
                    I.event(st, "use-after-free")
                if not st.ge(r.len - off - n):
                    I.event(st, "slice beyond the buffer")
        return ("SL", root, proj[:-1], off, n)
    if not (n.is_const() and n.c <= 1):
        if not st.ge(ONE - n):
            I.event(st, "slice beyond the inline digit")
    return ("SL", root, proj + (("cell",),), ZERO, n)


def is_cell(s):
    return bool(s[2]) and s[2][-1] == ("cell",)


def get_segs(I, st, s):
    """contents of a slice as segments on [0, len); None if not a word region"""
    root, proj, off, ln = s[1], s[2], s[3], s[4]
    if is_cell(s):
        v = I.load(st, root, proj[:-1])
        t = word(I, v)
        return None if t is None else [(ZERO, ONE, t)]
    if root[0] == "h" and not proj:
        r = st.heap.get(root[1])
        if r is None or r.elem == "?":
            return None
        if r.status != "live":
            I.event(st, "use-after-free")
        return seg_shift(seg_clip(st, r.segs, off, off + ln), -off)
    if ln.is_const() and off.is_const():
        v = I.load(st, root, proj)
        if isinstance(v, tuple) and v[0] == "A":
            out = []
            for i in range(ln.c):
                t = word(I, v[1][off.c + i])
                if t is None:
                    return None
                out.append((lc(i), lc(i + 1), t))
            return out
    return None


def word(I, v, w=64):
    if isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1:
        v = v[2][0]
    if isinstance(v, Lin):
        return as_term(v, w)
    return None


def put_segs(I, st, s, segs):
    root, proj, off, ln = s[1], s[2], s[3], s[4]
    if is_cell(s):
        if not st.decide(ln - 1):
            return
        t = seg_read(st, segs, ZERO) if segs else unk(64, "put")
        old = I.load(st, root, proj[:-1])
        I.store(st, root, proj[:-1], ("S", 0, (t.lin(),)) if isinstance(old, tuple) else t.lin())
        return
    if root[0] == "h" and not proj:
        r = st.heap.get(root[1])
        if r is None:
            return
        if r.status != "live":
            I.event(st, "use-after-free")
        if I.frozen and root[1:] in I.frozen:
            I.event(st, "write-shared")
        if r.elem == "?":
            return
        st.heap[root[1]] = r.with_(segs=seg_replace(st, r.segs, off, off + ln, seg_shift(segs, off), r.len))
        return
    if root[0] == "v" and ln.is_const():
        for i in range(ln.c):
            t = seg_read(st, segs, lc(i))
            I.store(st, root, proj + (("i", off + i),), t.lin())


def elem_kind(I, ty):
    """(elem, w) for a vector of this element type"""
    if ty is None:
        return "?", 64
    w = I.p.int_w(ty)
    if w:
        return "I", w[0]
    t = I.types[ty]
    if t["k"] == "adt" and t.get("variants") and len(t["variants"]) == 1 and t.get("akind") == "struct":
        f = t["variants"][0]["fields"]
        if len(f) == 1:
            w = I.p.int_w(f[0][1])
            if w:
                return "D", w[0]
    return "?", 64


def alloc(I, st, info, elem, w, ln, segs, cap=None, kind="heap"):
    import loops
    loops.gc(st)
    n = 0
    while (info.fid, info.bb, n) in st.heap:
        n += 1
    rid = (info.fid, info.bb, n)
    st.heap[rid] = Region(elem, ln, tuple(segs), "live", kind, w, cap)
    return rid


def note_alloc(I, st, n=None):
    if n is not None and st.ge(-n):
        return
    I.event(st, "alloc")


# ------------------------------------------------------------------ iterators
def it_of(I, st, v, ty=None):
    if isinstance(v, tuple):
        if v[0] == "IT":
            return v
        t = I.types[ty] if ty is not None else None
        path = norm_path(t["path"]) if t is not None and t["k"] == "adt" else ""
        if v[0] == "S":
            if path.startswith("ops::") and path.endswith("RangeInclusive"):
                return ("IT", "rangei", v[2][0], v[2][1], v[2][2])
            if path.startswith("ops::") and path.endswith("RangeFrom"):
                return ("IT", "rangefrom", v[2][0])
            if path.startswith("ops::") and path.endswith("Range"):
                return ("IT", "range", v[2][0], v[2][1])
            if path.endswith("Option") and path.startswith("option"):
                return ("IT", "once", v)
            if t is not None and t.get("local"):
                return ("IT", "user", v, ty)
        if v[0] == "R" and t is not None and t["k"] == "ref":
            x = I.load(st, v[1], v[2])
            if isinstance(x, tuple) and (x[0] == "IT" or x[0] == "S" and t.get("mut")):
                return ("IT", "byref", v, t["to"])
        if v[0] == "VEC":
            return ("IT", "vecinto", v[1], ZERO, st.heap[v[1]].len)
        if v[0] == "A":
            return ("IT", "arr", v[1], ZERO, lc(len(v[1])))
        s = as_slice(I, st, v) if v[0] in ("SL", "R") else None
        if s is not None:
            return ("IT", "sl", s[1], s[2], s[3], s[3] + s[4])
    return None


def user_next(I, ty, name):
    for k, f in I.p.fns.items():
        if f.name == name and f.d.get("impl_self") is not None and (f.d.get("impl_trait") or "").endswith("Iterator"):
            s = f.d["impl_self"]
            if s.split("<")[0] == I.types[ty].get("path"):
                return k
    return None


def it_len(I, st, it):
    """exact number of remaining items (Lin), or None"""
    k = it[1]
    if k in ("sl", "vecinto", "arr"):
        return it[-1] - it[-2]
    if k == "range":
        d = it[3] - it[2]
        return d if st.decide(d) else ZERO
    if k == "rangei":
        d = it[3] - it[2] + 1
        return d if st.decide(d) else ZERO
    if k in ("rev", "copied", "enum"):
        return it_len(I, st, it[2])
    if k == "map":
        return it_len(I, st, it[2])
    if k == "take":
        n = it_len(I, st, it[2])
        if it[2][1] in ("repeat", "rangefrom", "rng"):
            return it[3]
        if n is None:
            return None
        return it[3] if st.decide(n - it[3]) else n
    if k == "skip":
        n = it_len(I, st, it[2])
        if n is None:
            return None
        return n - it[3] if st.decide(n - it[3]) else ZERO
    if k == "zip":
        a, b = it_len(I, st, it[2]), it_len(I, st, it[3])
        if a is None:
            return b if it[2][1] in ("repeat", "rangefrom", "rng") else None
        if b is None:
            return a if it[3][1] in ("repeat", "rangefrom", "rng") else None
        return a if st.decide(b - a) else b
    if k == "chain":
        a, b = it_len(I, st, it[2]), it_len(I, st, it[3])
        return None if a is None or b is None else a + b
    if k in ("chunks", "rchunks"):
        n, sz = it[5], it[6]
        if sz.is_const() and sz.c > 0:
            q, r = I.divmod(st, n + (sz.c - 1), sz.c)
            return q
        return None
    if k == "once":
        return ONE if it[2][1] == 1 else ZERO
    if k == "empty":
        return ZERO
    return None


def step(I, st, it, back, info):
    """[(state, item or END, iterator)]"""
    k = it[1]
    if k in ("sl", "vecinto", "arr"):
        lo, hi = it[-2], it[-1]
        a, b = I.fork(st, hi - lo - 1)
        out = []
        if a is not None:
            i = hi - 1 if back else lo
            if k == "sl":
                item = I.elem(it[2], it[3], i)
                nit = ("IT", "sl", it[2], it[3], lo, hi - 1) if back else ("IT", "sl", it[2], it[3], lo + 1, hi)
            elif k == "vecinto":
                item = I.load(a, ("h", it[2]), (("i", i),))
                nit = ("IT", k, it[2], lo, hi - 1) if back else ("IT", k, it[2], lo + 1, hi)
            else:
                item = I.sub(a, ("A", it[2]), ("i", i))
                nit = ("IT", k, it[2], lo, hi - 1) if back else ("IT", k, it[2], lo + 1, hi)
            out.append((a, item, nit))
        if b is not None:
            out.append((b, END, it))
        return out
    if k == "range":
        lo, hi = it[2], it[3]
        a, b = I.fork(st, hi - lo - 1)
        out = []
        if a is not None:
            out.append((a, hi - 1, ("IT", k, lo, hi - 1)) if back else (a, lo, ("IT", k, lo + 1, hi)))
        if b is not None:
            out.append((b, END, it))
        return out
    if k == "rangei":
        lo, hi, ex = it[2], it[3], it[4]
        if ex is True:
            return [(st, END, it)]
        out = []
        a, b = I.fork(st, hi - lo)
        if b is not None:
            out.append((b, END, it))
        if a is not None:
            c, d = I.fork(a, hi - lo - 1)
            if c is not None:
                out.append((c, hi, ("IT", k, lo, hi - 1, False)) if back else (c, lo, ("IT", k, lo + 1, hi, False)))
            if d is not None:
                out.append((d, lo, ("IT", k, lo, hi, True)))
        return out
    if k == "rangefrom":
        return [(st, it[2], ("IT", k, it[2] + 1))]
    if k == "repeat":
        return [(st, it[2], it)]
    if k == "rng":
        return [(st, ("S", 0, (dig(it[2], it[3]).lin(),)), ("IT", k, it[2], it[3] + 1))]
    if k == "once":
        v = it[2]
        if v[0] == "S" and v[1] == 1:
            return [(st, v[2][0], ("IT", "once", NONE))]
        return [(st, END, it)]
    if k == "empty":
        return [(st, END, it)]
    if k == "rev":
        return [(s, v, ("IT", "rev", n)) for s, v, n in step(I, st, it[2], not back, info)]
    if k == "byref":
        x = I.load(st, it[2][1], it[2][2])
        return [(s, v, it) for s, v in step_at(I, st, it[2], back, info, it[3])]
    if k == "user":
        key = user_next(I, it[3], "next_back" if back else "next")
        if key is None:
            return [(taint(st, "iterator"), END, it)]
        slot = (info.fid, ("uit", info.bb))
        st.env[slot] = it[2]
        out = []
        for s, v in I.inline(st, key, [("R", ("v",) + slot, ())], info.fid, ("uit", info.bb)):
            nv = s.env.pop(slot, it[2])
            n = ("IT", "user", nv, it[3])
            out += [(s2, x, n) for s2, x in opt_cases(I, s, v)]
        return out
    if k == "copied":
        out = []
        for s, v, n in step(I, st, it[2], back, info):
            if v is not END and isinstance(v, tuple) and v[0] == "R":
                v = I.load(s, v[1], v[2])
            out.append((s, v, ("IT", "copied", n)))
        return out
    if k == "map":
        out = []
        for s, v, n in step(I, st, it[2], back, info):
            if v is END:
                out.append((s, END, ("IT", "map", n, it[3])))
            else:
                for s2, r in I.call_value(s, it[3], [v], info.fid, ("map", info.bb)):
                    out.append((s2, r, ("IT", "map", n, it[3])))
        return out
    if k == "enum":
        if back:
            n = it_len(I, st, it[2])
            if n is None:
                return [(taint(st, "enumerate.rev"), END, it)]
            out = []
            for s, v, m in step(I, st, it[2], True, info):
                out.append((s, v if v is END else ("S", 0, (it[3] + n - 1, v)), ("IT", "enum", m, it[3])))
            return out
        out = []
        for s, v, n in step(I, st, it[2], False, info):
            out.append((s, END, ("IT", "enum", n, it[3])) if v is END else (s, ("S", 0, (it[3], v)), ("IT", "enum", n, it[3] + 1)))
        return out
    if k == "zip":
        if back:
            a, b = it_len(I, st, it[2]), it_len(I, st, it[3])
            if a is None or b is None:
                return [(taint(st, "zip.rev"), END, it)]
            x, y = it[2], it[3]
            if not st.decide_eq(a, b):
                x, y = mk_take(I, st, x, a if st.decide(b - a) else b), mk_take(I, st, y, a if st.decide(b - a) else b)
        else:
            x, y = it[2], it[3]
        out = []
        for s, v, n in step(I, st, x, back, info):
            if v is END:
                out.append((s, END, ("IT", "zip", n, y)))
                continue
            for s2, v2, n2 in step(I, s, y, back, info):
                out.append((s2, END if v2 is END else ("S", 0, (v, v2)), ("IT", "zip", n, n2)))
        return out
    if k == "take":
        if back:
            m = it_len(I, st, it[2])
            if it[2][1] != "repeat":
                if m is None:
                    return [(taint(st, "take.rev"), END, it)]
                return step(I, st, mk_take(I, st, it[2], it[3], True), True, info)
        a, b = I.fork(st, it[3] - 1)
        out = []
        if a is not None:
            for s, v, n in step(I, a, it[2], False, info):
                out.append((s, v, ("IT", "take", n, it[3] - 1)))
        if b is not None:
            out.append((b, END, it))
        return out
    if k == "skip":
        a, b = I.fork(st, it[3] - 1)
        out = []
        if b is not None:
            out += [(s, v, ("IT", "skip", n, ZERO)) for s, v, n in step(I, b, it[2], back, info)]
        if a is not None:
            if back:
                m = it_len(I, a, it[2])
                if m is None:
                    return [(taint(st, "skip.rev"), END, it)]
                c, d = I.fork(a, m - it[3] - 1)
                if c is not None:
                    out += [(s, v, ("IT", "skip", n, it[3])) for s, v, n in step(I, c, it[2], True, info)]
                if d is not None:
                    out.append((d, END, it))
            else:
                # drop it[3] items first
                if it[3].is_const() and it[3].c <= 4:
                    cur = [(a, it[2])]
                    for _ in range(it[3].c):
                        nx = []
                        for s, i2 in cur:
                            for s2, v, n in step(I, s, i2, False, info):
                                nx.append((s2, n))
                        cur = nx
                    for s, i2 in cur:
                        out += [(s2, v, ("IT", "skip", n, ZERO)) for s2, v, n in step(I, s, i2, False, info)]
                else:
                    return [(taint(st, "skip"), END, it)]
        return out
    if k == "chain":
        x, y = (it[3], it[2]) if back else (it[2], it[3])
        out = []
        for s, v, n in step(I, st, x, back, info):
            if v is not END:
                out.append((s, v, ("IT", "chain", it[2], n) if back else ("IT", "chain", n, it[3])))
            else:
                for s2, v2, n2 in step(I, s, y, back, info):
                    out.append((s2, v2, ("IT", "chain", n2, ("IT", "empty")) if back else ("IT", "chain", ("IT", "empty"), n2)))
        return out
    if k in ("chunks", "rchunks"):
        root, proj, off, n, sz = it[2], it[3], it[4], it[5], it[6]
        a, b = I.fork(st, n - 1)
        out = []
        if b is not None:
            out.append((b, END, it))
        if a is not None:
            if k == "rchunks":
                if back:
                    ln = it_len(I, a, it)
                    if ln is None:
                        return [(taint(st, "chunks.rev"), END, it)]
                    c = n - (ln - 1).scale(sz.c)
                    return out + [(a, ("SL", root, proj, off, c), ("IT", k, root, proj, off + c, n - c, sz))]
                c, d = I.fork(a, n - sz)
                if c is not None:
                    out.append((c, ("SL", root, proj, off + n - sz, sz), ("IT", k, root, proj, off, n - sz, sz)))
                if d is not None:
                    out.append((d, ("SL", root, proj, off, n), ("IT", k, root, proj, off, ZERO, sz)))
            elif back:
                ln = it_len(I, a, it)
                if ln is None:
                    return [(taint(st, "chunks.rev"), END, it)]
                start = (ln - 1).scale(sz.c)
                out.append((a, ("SL", root, proj, off + start, n - start), ("IT", k, root, proj, off, start, sz)))
            else:
                c, d = I.fork(a, n - sz)
                if c is not None:
                    out.append((c, ("SL", root, proj, off, sz), ("IT", k, root, proj, off + sz, n - sz, sz)))
                if d is not None:
                    out.append((d, ("SL", root, proj, off, n), ("IT", k, root, proj, off + n, ZERO, sz)))
        return out
    if k in ("filter", "filter_map", "skip_while"):
        # advance to the next item that the closure lets through
        out, work, n = [], [(st, it[2])], 0
        pending = k != "skip_while" or not it[4]
        while work:
            n += 1
            if n > (600 if I.unroll else 12):
                for s, i2 in work:
                    out.append((taint(s, k), END, it))
                break
            s, i2 = work.pop()
            for s2, v, nx in step(I, s, i2, back, info):
                me = ("IT", k, nx, it[3]) + ((True,) if k == "skip_while" else ())
                if v is END:
                    out.append((s2, END, me))
                elif not pending:
                    out.append((s2, v, me))
                elif k == "filter_map":
                    for s3, r in I.call_value(s2, it[3], [v], info.fid, (k, info.bb)):
                        for s4, x in opt_cases(I, s3, r):
                            if x is END:
                                work.append((s4, nx))
                            else:
                                out.append((s4, x, me))
                else:
                    for s3, b in pred_cases(I, s2, it[3], v, info, k):
                        if b == (k == "filter"):
                            out.append((s3, v, me))
                        else:
                            work.append((s3, nx))
        return out
    if k in ("take_while", "map_while"):
        if it[4]:
            return [(st, END, it)]
        if back:
            return [(taint(st, k + ".rev"), END, it)]
        out = []
        for s, v, nx in step(I, st, it[2], False, info):
            me, stop = ("IT", k, nx, it[3], False), ("IT", k, nx, it[3], True)
            if v is END:
                out.append((s, END, me))
            elif k == "map_while":
                for s3, r in I.call_value(s, it[3], [v], info.fid, (k, info.bb)):
                    out += [(s4, x, stop if x is END else me) for s4, x in opt_cases(I, s3, r)]
            else:
                out += [(s3, v, me) if b else (s3, END, stop) for s3, b in pred_cases(I, s, it[3], v, info, k)]
        return out
    if k == "inspect":
        out = []
        for s, v, nx in step(I, st, it[2], back, info):
            me = ("IT", k, nx, it[3])
            if v is END:
                out.append((s, END, me))
                continue
            slot = (info.fid, (k, info.bb))
            s.env[slot] = v
            for s2, r in I.call_value(s, it[3], [("R", ("v",) + slot, ())], info.fid, (k, info.bb)):
                s2.env.pop(slot, None)
                out.append((s2, v, me))
        return out
    if k == "stepby":
        if back:
            return [(taint(st, "step_by.rev"), END, it)]
        sz, first = it[3], it[4]
        src = it[2] if first else mk_skip(I, st, it[2], lc(sz - 1))
        return [(s, v, ("IT", k, nx, sz, False)) for s, v, nx in step(I, st, src, False, info)]
    if k == "top":
        out = [(st.copy(), END, it), (st, ("TOP", (it[2], fresh_id())), it)]
        return out
    return [(taint(st, "iterator " + str(k)), END, it)]


def pred_cases(I, st, f, v, info, tag):
    """the outcomes of calling the predicate f on a reference to v: [(state, bool)]"""
    slot = (info.fid, (tag, info.bb))
    st.env[slot] = v
    out = []
    for s, r in I.call_value(st, f, [("R", ("v",) + slot, ())], info.fid, (tag, info.bb)):
        s.env.pop(slot, None)
        out += bool_cases(I, s, r)
    return out


def taint(st, why):
    st.taint = st.taint | {why}
    return st


def opt_cases(I, st, v):
    if isinstance(v, tuple) and v[0] == "S":
        return [(st, v[2][0] if v[1] == 1 else END)]
    return [(st.copy(), END), (st, top("opt"))]


def step_at(I, st, ref, back, info, ty=None):
    """advance the iterator stored behind a reference: [(state, item)]"""
    v = I.load(st, ref[1], ref[2])
    it = it_of(I, st, v, ty)
    if it is None:
        return None
    out = []
    for s, item, n in step(I, st, it, back, info):
        I.store(s, ref[1], ref[2], back_val(v, n))
        out.append((s, item))
    return out


def back_val(v, n):
    if isinstance(v, tuple) and v[0] == "S":
        if n[1] == "range":
            return ("S", 0, (n[2], n[3]))
        if n[1] == "rangei":
            return ("S", 0, (n[2], n[3], n[4]))
        if n[1] == "rangefrom":
            return ("S", 0, (n[2],))
        if n[1] == "user":
            return n[2]
    return n


def mk_take(I, st, it, n, force=False):
    k = it[1]
    if k in ("sl", "vecinto", "arr"):
        ln = it[-1] - it[-2]
        if st.decide(ln - n):
            return it[:-1] + (it[-2] + n,)
        return it
    if k in ("copied", "map"):
        return ("IT", k, mk_take(I, st, it[2], n, force)) + it[3:]
    if k == "enum":
        return ("IT", k, mk_take(I, st, it[2], n, force), it[3])
    if k == "rev" and it[2][1] in ("sl", "vecinto", "arr"):
        i = it[2]
        if st.decide(i[-1] - i[-2] - n):
            return ("IT", "rev", i[:-2] + (i[-1] - n, i[-1]))
        return it
    if k == "zip":
        return ("IT", k, mk_take(I, st, it[2], n, force), mk_take(I, st, it[3], n, force))
    if k == "range":
        if st.decide(it[3] - it[2] - n):
            return ("IT", k, it[2], it[2] + n)
        return it
    return ("IT", "take", it, n)


def mk_skip(I, st, it, n):
    k = it[1]
    if k in ("sl", "vecinto", "arr"):
        if st.decide(it[-1] - it[-2] - n):
            return it[:-2] + (it[-2] + n, it[-1])
        return it[:-2] + (it[-1], it[-1])
    if k in ("copied", "map"):
        return ("IT", k, mk_skip(I, st, it[2], n)) + it[3:]
    if k == "rev" and it[2][1] in ("sl", "vecinto", "arr"):
        i = it[2]
        if st.decide(i[-1] - i[-2] - n):
            return ("IT", "rev", i[:-1] + (i[-1] - n,))
        return ("IT", "rev", i[:-1] + (i[-2],))
    if k == "range":
        if st.decide(it[3] - it[2] - n):
            return ("IT", k, it[2] + n, it[3])
        return ("IT", k, it[3], it[3])
    if k == "zip":
        return ("IT", k, mk_skip(I, st, it[2], n), mk_skip(I, st, it[3], n))
    return ("IT", "skip", it, n)


class PyFn:
    def __init__(self, key, f, dty):
        self.key = key
        self.path = key
        self.name = key
        self.blocks = [{"s": [], "t": {"t": "py", "fn": f, "succ": [0]}}]
        self.locals = [dty]
        self.wto = [(0, [])]
        self.local = False
        self.inloop = None


def py_loop(I, st, info, slots, f):
    """f(I, st, slots accessor fid) -> [('again', st)] or [('ret', st)] with env[(fid,0)] set"""
    key = "iter:" + str(info.name)
    fid = I.fid(info.fid, info.bb, key)
    for k, v in slots.items():
        st.env[(fid, k)] = v

    def g(I2, s, fid2):
        return [(0 if t == "again" else "ret", x) for t, x in f(I2, s, fid2)]

    fn = PyFn(key, g, info.dty)
    I.stack.append((I.stack[-1] if I.stack else "?"))
    try:
        return I.run_fn(st, fn, [], fid)
    finally:
        I.stack.pop()


def inner(info, fid):
    return Info(info.c, info.path, fid, 0, info.dty, info.I)


def bulk(I, st, it):
    """(len, segs) if the items are words that can be described at once"""
    k = it[1]
    if k == "copied" and it[2][1] == "sl":
        i = it[2]
        s = ("SL", i[2], i[3], i[4], i[5] - i[4])
        g = get_segs(I, st, s)
        return None if g is None else (s[4], g)
    if k == "vecinto":
        g = get_segs(I, st, ("SL", ("h", it[2]), (), it[3], it[4] - it[3]))
        return None if g is None else (it[4] - it[3], g)
    if k == "take":
        if it[2][1] == "repeat":
            t = word(I, it[2][2])
            if t is None:
                return None
            if not st.decide(it[3] - 1):
                return ZERO, []
            return it[3], [(ZERO, it[3], t)]
        if it[2][1] == "rng":
            n = it[3]
            return (n, [(ZERO, n, dig(it[2][2], HASH + it[2][3]))]) if st.decide(n - 1) else (ZERO, [])
        b = bulk(I, st, it[2])
        if b is None:
            return None
        n = it[3]
        if st.decide(b[0] - n):
            return n, list(seg_clip(st, b[1], ZERO, n))
        return b
    if k == "skip":
        b = bulk(I, st, it[2])
        if b is None:
            return None
        n = it[3]
        if st.decide(b[0] - n):
            return b[0] - n, seg_shift(seg_clip(st, b[1], n, b[0]), -n)
        return ZERO, []
    if k == "chain":
        a, b = bulk(I, st, it[2]), bulk(I, st, it[3])
        if a is None or b is None:
            return None
        return a[0] + b[0], list(a[1]) + seg_shift(b[1], a[0])
    if k == "empty":
        return ZERO, []
    if k == "once":
        v = it[2]
        if v[1] == 0:
            return ZERO, []
        t = word(I, v[2][0])
        return None if t is None else (ONE, [(ZERO, ONE, t)])
    return None


def vec_push(I, st, rid, v):
    r = st.heap[rid]
    if r.status != "live":
        I.event(st, "use-after-free")
    n = r.len
    cap = r.cap
    if cap is not None and not st.ge(cap - n - 1):
        cap = None
    if cap is None:
        I.event(st, "alloc")
    if r.elem == "?":
        st.heap[rid] = r.with_(len=n + 1, cap=cap)
        return
    t = word(I, v, r.w) or unk(r.w, "push")
    segs = seg_norm(st, tuple(r.segs) + ((n, n + 1, t),))
    st.heap[rid] = r.with_(len=n + 1, segs=segs, cap=cap)


def m_collect(I, st, args, info):
    it = it_of(I, st, args[0], info.targ(0))
    if it is None:
        return NotImplemented
    dty = info.dty
    if dty is None:
        return NotImplemented
    t = I.types[dty]
    p = norm_path(t.get("path", "")) if t["k"] == "adt" else ""
    if p == "vec::Vec":
        tag = "VEC"
        ety = t["args"][0]
    elif p.endswith("SmallVec"):
        tag = "SV"
        ety = t["args"][0]
        et = I.types[ety]
        ety = et.get("of", None) if et["k"] == "array" else None
    else:
        return NotImplemented
    el, w = elem_kind(I, ety)
    if el != "?":
        b = bulk(I, st, it)
        if b is not None:
            ln, segs = b
            free_it(I, st, it)
            return fin_collect(I, st, info, tag, el, w, ln, seg_norm(st, segs))
    res = []

    def f(I2, s, fid):
        out = []
        for s2, v, n in step(I2, s, s.env[(fid, "it")], False, inner(info, fid)):
            s2.env[(fid, "it")] = n
            if v is END:
                s2.env[(fid, 0)] = s2.env[(fid, "v")]
                free_it(I2, s2, n)
                out.append(("ret", s2))
            else:
                vec_push(I2, s2, s2.env[(fid, "v")][1], v)
                out.append(("again", s2))
        return out

    rid = alloc(I, st, info, el, w, ZERO, (), None)
    pre = st.ev
    for s, v in py_loop(I, st, info, {"it": it, "v": ("VEC", rid)}, f):
        s.ev = frozenset(e for e in s.ev if e in pre or e[0] != "alloc" or False) | frozenset(e for e in s.ev if e[0] != "alloc")
        r = s.heap.pop(rid)
        for x in split_on(I, s, r.len - 2) if tag == "SV" else [s]:
            res += fin_collect(I, x, info, tag, el, w, r.len, r.segs)
    return res


def split_on(I, st, l):
    return [x for x in I.fork(st, l) if x is not None]


def fin_collect(I, st, info, tag, el, w, ln, segs):
    if tag == "VEC":
        note_alloc(I, st, ln)
        rid = alloc(I, st, info, el, w, ln, segs, None)
        return [(st, ("VEC", rid))]
    big = st.decide(ln - 2)
    if big:
        I.event(st, "alloc")
    rid = alloc(I, st, info, el, w, ln, segs, None, "heap" if big else "inline")
    return [(st, ("SV", rid))]


def free_it(I, st, it):
    if not isinstance(it, tuple):
        return
    if len(it) > 2 and it[0] == "IT" and it[1] == "vecinto":
        I.free(st, ("VEC", it[2]))
        return
    if it and it[0] == "IT":
        for x in it[2:]:
            if isinstance(x, tuple) and x and x[0] == "IT":
                free_it(I, st, x)


def bool_cases(I, st, c):
    if not isinstance(c, (bool, tuple)):
        c = ("ub", fresh_id())
    out = []
    for v in (True, False):
        for s in st.assume(c, v):
            out.append((s if s is not st else st.copy(), v))
    return out


def consumer(I, st, args, info):
    name = info.name
    a0 = args[0]
    sty = info.targ(0)
    byref = None
    if isinstance(a0, tuple) and a0[0] == "R":
        byref = a0
        it = it_of(I, st, I.load(st, a0[1], a0[2]), sty)
    else:
        it = it_of(I, st, a0, sty)
    if it is None:
        return NotImplemented
    slots = {"it": it}
    if name in ("all", "any", "position", "rposition", "find", "for_each", "map_while", "try_for_each", "find_map"):
        slots["f"] = args[1]
    if name in ("fold", "try_fold", "rfold"):
        slots["f"] = args[2]
        slots["acc"] = args[1]
    if name == "sum":
        slots["acc"] = ZERO
    if name == "count":
        slots["acc"] = ZERO
    if name == "position":
        slots["acc"] = ZERO
    if name == "rposition":
        n = it_len(I, st, it)
        if n is None:
            return NotImplemented
        slots["acc"] = n
    if name == "last":
        slots["acc"] = NONE
    if name == "nth":
        n = args[1]
        nit = mk_skip(I, st, it, n)
        out = []
        for s, v, n2 in step(I, st, nit, False, info):
            if byref:
                I.store(s, byref[1], byref[2], back_val(I.load(s, byref[1], byref[2]), n2))
            out.append((s, NONE if v is END else some(v)))
        return out
    w = I.p.int_w(info.dty) if info.dty is not None else None
    back = name in ("rposition", "rfold")

    def done(s, fid, v):
        s.env[(fid, 0)] = v
        n = s.env[(fid, "it")]
        if byref:
            I.store(s, byref[1], byref[2], back_val(I.load(s, byref[1], byref[2]), n))
        else:
            free_it(I, s, n)
        return ("ret", s)

    def f(I2, s, fid):
        out = []
        inf = inner(info, fid)
        for s2, v, n in step(I2, s, s.env[(fid, "it")], back, inf):
            s2.env[(fid, "it")] = n
            acc = s2.env.get((fid, "acc"))
            fr = ("R", ("v", fid, "f"), ())
            if v is END:
                out.append(done(s2, fid, {"all": True, "any": False, "for_each": UNIT, "fold": acc, "rfold": acc, "sum": acc, "count": acc,
                                          "position": NONE, "rposition": NONE, "find": NONE, "last": acc}[name]))
                continue
            if name in ("all", "any"):
                for s3, r in I2.call_value(s2, fr, [v], fid, 0):
                    for s4, b in bool_cases(I2, s3, r):
                        if b == (name == "all"):
                            out.append(("again", s4))
                        else:
                            out.append(done(s4, fid, name == "any"))
            elif name == "for_each":
                for s3, r in I2.call_value(s2, fr, [v], fid, 0):
                    out.append(("again", s3))
            elif name in ("fold", "rfold"):
                for s3, r in I2.call_value(s2, fr, [acc, v], fid, 0):
                    s3.env[(fid, "acc")] = r
                    out.append(("again", s3))
            elif name == "count":
                s2.env[(fid, "acc")] = acc + 1
                out.append(("again", s2))
            elif name == "last":
                s2.env[(fid, "acc")] = some(v)
                out.append(("again", s2))
            elif name == "sum":
                if isinstance(v, tuple) and v[0] == "R":
                    v = I2.load(s2, v[1], v[2])
                if isinstance(v, Lin) and isinstance(acc, Lin):
                    acc = acc + v
                    a, b = I2.fork(s2, acc - (1 << (w[0] if w else 64)))
                    if a is not None and acc.t and not is_sum(acc):
                        I2.panic(a, "overflow in sum")
                    if b is not None:
                        b.env[(fid, "acc")] = acc
                        out.append(("again", b))
                else:
                    s2.env[(fid, "acc")] = unk(64, "sum").lin()
                    out.append(("again", s2))
            elif name in ("position", "rposition"):
                cur = acc - 1 if name == "rposition" else acc
                for s3, r in I2.call_value(s2, fr, [v], fid, 0):
                    for s4, b in bool_cases(I2, s3, r):
                        if b:
                            out.append(done(s4, fid, some(cur)))
                        else:
                            s4.env[(fid, "acc")] = cur if name == "rposition" else acc + 1
                            out.append(("again", s4))
            elif name == "find":
                s2.env[(fid, "item")] = v
                for s3, r in I2.call_value(s2, fr, [("R", ("v", fid, "item"), ())], fid, 0):
                    for s4, b in bool_cases(I2, s3, r):
                        if b:
                            out.append(done(s4, fid, some(v)))
                        else:
                            s4.env.pop((fid, "item"), None)
                            out.append(("again", s4))
        return out

    return py_loop(I, st, info, slots, f)


def is_sum(acc):
    """a sum of bit counts: bounded by the number of bits that fit in memory"""
    return any(ATOMS[a].term is not None and ATOMS[a].term.op in ("popcnt", "clz", "ctz", "top", "unk") for a, _ in acc.t)


def plain_int(I, st, v):
    for _ in range(4):
        if isinstance(v, Lin):
            return v
        if isinstance(v, tuple) and v[0] == "R":
            v = I.load(st, v[1], v[2])
        elif isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1:
            v = v[2][0]
        else:
            return None
    return None


def it_cmp(I, st, args, info):
    """lexicographic comparison of two iterators over unsigned integers"""
    a = it_of(I, st, args[0], info.targ(0))
    b = it_of(I, st, args[1], info.targ(1))
    if a is None or b is None:
        return NotImplemented
    name = info.name

    def f(I2, s, fid):
        out = []
        inf = inner(info, fid)

        def done(s2, o):
            r = {"eq": o == 0, "ne": o != 0, "lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}.get(name)
            if r is None:
                r = ("S", o + 1, ())
                if name == "partial_cmp":
                    r = some(r)
            s2.env[(fid, 0)] = r
            out.append(("ret", s2))

        for s2, v, n in step(I2, s, s.env[(fid, "it")], False, inf):
            s2.env[(fid, "it")] = n
            for s3, u, m in step(I2, s2, s2.env[(fid, "it2")], False, inf):
                s3.env[(fid, "it2")] = m
                if v is END or u is END:
                    done(s3, 0 if v is END and u is END else -1 if v is END else 1)
                    continue
                x, y = plain_int(I2, s3, v), plain_int(I2, s3, u)
                if x is None or y is None:
                    taint(s3, "comparison of iterator items")
                    for o in (-1, 0, 1):
                        done(s3.copy(), o)
                    continue
                p, q = I2.fork(s3, x - y)
                if q is not None:
                    done(q, -1)
                if p is not None:
                    p, q = I2.fork(p, y - x)
                    if q is not None:
                        done(q, 1)
                    if p is not None:
                        out.append(("again", p))
        return out

    return py_loop(I, st, info, {"it": a, "it2": b}, f)


def m_next(I, st, args, info):
    r = args[0]
    if not (isinstance(r, tuple) and r[0] == "R"):
        return NotImplemented
    ty = info.targ(0)
    v = I.load(st, r[1], r[2])
    if isinstance(v, tuple) and v[0] == "S":
        t = I.types[ty] if ty is not None else None
        p = norm_path(t["path"]) if t is not None and t["k"] == "adt" else ""
        if "Range" in info.path and "Range" not in p:
            # impl Iterator for Range<A>: the type argument is A
            if "RangeInclusive" in info.path:
                it = ("IT", "rangei", v[2][0], v[2][1], v[2][2])
            elif "RangeFrom" in info.path:
                it = ("IT", "rangefrom", v[2][0])
            else:
                it = ("IT", "range", v[2][0], v[2][1])
        else:
            if t is not None and t.get("local"):
                return NotImplemented
            it = it_of(I, st, v, ty)
    else:
        it = it_of(I, st, v, None)
    if it is None:
        return NotImplemented
    out = []
    for s, item, n in step(I, st, it, info.name == "next_back", info):
        I.store(s, r[1], r[2], back_val(v, n))
        out.append((s, NONE if item is END else some(item)))
    return out


def adapter(I, st, args, info):
    it = it_of(I, st, args[0], info.targ(0))
    if it is None:
        return NotImplemented
    n = info.name
    if n == "rev":
        return [(st, it[2] if it[1] == "rev" else ("IT", "rev", it))]
    if n in ("copied", "cloned"):
        return [(st, ("IT", "copied", it))]
    if n == "enumerate":
        return [(st, ("IT", "enum", it, ZERO))]
    if n == "map":
        return [(st, ("IT", "map", it, args[1]))]
    if n == "by_ref":
        return [(st, args[0])]
    if n == "take":
        return [(st, mk_take(I, st, it, args[1]))]
    if n == "skip":
        return [(st, mk_skip(I, st, it, args[1]))]
    if n in ("zip", "chain"):
        o = it_of(I, st, args[1], info.targ(1))
        if o is None:
            return NotImplemented
        return [(st, ("IT", n, it, o))]
    if n == "fuse":
        return [(st, it)]
    if n in ("filter", "filter_map", "inspect"):
        return [(st, ("IT", n, it, args[1]))]
    if n in ("skip_while", "take_while", "map_while"):
        return [(st, ("IT", n, it, args[1], False))]
    if n == "step_by":
        if not (isinstance(args[1], Lin) and args[1].is_const() and args[1].c > 0):
            return NotImplemented
        return [(st, ("IT", "stepby", it, args[1].c, True))]
    return NotImplemented


def m_into_iter(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] in ("IT", "S") and info.path.startswith("<I as"):
        return [(st, v)]
    it = it_of(I, st, v, info.targ(0))
    if it is None or it[1] in ("user",):
        if isinstance(v, tuple) and v[0] == "S":
            return [(st, v)]
        return NotImplemented
    if isinstance(v, tuple) and v[0] == "S" and it[1] != "once":
        return [(st, v)]
    return [(st, it)]


def m_iter_len(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "R":
        v = I.load(st, v[1], v[2])
    it = it_of(I, st, v, info.targ(0))
    if it is None:
        return NotImplemented
    n = it_len(I, st, it)
    return NotImplemented if n is None else [(st, n)]


# ------------------------------------------------------------------ slice methods
def s_iter(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    return [(st, ("IT", "sl", s[1], s[2], s[3], s[3] + s[4]))]


def s_len(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    return [(st, s[4])]


def s_is_empty(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    return [(st, ("eq0", s[4]) if s[4].t else s[4].c == 0)]


def nonempty(I, st, s, yes, no):
    a, b = I.fork(st, s[4] - 1)
    out = []
    if a is not None:
        out.append((a, yes))
    if b is not None:
        out.append((b, no))
    return out


def s_first(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    return nonempty(I, st, s, some(I.elem(s[1], s[2], s[3])), NONE)


def s_last(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    return nonempty(I, st, s, some(I.elem(s[1], s[2], s[3] + s[4] - 1)), NONE)


def s_get(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    i = args[1]
    if isinstance(i, Lin):
        a, b = I.fork(st, s[4] - i - 1)
        out = []
        if a is not None:
            out.append((a, some(I.elem(s[1], s[2], s[3] + i))))
        if b is not None:
            out.append((b, NONE))
        return out
    r = bounds(I, st, i, s[4], info)
    if r is None:
        return NotImplemented
    lo, hi = r
    out = []
    a, b = I.fork(st, hi - lo)
    if b is not None:
        out.append((b, NONE))
    if a is not None:
        a, b = I.fork(a, s[4] - hi)
        if b is not None:
            out.append((b, NONE))
        if a is not None:
            out.append((a, some(("SL", s[1], s[2], s[3] + lo, hi - lo))))
    return out


def s_split_first(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    rest = ("SL", s[1], s[2], s[3] + 1, s[4] - 1)
    return nonempty(I, st, s, some(("S", 0, (I.elem(s[1], s[2], s[3]), rest))), NONE)


def s_split_last(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    rest = ("SL", s[1], s[2], s[3], s[4] - 1)
    return nonempty(I, st, s, some(("S", 0, (I.elem(s[1], s[2], s[3] + s[4] - 1), rest))), NONE)


def s_split_at(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None or not isinstance(args[1], Lin):
        return NotImplemented
    m = args[1]
    a, b = I.fork(st, s[4] - m)
    if b is not None:
        I.panic(b, "split_at out of bounds")
    if a is None:
        return []
    return [(a, ("S", 0, (("SL", s[1], s[2], s[3], m), ("SL", s[1], s[2], s[3] + m, s[4] - m))))]


def s_copy_from(I, st, args, info):
    d, s = as_slice(I, st, args[0]), as_slice(I, st, args[1])
    if d is None or s is None:
        return NotImplemented
    if not st.decide_eq(d[4], s[4]):
        I.panic(st, "copy_from_slice: lengths differ")
        return []
    g = get_segs(I, st, s)
    if g is None:
        return NotImplemented
    put_segs(I, st, d, g)
    return [(st, UNIT)]


def s_swap_with(I, st, args, info):
    d, s = as_slice(I, st, args[0]), as_slice(I, st, args[1])
    if d is None or s is None:
        return NotImplemented
    if not st.decide_eq(d[4], s[4]):
        I.panic(st, "swap_with_slice: lengths differ")
        return []
    g, h = get_segs(I, st, d), get_segs(I, st, s)
    if g is None or h is None:
        return NotImplemented
    put_segs(I, st, d, h)
    put_segs(I, st, s, g)
    return [(st, UNIT)]


def s_copy_within(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None or not isinstance(args[2], Lin):
        return NotImplemented
    r = bounds(I, st, args[1], s[4], info)
    if r is None:
        return NotImplemented
    lo, hi = r
    d = args[2]
    for c in (hi - lo, s[4] - hi, s[4] - (hi - lo) - d):
        a, b = I.fork(st, c)
        if b is not None:
            I.panic(b, "copy_within: range out of bounds")
        if a is None:
            return []
        st = a
    if not st.decide(hi - lo - 1):
        return [(st, UNIT)]
    g = get_segs(I, st, ("SL", s[1], s[2], s[3] + lo, hi - lo))
    if g is None:
        return NotImplemented
    put_segs(I, st, ("SL", s[1], s[2], s[3] + d, hi - lo), g)
    return [(st, UNIT)]


def s_rotate_left(I, st, args, info):
    s, m = as_slice(I, st, args[0]), args[1]
    if s is None:
        return NotImplemented
    right = info.name == "rotate_right"
    a, b = I.fork(st, s[4] - m)
    if b is not None:
        I.panic(b, "rotate beyond the slice")
    if a is None:
        return []
    g = get_segs(I, a, s)
    if g is None:
        return NotImplemented
    n = s[4]
    if right:
        m = n - m
    g2 = seg_shift(seg_clip(a, g, m, n), -m) + seg_shift(seg_clip(a, g, ZERO, m), n - m)
    put_segs(I, a, s, g2)
    return [(a, UNIT)]


def s_reverse(I, st, args, info):
    s = as_slice(I, st, args[0])
    g = get_segs(I, st, s) if s is not None else None
    if g is None:
        return NotImplemented
    n = s[4]
    g2 = [(n - hi, n - lo, subst_t(u, {HID: n - 1 - HASH if False else (n - 1) - HASH})) for lo, hi, u in reversed(g)]
    put_segs(I, st, s, g2)
    return [(st, UNIT)]


def s_fill(I, st, args, info):
    s = as_slice(I, st, args[0])
    t = word(I, args[1])
    if s is None or t is None:
        return NotImplemented
    if not st.decide(s[4] - 1):
        return [(st, UNIT)]
    put_segs(I, st, s, [(ZERO, s[4], t)])
    return [(st, UNIT)]


def s_swap(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    i, j = args[1], args[2]
    out = st
    for x in (i, j):
        a, b = I.fork(out, s[4] - x - 1)
        if b is not None:
            I.panic(b, "swap out of bounds")
        if a is None:
            return []
        out = a
    p, q = I.elem(s[1], s[2], s[3] + i), I.elem(s[1], s[2], s[3] + j)
    u, v = I.load(out, p[1], p[2]), I.load(out, q[1], q[2])
    I.store(out, p[1], p[2], v)
    I.store(out, q[1], q[2], u)
    return [(out, UNIT)]


def s_chunks(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None or not isinstance(args[1], Lin):
        return NotImplemented
    if not args[1].is_const():
        a, b = I.fork(st, args[1] - 1)
        if b is not None:
            I.panic(b, "chunk size zero")
        st = a
        if st is None:
            return []
    elif args[1].c == 0:
        I.panic(st, "chunk size zero")
        return []
    off, n, k = s[3], s[4], "chunks"
    if "exact" in info.name:
        if not args[1].is_const() or "rchunks" in info.name:
            return NotImplemented
        n = I.divmod(st, n, args[1].c)[0].scale(args[1].c)
    elif info.name.startswith("rchunks"):
        k = "rchunks"
    return [(st, ("IT", k, s[1], s[2], off, n, args[1]))]


def s_ptr(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    if is_cell(s):
        return [(st, ("R", s[1], s[2][:-1]))]
    return [(st, ("R", s[1], s[2] + (("i", s[3]),)))]


def s_to_vec(I, st, args, info):
    s = as_slice(I, st, args[0])
    g = get_segs(I, st, s) if s is not None else None
    if g is None:
        return NotImplemented
    note_alloc(I, st, s[4])
    el = "D"
    w = 64
    if s[1][0] == "h" and not s[2]:
        el, w = st.heap[s[1][1]].elem, st.heap[s[1][1]].w
    else:
        e = elem_kind(I, info.targ(0))
        if e[0] != "?":
            el, w = e
    rid = alloc(I, st, info, el, w, s[4], g, s[4])
    return [(st, ("VEC", rid))]


def bounds(I, st, r, n, info):
    """(lo, hi) of an index range value, by the type of the index argument"""
    if not (isinstance(r, tuple) and r[0] == "S"):
        return None
    ty = None
    for i in range(4):
        t = info.targ(i)
        if t is not None and I.types[t]["k"] == "adt" and "Range" in I.types[t]["path"]:
            ty = I.types[t]
    if ty is None:
        return None
    p = norm_path(ty["path"]).rsplit("::", 1)[-1]
    f = r[2]
    if p == "Range":
        return f[0], f[1]
    if p == "RangeFrom":
        return f[0], n
    if p == "RangeTo":
        return ZERO, f[0]
    if p == "RangeFull":
        return ZERO, n
    if p == "RangeInclusive":
        return f[0], f[1] + 1
    if p == "RangeToInclusive":
        return ZERO, f[0] + 1
    return None


def s_index(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    i = args[1]
    if isinstance(i, Lin):
        a, b = I.fork(st, s[4] - i - 1)
        if b is not None:
            I.panic(b, "index out of bounds")
        if a is None:
            return []
        return [(a, I.elem(s[1], s[2], s[3] + i))]
    r = bounds(I, st, i, s[4], info)
    if r is None:
        return NotImplemented
    lo, hi = r
    a, b = I.fork(st, hi - lo)
    if b is not None:
        I.panic(b, "slice index starts after its end")
    if a is None:
        return []
    a, b = I.fork(a, s[4] - hi)
    if b is not None:
        I.panic(b, "slice index out of bounds")
    if a is None:
        return []
    return [(a, ("SL", s[1], s[2], s[3] + lo, hi - lo))]


def slice_cmp_eq(I, st, x, y):
    """equality of two slices as [(state, bool)] by a digit loop"""
    return None


def s_eq(I, st, args, info):
    x, y = as_slice(I, st, args[0]), as_slice(I, st, args[1])
    if x is None or y is None:
        return NotImplemented
    gx, gy = get_segs(I, st, x), get_segs(I, st, y)
    if gx is None or gy is None:
        return NotImplemented
    if not st.decide_eq(x[4], y[4]):
        return [(st, info.name == "ne")]
    ne = info.name == "ne"

    def f(I2, s, fid):
        out = []
        i = s.env[(fid, "i")]
        a, b = I2.fork(s, x[4] - i - 1)
        if b is not None:
            b.env[(fid, 0)] = not ne
            out.append(("ret", b))
        if a is not None:
            u = word(I2, I2.load(a, *I2.elem(x[1], x[2], x[3] + i)[1:]))
            v = word(I2, I2.load(a, *I2.elem(y[1], y[2], y[3] + i)[1:]))
            for s4, e in bool_cases(I2, a, I2.cmp(a, "Eq", u.lin(), v.lin(), u.w, False)):
                if e:
                    s4.env[(fid, "i")] = i + 1
                    out.append(("again", s4))
                else:
                    s4.env[(fid, 0)] = ne
                    out.append(("ret", s4))
        return out

    return py_loop(I, st, info, {"i": ZERO}, f)


def from_raw_parts(I, st, args, info):
    if not isinstance(args[1], Lin):
        return NotImplemented
    return [(st, slice_from_ptr(I, st, args[0], args[1]))]


# ------------------------------------------------------------------ Vec, SmallVec, Box
def v_new(I, st, args, info):
    el, w = elem_kind(I, info.targ(0))
    cap = args[0] if args and isinstance(args[0], Lin) else ZERO
    note_alloc(I, st, cap)
    rid = alloc(I, st, info, el, w, ZERO, (), cap)
    return [(st, ("VEC", rid))]


def v_from_elem(I, st, args, info):
    el, w = elem_kind(I, info.targ(0))
    n = args[1]
    t = word(I, args[0], w)
    note_alloc(I, st, n)
    if t is None:
        el = "?"
        segs = ()
    else:
        segs = ((ZERO, n, t),) if st.decide(n - 1) else ()
    rid = alloc(I, st, info, el, w, n, segs, n)
    return [(st, ("VEC", rid))]


def b_new_uninit(I, st, args, info):
    ty = info.targ(0)
    t = I.types[ty] if ty is not None else None
    if t is None or t["k"] != "array" or not isinstance(t.get("len"), int):
        I.event(st, "alloc")
        return NotImplemented
    el, w = elem_kind(I, t["of"])
    note_alloc(I, st, lc(t["len"]))
    segs = ((ZERO, lc(t["len"]), unk(w, "uninit")),) if el != "?" and t["len"] else ()
    rid = alloc(I, st, info, el, w, lc(t["len"]), segs, lc(t["len"]))
    return [(st, ("BOX", rid))]


def b_into_vec(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "BOX":
        return [(st, ("VEC", v[1]))]
    return NotImplemented


def rng_kind(I, st, v):
    """which generator: the one passed in by the caller, or one made here"""
    for _ in range(4):
        if isinstance(v, tuple) and v and v[0] == "R":
            v = I.load(st, v[1], v[2])
    return "given" if isinstance(v, tuple) and v and v[0] == "HS" else "gown"


def rng_iter(I, st, args, info):
    """a stream of generated digits: arbitrary words, one unknown per position"""
    ty = info.targ(1)
    if ty is None or elem_kind(I, ty)[0] != "D":
        return NotImplemented
    n = "%s%d.%s" % (rng_kind(I, st, args[-1]), info.fid, info.bb)
    if n in ORG:
        st.taint = st.taint | {"generator used twice"}
    ORG[n] = (lc(1 << 58), lc(64))
    return [(st, ("IT", "rng", n, ZERO))]


def rng_word(I, st, args, info):
    w = I.p.int_w(info.dty) if info.dty is not None else None
    if not w or w[0] > 64:
        return NotImplemented
    if not I.unroll:
        return [(st, unk(w[0], "random").lin())]
    n = rng_kind(I, st, args[0])
    ORG[n] = (lc(1 << 58), lc(64))
    I.nrandom = getattr(I, "nrandom", 0) + 1
    t = dig(n, lc(I.nrandom))
    return [(st, t.lin() if w[0] == 64 else mk_trunc(t, w[0]).lin())]


def rng_new(I, st, args, info):
    return [(st, top("generator"))]


def vec_of(I, st, v):
    for _ in range(3):
        if isinstance(v, tuple) and v[0] == "R":
            v = I.load(st, v[1], v[2])
    return v if isinstance(v, tuple) and v[0] in ("VEC", "SV", "BOX") else None


def v_push(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    vec_push(I, st, v[1], args[1])
    return [(st, UNIT)]


def v_pop(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    r = st.heap[v[1]]
    a, b = I.fork(st, r.len - 1)
    out = []
    if b is not None:
        out.append((b, NONE))
    if a is not None:
        x = I.load(a, ("h", v[1]), (("i", r.len - 1),))
        a.heap[v[1]] = r.with_(len=r.len - 1, segs=tuple(seg_clip(a, r.segs, ZERO, r.len - 1)))
        out.append((a, some(x)))
    return out


def v_deref(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    return [(st, s)]


def v_capacity(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    r = st.heap[v[1]]
    if r.cap is not None:
        return [(st, r.cap)]
    c = T("top", (("cap", fresh_id()),), 64).lin()
    st.add_lin(c - r.len)
    return [(st, c)]


def v_shrink(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    r = st.heap[v[1]]
    if r.kind != "inline":
        st.heap[v[1]] = r.with_(cap=r.len)
    else:
        st.heap[v[1]] = r.with_(cap=ONE)
    return [(st, UNIT)]


def v_boxed(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    r = st.heap[v[1]]
    st.heap[v[1]] = r.with_(cap=r.len)
    return [(st, ("BOX", v[1]))]


def b_leak(I, st, args, info):
    """Box::into_raw, Box::leak, Vec::leak: the buffer lives on without an owner"""
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    r = st.heap[v[1]]
    return [(st, ("SL", ("h", v[1]), (), ZERO, r.len))]


def b_from_raw(I, st, args, info):
    s = args[0]
    if isinstance(s, tuple) and s[0] == "SL" and s[1][0] == "h" and not s[2]:
        r = st.heap.get(s[1][1])
        if r is not None:
            if r.status != "live":
                I.event(st, "use-after-free")
            if not st.eq(s[3], ZERO) or not st.eq(s[4], r.cap if r.cap is not None else r.len):
                I.event(st, "buffer rebuilt with a wrong size")
            return [(st, ("BOX", s[1][1]))]
    return NotImplemented


def v_clone(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    r = s_to_vec(I, st, [v], info)
    if r is NotImplemented or v[0] != "BOX":
        return r
    return [(s, ("BOX", x[1])) for s, x in r]


def v_clear(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None:
        return NotImplemented
    r = st.heap[v[1]]
    st.heap[v[1]] = r.with_(len=ZERO, segs=())
    return [(st, UNIT)]


def md_new(I, st, args, info):
    return [(st, ("S", 0, (args[0],)))]


def md_deref(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "R":
        x = I.load(st, v[1], v[2])
        if isinstance(x, tuple) and x[0] == "S" and len(x[2]) == 1:
            return [(st, ("R", v[1], v[2] + (("f", 0),)))]
    return NotImplemented


def v_from_raw(I, st, args, info):
    p, n, cap = args
    if isinstance(p, tuple) and p[0] == "R" and p[1][0] == "h" and p[2] and p[2][-1][0] == "i":
        rid = p[1][1]
        r = st.heap.get(rid)
        if r is not None:
            off = p[2][-1][1]
            if r.status != "live":
                I.event(st, "use-after-free")
            if not st.eq(off, ZERO) or not (isinstance(cap, Lin) and st.eq(cap, r.cap if r.cap is not None else r.len)) \
                    or not (isinstance(n, Lin) and st.ge(r.len - n)):
                I.event(st, "buffer rebuilt with a wrong size")
            return [(st, ("VEC", rid))]
    if isinstance(p, tuple) and p[0] == "R":
        I.event(st, "buffer rebuilt from a pointer that owns no buffer")
        return [(st, top("vec"))]
    return NotImplemented


def v_truncate(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None or not isinstance(args[1], Lin):
        return NotImplemented
    r = st.heap[v[1]]
    if st.decide(r.len - args[1]):
        st.heap[v[1]] = r.with_(len=args[1], segs=tuple(seg_clip(st, r.segs, ZERO, args[1])))
    return [(st, UNIT)]


def v_resize(I, st, args, info):
    v = vec_of(I, st, args[0])
    if v is None or not isinstance(args[1], Lin):
        return NotImplemented
    r = st.heap[v[1]]
    n = args[1]
    if st.decide(r.len - n):
        st.heap[v[1]] = r.with_(len=n, segs=tuple(seg_clip(st, r.segs, ZERO, n)))
    else:
        t = word(I, args[2], r.w)
        if t is None:
            return NotImplemented
        cap = r.cap if r.cap is not None and st.ge(r.cap - n) else None
        if cap is None:
            I.event(st, "alloc")
        st.heap[v[1]] = r.with_(len=n, segs=seg_norm(st, tuple(r.segs) + ((r.len, n, t),)), cap=cap)
    return [(st, UNIT)]


def v_extend_slice(I, st, args, info):
    v = vec_of(I, st, args[0])
    s = as_slice(I, st, args[1])
    if v is None or s is None:
        return NotImplemented
    g = get_segs(I, st, s)
    if g is None:
        return NotImplemented
    r = st.heap[v[1]]
    cap = r.cap if r.cap is not None and st.ge(r.cap - r.len - s[4]) else None
    if cap is None:
        I.event(st, "alloc")
    st.heap[v[1]] = r.with_(len=r.len + s[4], segs=seg_norm(st, tuple(r.segs) + tuple(seg_shift(g, r.len))), cap=cap)
    return [(st, UNIT)]


def v_extend(I, st, args, info):
    v = vec_of(I, st, args[0])
    it = it_of(I, st, args[1], info.targ(len([x for x in info.c.get("targs") or []]) - 1))
    if v is None or it is None:
        return NotImplemented
    b = bulk(I, st, it)
    r = st.heap[v[1]]
    if b is None or r.elem == "?":
        return NotImplemented
    ln, g = b
    cap = r.cap if r.cap is not None and st.ge(r.cap - r.len - ln) else None
    if cap is None:
        I.event(st, "alloc")
    st.heap[v[1]] = r.with_(len=r.len + ln, segs=seg_norm(st, tuple(r.segs) + tuple(seg_shift(g, r.len))), cap=cap)
    return [(st, UNIT)]


def box_new(I, st, args, info):
    return NotImplemented


# ------------------------------------------------------------------ pointers and memory
def nn_as_ptr(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1:
        return [(st, v[2][0])]
    return [(st, v)]


def nn_new(I, st, args, info):
    return [(st, ("S", 0, (args[0],)))]


def nn_new_opt(I, st, args, info):
    return [(st, some(("S", 0, (args[0],))))]


def p_copy(I, st, args, info):
    src, dst, n = args
    if not isinstance(n, Lin):
        return NotImplemented
    s, d = slice_from_ptr(I, st, src, n), slice_from_ptr(I, st, dst, n)
    if s[0] != "SL" or d[0] != "SL":
        return NotImplemented
    if not st.decide(n - 1):
        return [(st, UNIT)]
    g = get_segs(I, st, s)
    if g is None:
        return NotImplemented
    put_segs(I, st, d, g)
    return [(st, UNIT)]


def copy_nonoverlapping(I, st, fn, fid, s):
    src = I.operand(st, fn, fid, s[1])
    dst = I.operand(st, fn, fid, s[2])
    n = I.operand(st, fn, fid, s[3])
    r = p_copy(I, st, [src, dst, n], None)
    if r is NotImplemented:
        I.havoc_ref(st, dst, "copy_nonoverlapping")
        st.taint = st.taint | {"copy_nonoverlapping"}


def p_add(I, st, args, info):
    p, n = args
    if isinstance(p, tuple) and p[0] == "R" and isinstance(n, Lin):
        if info.name == "sub":
            n = -n
        return [(st, ptr_add(I, p, n))]
    return NotImplemented


def p_read(I, st, args, info):
    p = args[0]
    if isinstance(p, tuple) and p[0] == "R":
        return [(st, I.load(st, p[1], p[2]))]
    return NotImplemented


def p_write(I, st, args, info):
    p = args[0]
    if isinstance(p, tuple) and p[0] == "R":
        I.store(st, p[1], p[2], args[1])
        return [(st, UNIT)]
    return NotImplemented


def m_forget(I, st, args, info):
    return [(st, UNIT)]


def m_drop(I, st, args, info):
    ty = info.targ(0)
    slot = (info.fid, ("drop", info.bb))
    st.env[slot] = args[0]
    out = []
    for s in I.drop_at(st, ("v",) + slot, (), ty, info.fid, info.bb):
        s.env.pop(slot, None)
        out.append((s, UNIT))
    return out


def m_swap(I, st, args, info):
    a, b = args
    if a[0] != "R" or b[0] != "R":
        return NotImplemented
    u, v = I.load(st, a[1], a[2]), I.load(st, b[1], b[2])
    I.store(st, a[1], a[2], v)
    I.store(st, b[1], b[2], u)
    return [(st, UNIT)]


def m_replace(I, st, args, info):
    a = args[0]
    if a[0] != "R":
        return NotImplemented
    u = I.load(st, a[1], a[2])
    I.store(st, a[1], a[2], args[1])
    return [(st, u)]


def m_size_of(I, st, args, info):
    t = info.targ(0)
    w = I.p.int_w(t) if t is not None else None
    if w:
        return [(st, lc(w[0] // 8))]
    return NotImplemented


# ------------------------------------------------------------------ integers
import re
IW = re.compile(r"num::<impl ([iu])(\d+|size)>::(\w+)$")


def int_model(kind, w, name):
    sg = kind == "i"
    w = 64 if w == "size" else int(w)
    f = INT.get(name)
    if f is None:
        return None

    def m(I, st, args, info):
        if not all(isinstance(a, Lin) for a in args):
            return NotImplemented
        return f(I, st, args, info, w, sg)

    return m


def i_wrap(op):
    def m(I, st, args, info, w, sg):
        a, b = args
        if a.is_const() and b.is_const():
            return [(st, lc(arith(op, a.c, b.c) & ones(w)))]
        if not sg and I.linear(a) and I.linear(b) and op in ("wadd", "wsub"):
            r = a + b if op == "wadd" else a - b
            if st.ge(r) and st.ge(lc(ones(w)) - r):
                return [(st, r)]
            x, y = I.fork(st, r if op == "wsub" else lc(ones(w)) - r)
            out = []
            if x is not None:
                out.append((x, r))
            if y is not None:
                out.append((y, r + (1 << w) if op == "wsub" else r - (1 << w)))
            return out
        x, y = as_term(a, w), as_term(b, w)
        if op in ("wadd", "wmul") and x.op == "c":
            x, y = y, x
        if y.op == "c" and y.a[0] == 0 and op in ("wadd", "wsub"):
            return [(st, a if x is as_term(a, w) else b)]
        if op == "wmul" and y.op == "c" and y.a[0] == 0:
            return [(st, ZERO)]
        if op == "wmul" and y.op == "c" and y.a[0] == 1:
            return [(st, x.lin())]
        return [(st, T(op, (x, y), w).lin())]

    return m


def arith(op, a, b):
    return a + b if op == "wadd" else a - b if op == "wsub" else a * b


def i_ovf(op):
    wr = i_wrap(op)

    def m(I, st, args, info, w, sg):
        a, b = args
        if sg:
            return [(st, ("S", 0, (unk(w, "ovf").lin(), ("ub", fresh_id()))))]
        if I.linear(a) and I.linear(b) and op != "wmul":
            r = a + b if op == "wadd" else a - b
            x, y = I.fork(st, r if op == "wsub" else lc(ones(w)) - r)
            out = []
            if x is not None:
                out.append((x, ("S", 0, (r, False))))
            if y is not None:
                out.append((y, ("S", 0, (r + (1 << w) if op == "wsub" else r - (1 << w), True))))
            return out
        out = []
        for s, r in wr(I, st, args, info, w, sg):
            x, y = as_term(a, w), as_term(b, w)
            if op == "wadd":
                if x.op == "c":
                    x, y = y, x
                if y.op == "c" and y.a[0] == 0:
                    c = False
                elif y.op == "c" and y.a[0] == 1:
                    c = ("teq", x, tc(ones(w), w))
                else:
                    c = ("tlt", as_term(r, w), x)
            elif op == "wsub":
                c = I.cmp(s, "Lt", a, b, w, False)
            else:
                c = ("ub", ("mulovf", x, y))
            out.append((s, ("S", 0, (r, c))))
        return out

    return m


def i_checked(op):
    ov = i_ovf(op)

    def m(I, st, args, info, w, sg):
        a, b = args
        if not sg and (I.linear(a) and I.linear(b)) and (op != "wmul" or a.is_const() or b.is_const()):
            r = a + b if op == "wadd" else a - b if op == "wsub" else (b.scale(a.c) if a.is_const() else a.scale(b.c))
            x, y = I.fork(st, r if op == "wsub" else lc(ones(w)) - r)
            out = []
            if x is not None:
                out.append((x, some(r)))
            if y is not None:
                out.append((y, NONE))
            return out
        out = []
        for s, v in ov(I, st, args, info, w, sg):
            for s2, b in bool_cases(I, s, v[2][1]):
                out.append((s2, NONE if b else some(v[2][0])))
        return out

    return m


def i_sat(op):
    def m(I, st, args, info, w, sg):
        a, b = args
        if sg or not (I.linear(a) and I.linear(b)):
            return NotImplemented
        r = a + b if op == "wadd" else a - b
        x, y = I.fork(st, r if op == "wsub" else lc(ones(w)) - r)
        out = []
        if x is not None:
            out.append((x, r))
        if y is not None:
            out.append((y, ZERO if op == "wsub" else lc(ones(w))))
        return out

    return m


def i_div(I, st, args, info, w, sg):
    a, b = args
    if sg:
        return NotImplemented
    z = I.cmp(st, "Eq", b, ZERO, w, False)
    out = []
    for s, e in bool_cases(I, st, z):
        if e:
            I.panic(s, "division by zero")
        else:
            op = "Div" if "div" in info.name else "Rem"
            ty = None
            if b.is_const() and (a.is_const() or I.linear(a)):
                q, r = I.divmod(s, a, b.c)
                out.append((s, q if op == "Div" else r))
            else:
                out.append((s, T("udiv" if op == "Div" else "urem", (as_term(a, w), as_term(b, w)), w).lin()))
    return out


def i_wshift(I, st, args, info, w, sg):
    a, n = args
    if not n.is_const() or n.c >= w:
        if not st.decide(lc(w - 1) - n):
            n = I.divmod(st, n, w)[1]
    if info.name.endswith("shl"):
        return [(st, mk_shl(as_term(a, w), n, w).lin())]
    if sg:
        return [(st, T("ashr", (as_term(a, w), n), w).lin())]
    return [(st, mk_shr(as_term(a, w), n, w).lin())]


def i_cshift(I, st, args, info, w, sg):
    a, n = args
    x, y = I.fork(st, lc(w - 1) - n)
    out = []
    if y is not None:
        out.append((y, NONE))
    if x is not None:
        if info.name.endswith("shl"):
            r = mk_shl(as_term(a, w), n, w).lin()
        elif sg:
            r = T("ashr", (as_term(a, w), n), w).lin()
        else:
            r = mk_shr(as_term(a, w), n, w).lin()
        out.append((x, some(r)))
    return out


def i_count(op):
    def m(I, st, args, info, w, sg):
        a = args[0]
        if a.is_const():
            v = a.c
            if op == "popcnt":
                r = bin(v).count("1")
            elif op == "clz":
                r = w - v.bit_length()
            else:
                r = (v & -v).bit_length() - 1 if v else w
            return [(st, lc(r))]
        return [(st, T(op, (as_term(a, w),), 32).lin())]

    return m


def i_count_zeros(I, st, args, info, w, sg):
    out = []
    for s, r in i_count("popcnt")(I, st, args, info, w, sg):
        out.append((s, lc(w) - r))
    return out


def i_pow2(I, st, args, info, w, sg):
    a = args[0]
    if a.is_const():
        return [(st, a.c != 0 and a.c & (a.c - 1) == 0)]
    if I.linear(a):
        c = False
        for i in range(w):
            e = ("eq0", a - (1 << i))
            c = e if c is False else ("or", c, e)
        return [(st, c)]
    return [(st, ("ub", ("pow2", a)))]


def i_minmax(I, st, args, info, w, sg):
    a, b = args
    c = I.cmp(st, "Lt", a, b, w, sg)
    out = []
    for s, e in bool_cases(I, st, c):
        out.append((s, a if e == (info.name == "min") else b))
    return out


def i_neg(I, st, args, info, w, sg):
    a = args[0]
    if a.is_const():
        return [(st, lc(-a.c & ones(w)))]
    return [(st, T("wsub", (tc(0, w), as_term(a, w)), w).lin())]


def i_pow(I, st, args, info, w, sg):
    if args[0].is_const() and args[1].is_const() and args[0].c ** args[1].c < (1 << w):
        return [(st, lc(args[0].c ** args[1].c))]
    return NotImplemented


def i_signum(I, st, args, info, w, sg):
    return [(st, ("bit", as_term(args[0], w), lc(w - 1)))]


def i_swap(I, st, args, info, w, sg):
    return [(st, T(info.name, (as_term(args[0], w),), w).lin())]


def i_div_ceil(I, st, args, info, w, sg):
    a, b = args
    if sg or not b.is_const() or b.c <= 0 or not I.linear(a):
        return NotImplemented
    r = a + (b.c - 1)
    x, y = I.fork(st, lc(ones(w)) - r)
    if y is not None:
        return NotImplemented
    q = I.divmod(x, r, b.c)[0]
    return [(x, q if info.name == "div_ceil" else q.scale(b.c))]


def i_abs_diff(I, st, args, info, w, sg):
    a, b = args
    if sg or not (I.linear(a) and I.linear(b)):
        return NotImplemented
    x, y = I.fork(st, a - b)
    return ([(x, a - b)] if x is not None else []) + ([(y, b - a)] if y is not None else [])


def i_lead_ones(op):
    def m(I, st, args, info, w, sg):
        a = args[0]
        if a.is_const():
            return i_count(op)(I, st, [lc(~a.c & ones(w))], info, w, sg)
        return i_count(op)(I, st, [mk_not(as_term(a, w), w).lin()], info, w, sg)

    return m


def i_rotate(I, st, args, info, w, sg):
    a, n = args
    if not n.is_const():
        return NotImplemented
    k = n.c % w
    if info.name == "rotate_right":
        k = (w - k) % w
    if k == 0:
        return [(st, a)]
    if a.is_const():
        return [(st, lc(((a.c << k) | (a.c >> (w - k))) & ones(w)))]
    x = as_term(a, w)
    return [(st, mk("or", mk_shl(x, lc(k), w), mk_shr(x, lc(w - k), w), w).lin())]


def i_checked_div(I, st, args, info, w, sg):
    a, b = args
    if sg:
        return NotImplemented
    out = []
    for s, e in bool_cases(I, st, I.cmp(st, "Eq", b, ZERO, w, False)):
        if e:
            out.append((s, NONE))
        else:
            r = i_div(I, s, args, info, w, sg)
            if r is NotImplemented:
                return r
            out += [(s2, some(v)) for s2, v in r]
    return out


def i_const(f):
    """a function of known numbers only"""
    def m(I, st, args, info, w, sg):
        if sg or not all(a.is_const() for a in args):
            return NotImplemented
        r = f(w, *[a.c for a in args])
        return NotImplemented if r is None or r > ones(w) else [(st, lc(r))]

    return m


INT = {
    "div_ceil": i_div_ceil, "next_multiple_of": i_div_ceil, "abs_diff": i_abs_diff,
    "leading_ones": i_lead_ones("clz"), "trailing_ones": i_lead_ones("ctz"),
    "rotate_left": i_rotate, "rotate_right": i_rotate, "checked_div": i_checked_div, "checked_rem": i_checked_div,
    "next_power_of_two": i_const(lambda w, a: 1 << max(a - 1, 0).bit_length()), "ilog2": i_const(lambda w, a: a.bit_length() - 1 if a else None),
    "ilog10": i_const(lambda w, a: len(str(a)) - 1 if a else None), "isqrt": i_const(lambda w, a: int(a ** 0.5) if a < 1 << 40 else None),
    "max_value": lambda I, st, args, info, w, sg: [(st, lc(ones(w - sg)))], "min_value": lambda I, st, args, info, w, sg: [(st, lc(1 << (w - 1) if sg else 0))],
    "div_euclid": i_const(lambda w, a, b: a // b if b else None), "rem_euclid": i_const(lambda w, a, b: a % b if b else None),
    "wrapping_add": i_wrap("wadd"), "wrapping_sub": i_wrap("wsub"), "wrapping_mul": i_wrap("wmul"),
    "overflowing_add": i_ovf("wadd"), "overflowing_sub": i_ovf("wsub"), "overflowing_mul": i_ovf("wmul"),
    "checked_add": i_checked("wadd"), "checked_sub": i_checked("wsub"), "checked_mul": i_checked("wmul"),
    "saturating_add": i_sat("wadd"), "saturating_sub": i_sat("wsub"),
    "wrapping_div": i_div, "wrapping_rem": i_div,
    "wrapping_shl": i_wshift, "wrapping_shr": i_wshift, "checked_shl": i_cshift, "checked_shr": i_cshift,
    "count_ones": i_count("popcnt"), "leading_zeros": i_count("clz"), "trailing_zeros": i_count("ctz"),
    "count_zeros": i_count_zeros, "is_power_of_two": i_pow2, "min": i_minmax, "max": i_minmax,
    "wrapping_neg": i_neg, "pow": i_pow, "is_negative": i_signum,
    "swap_bytes": i_swap, "reverse_bits": i_swap,
}


def m_ord_minmax(I, st, args, info):
    t = info.targ(0)
    w = I.p.int_w(t) if t is not None else None
    if not w or not all(isinstance(a, Lin) for a in args):
        return NotImplemented
    return i_minmax(I, st, args, info, w[0], w[1])


def nz_new(I, st, args, info):
    v = args[0]
    if not isinstance(v, Lin):
        return NotImplemented
    a, b = I.fork(st, v - 1)
    out = []
    if a is not None:
        out.append((a, some(("S", 0, (v,)))))
    if b is not None:
        out.append((b, NONE))
    return out


def nz_get(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "S":
        return [(st, v[2][0])]
    return NotImplemented


# ------------------------------------------------------------------ hashing
def h_feed(I, st, ref, item):
    if isinstance(ref, tuple) and ref[0] == "R":
        v = I.load(st, ref[1], ref[2])
        if isinstance(v, tuple) and v[0] == "HS":
            I.store(st, ref[1], ref[2], ("HS", v[1] + (item,)))
            return True
        if isinstance(v, tuple) and v[0] == "R":
            return h_feed(I, st, v, item)
    return False


def h_int(I, st, args, info):
    v = args[0]
    while isinstance(v, tuple) and v[0] == "R":
        v = I.load(st, v[1], v[2])
    while isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1:
        v = v[2][0]
    if not h_feed(I, st, args[1], ("int", v)):
        taint(st, "hash")
    return [(st, UNIT)]


def h_slice(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    g = get_segs(I, st, s)
    if g is None or not h_feed(I, st, args[1], ("slice", s[4], tuple(g))):
        taint(st, "hash")
    return [(st, UNIT)]


def h_addr(I, st, args, info):
    if not h_feed(I, st, args[1], ("addr",)):
        taint(st, "hash")
    return [(st, UNIT)]


def h_write(I, st, args, info):
    if not h_feed(I, st, args[0], ("w", info.name, args[1] if len(args) > 1 else None)):
        taint(st, "hasher")
    return [(st, UNIT)]


# ------------------------------------------------------------------ formatting, panics, misc
def opaque(I, st, args, info):
    v = top("lib:" + str(info.name))
    return [(st, v)]


def opaque_alloc(I, st, args, info):
    I.event(st, "alloc")
    return [(st, ("TOP", (fresh_id(), "string", args[0] if args else None)))]


def fmt_result(I, st, args, info):
    s2 = st.copy()
    return [(st, ("S", 0, (UNIT,))), (s2, ("S", 1, (UNIT,)))]


FMT_PLAIN = (0x60000020, 0)
FMT_TRAIT = {"new_binary": "Binary", "new_lower_hex": "LowerHex", "new_upper_hex": "UpperHex", "new_octal": "Octal",
             "new_display": "Display", "new_debug": "Debug", "new_lower_exp": "LowerExp"}


def fm_of(I, st, ref):
    """the formatter behind a reference: (its place, its value), value ("FM", options, text pieces)"""
    n = 0
    while isinstance(ref, tuple) and ref[0] == "R" and n < 6:
        v = I.load(st, ref[1], ref[2])
        if isinstance(v, tuple) and v and v[0] == "FM":
            return ref, v
        ref, n = v, n + 1
    return None, None


def fm_put(I, st, ref, item):
    pl, v = fm_of(I, st, ref)
    I.store(st, pl[1], pl[2], ("FM", v[1], v[2] + (item,)))


def fa_new(I, st, args, info):
    t = FMT_TRAIT.get(info.name)
    if info.name == "from_usize" and args and isinstance(args[0], tuple) and args[0][0] == "R":
        return [(st, ("FA", "usize", None, I.load(st, args[0][1], args[0][2])))]
    if t is None or not args:
        return opaque(I, st, args, info)
    return [(st, ("FA", t, info.targ(0), args[0]))]


def fa_list(I, st, args, info):
    """fmt::Arguments: the template of a format string and its arguments"""
    if info.name == "from_str" or info.name == "from_str_nonconst":
        if isinstance(args[0], tuple) and args[0][0] == "STR":
            return [(st, ("FS", args[0][1], ()))]
        return opaque(I, st, args, info)
    try:
        t, a = (I.load(st, x[1], x[2]) for x in args[:2])
        if t[0] == "A" and a[0] == "A" and all(isinstance(x, Lin) and x.is_const() for x in t[1]) and all(x[0] == "FA" for x in a[1]):
            return [(st, ("FS", tuple(x.c for x in t[1]), a[1]))]
    except (TypeError, IndexError, KeyError):
        pass
    return opaque(I, st, args, info)


def fmt_pieces(t, args=()):
    """the parts of a template: text, or (argument, options); None if it has a part not modelled"""
    if isinstance(t, str):
        return [t]
    out, i, arg = [], 0, 0
    while i < len(t):
        n = t[i]
        i += 1
        if n == 0:
            return out
        if n <= 0x80:
            if n == 0x80:
                n = t[i] | t[i + 1] << 8
                i += 2
            out.append("".join(map(chr, t[i:i + n])))
            i += n
            continue
        fl, w = FMT_PLAIN
        if n & 1:
            fl = int.from_bytes(bytes(t[i:i + 4]), "little")
            i += 4
        if n & 2:
            w = t[i] | t[i + 1] << 8
            i += 2
        if n & 4:
            return None
        if n & 8:
            arg = t[i] | t[i + 1] << 8
            i += 2
        if n & 32:
            return None
        if n & 16:
            a = args[w] if w < len(args) else None
            if not (a and a[1] == "usize" and isinstance(a[3], Lin) and a[3].is_const() and 0 <= a[3].c < 65536):
                return None
            w = int(a[3].c)
        out.append((arg, (fl, w)))
        arg += 1
    return out


def fmt_value(I, st, tr, ty, ref, f, info):
    """format the value of type ty behind ref with trait tr: [(state, result)]"""
    t = I.types[ty] if ty is not None else {"k": "?"}
    while t["k"] == "ref":
        if not (isinstance(ref, tuple) and ref[0] == "R"):
            t = {"k": "?"}
            break
        ref, ty = I.load(st, ref[1], ref[2]), t["to"]
        t = I.types[ty]
    ok = ("S", 0, (UNIT,))
    if t["k"] in ("int", "uint"):
        v = I.load(st, ref[1], ref[2]) if isinstance(ref, tuple) and ref[0] == "R" else None
        fm_put(I, st, f, ("num", tr, fm_of(I, st, f)[1][1], I.p.int_w(ty), v))
        return [(st, ok)]
    if t["k"] == "str" and isinstance(ref, tuple) and ref[0] == "STR" and tr == "Display":
        fm_put(I, st, f, ("text", ref[1]))
        return [(st, ok)]
    if t["k"] == "adt":
        for k, g in I.p.fns.items():
            if g.local and g.d.get("name") == "fmt" and g.d.get("impl_self") == t["path"] and (g.d.get("impl_trait") or "").endswith("::" + tr):
                return I.inline(st, k, [ref, f], info.fid, ("fmt", info.bb))
    fm_put(I, st, f, ("?",))
    taint(st, "fmt")
    return [(st, ok)]


def fmt_write(I, st, args, info):
    pl, v = fm_of(I, st, args[0])
    if pl is None:
        return fmt_fmt(I, st, args, info)
    a = args[1]
    ps = fmt_pieces(a[1], a[2]) if isinstance(a, tuple) and a[0] == "FS" else None
    if ps is None:
        fm_put(I, st, args[0], ("?",))
        taint(st, "fmt")
        return [(st, ("S", 0, (UNIT,)))]
    work, out = [st], []
    for x in ps:
        nxt = []
        for s in work:
            if isinstance(x, str):
                fm_put(I, s, args[0], ("text", x))
                nxt.append(s)
                continue
            fa = a[2][x[0]] if x[0] < len(a[2]) else ("FA", "?", None, None)
            old = fm_of(I, s, args[0])[1]
            I.store(s, pl[1], pl[2], ("FM", x[1], old[2]))
            for s2, r in fmt_value(I, s, fa[1], fa[2], fa[3], args[0], info):
                I.store(s2, pl[1], pl[2], ("FM", v[1], fm_of(I, s2, args[0])[1][2]))
                if isinstance(r, tuple) and r[0] == "S" and r[1] == 1:
                    out.append((s2, r))
                else:
                    nxt.append(s2)
        work = nxt
    return out + [(s, ("S", 0, (UNIT,))) for s in work]


def fmt_num(I, st, args, info):
    """a number's own formatting, called with a formatter"""
    pl, v = fm_of(I, st, args[1]) if len(args) > 1 else (None, None)
    if pl is None:
        return fmt_result(I, st, args, info)
    m = re.search(r"for ([iu])(8|16|32|64|128|size)>?::fmt", info.path) or re.search(r"<([iu])(8|16|32|64|128|size) as ", info.path)
    tr = norm_path(info.c.get("trait") or "").rsplit("::", 1)[-1]
    x = args[0]
    while isinstance(x, tuple) and x[0] == "R":
        x = I.load(st, x[1], x[2])
    if m and isinstance(x, Lin):
        w = 64 if m.group(2) == "size" else int(m.group(2))
        fm_put(I, st, args[1], ("num", tr, v[1], (w, m.group(1) == "i"), x))
    elif "str" in info.path and isinstance(x, tuple) and x[0] == "STR" and tr == "Display":
        fm_put(I, st, args[1], ("text", x[1]))
    else:
        fm_put(I, st, args[1], ("?",))
        taint(st, "fmt")
    return [(st, ("S", 0, (UNIT,)))]


def fmt_method(I, st, args, info):
    pl, v = fm_of(I, st, args[0]) if args else (None, None)
    if pl is None:
        return fmt_fmt(I, st, args, info)
    fl = v[1][0]
    if info.name in ("write_str", "write_char", "pad") and len(args) == 2:
        x = args[1]
        if isinstance(x, tuple) and x[0] == "STR" and (info.name != "pad" or v[1] == FMT_PLAIN):
            fm_put(I, st, args[0], ("text", x[1]))
            return [(st, ("S", 0, (UNIT,)))]
        if info.name == "write_char" and isinstance(x, Lin):
            fm_put(I, st, args[0], ("char", x))
            return [(st, ("S", 0, (UNIT,)))]
    if info.name == "alternate":
        return [(st, bool(fl >> 23 & 1))]
    if info.name == "sign_aware_zero_pad":
        return [(st, bool(fl >> 24 & 1))]
    if info.name == "sign_plus":
        return [(st, bool(fl >> 21 & 1))]
    if info.name == "width":
        return [(st, some(lc(v[1][1])) if fl >> 27 & 1 else NONE)]
    if info.name == "precision" and not fl >> 28 & 1:
        return [(st, NONE)]
    fm_put(I, st, args[0], ("?",))
    taint(st, "fmt")
    t = I.types[info.dty] if info.dty is not None else None
    if t is not None and t["k"] == "adt" and norm_path(t["path"]).endswith("Result"):
        return [(st, ("S", 0, (UNIT,)))]
    return opaque(I, st, args, info)


def ident(I, st, args, info):
    return [(st, args[0])]


def m_panic(I, st, args, info):
    what = info.path.rsplit("::", 1)[-1]
    if args and isinstance(args[0], tuple) and args[0][0] == "STR":
        what += ": " + args[0][1][:60]
    I.panic(st, what)
    return []


def unresolved_into(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "SYM":
        return [(st, v[1])]
    return NotImplemented


def as_ref_str(I, st, args, info):
    v = args[0]
    while isinstance(v, tuple) and v[0] == "R":
        v = I.load(st, v[1], v[2])
    if isinstance(v, tuple) and v[0] == "SYM":
        return [(st, v[1])]
    return NotImplemented


def clone_int(I, st, args, info):
    v = args[0]
    if isinstance(v, tuple) and v[0] == "R":
        return [(st, I.load(st, v[1], v[2]))]
    return NotImplemented


def str_affix(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    pat = args[1]
    if isinstance(pat, Lin) and pat.is_const():
        b = pat.c
    elif isinstance(pat, tuple) and pat[0] == "STR" and len(pat[1]) == 1:
        b = ord(pat[1])
    else:
        return NotImplemented
    a, e = I.fork(st, s[4] - 1)
    out = []
    if e is not None:
        out.append((e, False))
    if a is not None:
        i = s[3] if info.name == "starts_with" else s[3] + s[4] - 1
        x = I.elem(s[1], s[2], i)
        v = I.load(a, x[1], x[2])
        c = I.cmp(a, "Eq", v, lc(b), 8, False)
        out += bool_cases(I, a, c)
    return out


def str_bytes(I, st, args, info):
    s = as_slice(I, st, args[0])
    if s is None:
        return NotImplemented
    return [(st, ("IT", "copied", ("IT", "sl", s[1], s[2], s[3], s[3] + s[4])))]


def ptr_eq(I, st, args, info):
    return [(st, ("ub", fresh_id()))]


def transparent_fn_call(I, st, args, info):
    return NotImplemented


EXACT = {
    "slice::<impl [T]>::iter": s_iter, "slice::<impl [T]>::iter_mut": s_iter,
    "slice::iter::<impl iter::IntoIterator for &'a [T]>::into_iter": s_iter,
    "slice::iter::<impl iter::IntoIterator for &'a mut [T]>::into_iter": s_iter,
    "slice::<impl [T]>::len": s_len, "slice::<impl [T]>::is_empty": s_is_empty,
    "slice::<impl [T]>::first": s_first, "slice::<impl [T]>::first_mut": s_first,
    "slice::<impl [T]>::last": s_last, "slice::<impl [T]>::last_mut": s_last,
    "slice::<impl [T]>::get": s_get, "slice::<impl [T]>::get_mut": s_get,
    "slice::<impl [T]>::split_first": s_split_first, "slice::<impl [T]>::split_first_mut": s_split_first,
    "slice::<impl [T]>::split_last": s_split_last, "slice::<impl [T]>::split_last_mut": s_split_last,
    "slice::<impl [T]>::split_at": s_split_at, "slice::<impl [T]>::split_at_mut": s_split_at,
    "slice::<impl [T]>::swap_with_slice": s_swap_with,
    "slice::<impl [T]>::copy_from_slice": s_copy_from, "slice::<impl [T]>::clone_from_slice": s_copy_from,
    "slice::<impl [T]>::rotate_left": s_rotate_left, "slice::<impl [T]>::rotate_right": s_rotate_left,
    "slice::<impl [T]>::reverse": s_reverse, "slice::<impl [T]>::fill": s_fill, "slice::<impl [T]>::swap": s_swap,
    "slice::<impl [T]>::chunks": s_chunks, "slice::<impl [T]>::chunks_mut": s_chunks, "slice::<impl [T]>::chunks_exact": s_chunks,
    "slice::<impl [T]>::chunks_exact_mut": s_chunks, "slice::<impl [T]>::rchunks": s_chunks, "slice::<impl [T]>::rchunks_mut": s_chunks, "slice::<impl [T]>::copy_within": s_copy_within,
    "boxed::Box::<T, A>::into_raw": b_leak, "boxed::Box::<T>::into_raw": b_leak, "boxed::Box::<T, A>::leak": b_leak,
    "vec::Vec::<T, A>::leak": b_leak, "boxed::Box::<T>::from_raw": b_from_raw, "boxed::Box::<T, A>::from_raw": b_from_raw,
    "<vec::Vec<T, A> as clone::Clone>::clone": v_clone, "<boxed::Box<[T], A> as clone::Clone>::clone": v_clone,
    "vec::Vec::<T, A>::clear": v_clear, "mem::ManuallyDrop::<T>::new": md_new,
    "<mem::ManuallyDrop<T> as ops::Deref>::deref": md_deref, "<mem::ManuallyDrop<T> as ops::DerefMut>::deref_mut": md_deref,
    "<boxed::Box<T, A> as ops::DerefMut>::deref_mut": v_deref,
    "slice::<impl borrow::ToOwned for [T]>::to_owned": s_to_vec,
    "<vec::Vec<T> as convert::From<&[T]>>::from": s_to_vec,
    "slice::<impl [T]>::as_ptr": s_ptr, "slice::<impl [T]>::as_mut_ptr": s_ptr,
    "slice::<impl [T]>::to_vec": s_to_vec, "slice::<impl [T]>::into_vec": ident,
    "slice::index::<impl ops::Index<I> for [T]>::index": s_index,
    "slice::index::<impl ops::IndexMut<I> for [T]>::index_mut": s_index,
    "slice::from_raw_parts": from_raw_parts, "slice::from_raw_parts_mut": from_raw_parts,
    "slice::raw::from_raw_parts": from_raw_parts, "slice::raw::from_raw_parts_mut": from_raw_parts,
    "ptr::slice_from_raw_parts": from_raw_parts, "ptr::slice_from_raw_parts_mut": from_raw_parts,
    "vec::Vec::<T>::with_capacity": v_new, "vec::Vec::<T>::new": v_new, "vec::from_elem": v_from_elem,
    "vec::Vec::<T, A>::push": v_push, "vec::Vec::<T, A>::pop": v_pop, "vec::Vec::<T, A>::len": s_len,
    "vec::Vec::<T, A>::is_empty": s_is_empty, "vec::Vec::<T, A>::capacity": v_capacity,
    "vec::Vec::<T, A>::into_boxed_slice": v_boxed, "vec::Vec::<T>::from_raw_parts": v_from_raw,
    "vec::Vec::<T, A>::as_ptr": s_ptr, "vec::Vec::<T, A>::as_mut_ptr": s_ptr,
    "vec::Vec::<T, A>::as_slice": v_deref, "vec::Vec::<T, A>::as_mut_slice": v_deref,
    "vec::Vec::<T, A>::truncate": v_truncate, "vec::Vec::<T, A>::resize": v_resize,
    "vec::Vec::<T, A>::extend_from_slice": v_extend_slice, "vec::Vec::<T, A>::shrink_to_fit": v_shrink,
    "<vec::Vec<T, A> as ops::Deref>::deref": v_deref, "<vec::Vec<T, A> as ops::DerefMut>::deref_mut": v_deref,
    "<vec::Vec<T, A> as ops::Index<I>>::index": s_index, "<vec::Vec<T, A> as ops::IndexMut<I>>::index_mut": s_index,
    "<smallvec::SmallVec<A> as ops::Deref>::deref": v_deref, "<smallvec::SmallVec<A> as ops::DerefMut>::deref_mut": v_deref,
    "smallvec::SmallVec::<A>::len": s_len, "smallvec::SmallVec::<A>::as_ptr": s_ptr, "smallvec::SmallVec::<A>::as_mut_ptr": s_ptr,
    "smallvec::SmallVec::<A>::capacity": v_capacity, "smallvec::SmallVec::<A>::shrink_to_fit": v_shrink,
    "smallvec::SmallVec::<A>::as_slice": v_deref, "smallvec::SmallVec::<A>::is_empty": s_is_empty,
    "<boxed::Box<T, A> as ops::Deref>::deref": v_deref,
    "boxed::Box::<T>::new_uninit": b_new_uninit, "boxed::box_assume_init_into_vec_unsafe": b_into_vec,
    "ptr::NonNull::<T>::as_ptr": nn_as_ptr, "ptr::NonNull::<T>::new_unchecked": nn_new, "ptr::NonNull::<T>::new": nn_new_opt,
    "ptr::NonNull::<T>::as_ref": nn_as_ptr, "ptr::NonNull::<T>::as_mut": nn_as_ptr,
    "ptr::copy": p_copy, "ptr::copy_nonoverlapping": p_copy, "intrinsics::copy": p_copy,
    "ptr::mut_ptr::<impl *mut T>::add": p_add, "ptr::const_ptr::<impl *const T>::add": p_add,
    "ptr::mut_ptr::<impl *mut T>::sub": p_add, "ptr::const_ptr::<impl *const T>::sub": p_add,
    "ptr::mut_ptr::<impl *mut T>::offset": p_add, "ptr::const_ptr::<impl *const T>::offset": p_add,
    "ptr::read": p_read, "ptr::write": p_write,
    "mem::forget": m_forget, "mem::drop": m_drop, "mem::swap": m_swap, "ptr::swap": m_swap, "ptr::replace": m_replace, "mem::replace": m_replace, "mem::size_of": m_size_of,
    "num::NonZero::<T>::new": nz_new, "num::NonZero::<T>::get": nz_get, "num::NonZero::<T>::new_unchecked": nn_new,
    "fmt::Arguments::<'a>::new": fa_list, "fmt::Arguments::<'a>::from_str": fa_list, "fmt::Formatter::<'a>::write_fmt": fmt_write, "fmt::format": opaque_alloc,
    "hint::must_use": ident, "iter::repeat": lambda I, st, a, i: [(st, ("IT", "repeat", a[0]))],
    "iter::once": lambda I, st, a, i: [(st, ("IT", "once", some(a[0])))],
    "iter::empty": lambda I, st, a, i: [(st, ("IT", "empty"))],
    "iter::repeat_n": lambda I, st, a, i: [(st, ("IT", "take", ("IT", "repeat", a[0]), a[1]))],
    "str::<impl borrow::ToOwned for str>::to_owned": opaque_alloc,
    "<string::String as clone::Clone>::clone": opaque_alloc,
    "<string::String as convert::From<&str>>::from": opaque_alloc,
    "str::<impl str>::starts_with": str_affix, "str::<impl str>::ends_with": str_affix,
    "str::<impl str>::len": s_len, "str::<impl str>::is_empty": s_is_empty, "str::<impl str>::bytes": str_bytes,
    "str::<impl str>::as_bytes": v_deref,
    "hash::impls::<impl hash::Hash for [T]>::hash": h_slice,
    "<num::NonZero<T> as hash::Hash>::hash": h_int, "<ptr::NonNull<T> as hash::Hash>::hash": h_addr,
    "char::convert::<impl convert::From<u8> for char>::from": ident,
    "<slice::Iter<'_, T> as clone::Clone>::clone": clone_int,
    "convert::AsRef::as_ref": as_ref_str,
    "slice::cmp::<impl cmp::PartialEq<[U]> for [T]>::eq": s_eq,
    "slice::cmp::<impl cmp::PartialEq<[U]> for [T]>::ne": s_eq,
}

ITER_CONS = ("all", "any", "for_each", "fold", "rfold", "sum", "count", "position", "rposition", "find", "last", "nth")
ITER_ADAPT = ("rev", "copied", "cloned", "enumerate", "map", "take", "skip", "zip", "chain", "fuse", "by_ref",
              "filter", "filter_map", "inspect", "skip_while", "take_while", "map_while", "step_by")
EXTRA = []   # property-specific models: callables (path, c) -> model or None


def lookup(path, c):
    for e in EXTRA:
        m = e(path, c)
        if m is not None:
            return m
    m = EXACT.get(path)
    if m is not None:
        return m
    name = c.get("name")
    tr = norm_path(c.get("trait") or "")
    if tr:
        t = tr.split("<")[0].rsplit("::", 1)[-1]
        if t in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator") and not (c.get("local") and name in ("next", "next_back")):
            if name in ("next", "next_back"):
                return m_next
            if name in ITER_CONS:
                return consumer
            if name in ITER_ADAPT:
                return adapter
            if name in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp"):
                return it_cmp
            if name == "collect":
                return m_collect
            if name == "len":
                return m_iter_len
        if t == "IntoIterator" and not c.get("local"):
            return m_into_iter
        if t == "FromIterator" and name == "from_iter" and not c.get("local"):
            return lambda I, st, a, i: m_collect(I, st, a, i)
        if t == "Into" and c.get("unresolved"):
            return unresolved_into
        if t == "Extend" and name == "extend" and not c.get("local"):
            return v_extend
        if t == "Ord" and name in ("min", "max") and not c.get("local"):
            return m_ord_minmax
        if t == "Clone" and name == "clone" and path.startswith("clone::impls::"):
            return clone_int
        if t == "Distribution" and name == "sample_iter":
            return rng_iter
        if t in ("RngCore", "Rng") and name in ("next_u64", "next_u32", "gen"):
            return rng_word
        if t == "SeedableRng":
            return rng_new
        if t == "Hasher":
            return h_write
        if t == "Hash" and name == "hash" and path.startswith("hash::impls::<impl hash::Hash for ") and not c.get("local"):
            return h_addr if "for *" in path else h_int
        if t in ("Debug", "Display", "Binary", "LowerHex", "UpperHex", "Octal") and name == "fmt" and not c.get("local"):
            return fmt_num
    m = IW.search(path)
    if m and not c.get("local"):
        return int_model(m.group(1), m.group(2), m.group(3))
    if path.startswith("panicking::") or path in ("option::expect_failed", "option::unwrap_failed", "result::unwrap_failed",
                                                   "rt::panic_fmt", "rt::begin_panic", "slice::index::slice_index_fail"):
        return m_panic
    if path.startswith("fmt::rt::"):
        return fa_new if path.startswith("fmt::rt::Argument") else opaque
    if path.startswith("fmt::Formatter") or t_write(tr, path):
        return fmt_method
    if path.startswith("fmt::Formatter") or path.startswith("fmt::DebugStruct") or path.startswith("fmt::builders"):
        return fmt_fmt
    return None


def t_write(tr, path):
    return tr == "fmt::Write" and "Formatter" in path


def fmt_fmt(I, st, args, info):
    if info.dty is not None:
        t = I.types[info.dty]
        if t["k"] == "adt" and norm_path(t["path"]).endswith("Result"):
            return fmt_result(I, st, args, info)
    return opaque(I, st, args, info)
