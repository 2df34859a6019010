"""Abstract interpreter over the MIR dump.

Forward dataflow over each body in weak topological order; calls are analysed
in the calling context (the callee's body is interpreted in place); states are
partitioned by the values of enum discriminants and Booleans and joined beyond
a bound; loops are solved by a fixpoint whose candidate invariant is obtained by
generalising the effect of the first iterations in a counter and is accepted
only if it is inductive (see loops.py).
"""
import os, sys, time
from lin import Lin, ATOMS, new_atom, la, lc, entails, ZERO, ONE, sym
from terms import (T, REC, NeedSplit, as_term, tc, mk, mk_not, mk_shl, mk_shr, mk_trunc, mk_sext, unk, const_bits,
                   is_c, ones, fits, subst_any, bit)
from state import State, Region, HASH, HID, dig, arr, fresh_id, seg_read, seg_write, ORG
from prog import Prog, norm_path
import loops
import models

CAP = int(os.environ.get("APV_CAP", "64"))


Budget = loops.Budget


class Unsupported(Exception):
    pass


CONSTS = {}
DM = {}
def disjoint(a, b, w):
    """the two words have no bit in common (one is shifted past the other)"""
    for x, y in ((a, b), (b, a)):
        if x.is_const() or y.is_const():
            continue
        tx, ty = as_term(x, w), as_term(y, w)
        if tx.op == "shl" and tx.a[1].is_const():
            k = const_bits(ty)
            if isinstance(k, int) and k <= tx.a[1].c:
                return True
    return False


WORD = ("dig", "and", "or", "xor", "not", "shl", "shr", "ashr", "trunc", "sext", "unk", "arr", "wadd", "wsub", "wmul", "udiv", "urem", "ite", "c", "top", "cat")


def top(why=""):
    return ("TOP", (fresh_id(), why))


class Panic:
    __slots__ = ("st", "what", "where", "stack")

    def __init__(self, st, what, where, stack):
        self.st = st
        self.what = what
        self.where = where
        self.stack = stack


class Interp:
    def __init__(self, prog, budget=400000, deadline=None):
        self.p = prog
        self.types = prog.types
        self.steps = 0
        self.budget = budget
        self.deadline = deadline
        self.panics = []
        self.stack = []
        self.fids = {}
        self.frozen = None       # roots of operands given by shared reference
        self.havoc_keys = None   # predicate: havoc this callee
        self.post_hook = None    # called on return of each inlined function
        self.api = None          # effect mode: callee -> handler
        self.visited = set()     # keys of functions analysed
        self.unmodelled = {}
        self.calls = 0
        self.cost = {}           # callee -> steps spent in it and below it
        self.unroll = False      # analyse loops iteration by iteration (bounded instances)

    # ------------------------------------------------------------ helpers
    def fid(self, parent, bb, key):
        k = (parent, bb, key)
        r = self.fids.get(k)
        if r is None:
            r = len(self.fids) + 1
            self.fids[k] = r
        return r

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("steps")
        if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
            raise Budget("time")

    def panic(self, st, what, where=None):
        if st.feasible():
            self.panics.append(Panic(st, what, where, tuple(self.stack)))

    def fork(self, st, l):
        """(state with l>=0 or None, state with l<0 or None)"""
        if not l.t:
            return (st, None) if l.c >= 0 else (None, st)
        a = st.assume_lin(l)
        b = st.assume_lin(-l - 1)
        return (a if a.feasible() else None, b if b.feasible() else None)

    # ------------------------------------------------------------ types of places and operands
    def place_ty(self, fn, place):
        t = fn.locals[place[0]]
        for p in place[1]:
            if p == "*":
                t = self.types[t]["to"] if "to" in self.types[t] else (self.types[t].get("args") or [t])[0]
            elif p[0] == "f":
                t = p[2]
            elif p[0] in ("i", "c"):
                t = self.types[t].get("of", t)
        return t

    def op_ty(self, fn, o):
        return o["ty"] if o["o"] == "const" else self.place_ty(fn, o["p"])

    # ------------------------------------------------------------ constants
    def const_val(self, c, ty=None):
        ty = c.get("ty", ty)
        t = self.types[ty]
        k = t["k"]
        if "val" in c and isinstance(c["val"], dict):
            return self.const_val(c["val"], ty)
        if "ptr_to" in c:
            v = c["ptr_to"]
            if "slice" in v:
                return self.const_slice(v["slice"])
            return self.const_ref(self.const_val(v))
        if "slice" in c:
            return self.const_slice(c["slice"])
        if "str" in c:
            return ("STR", c["str"])
        if "bits" in c:
            b = int(c["bits"])
            return self.from_bits(b, ty)
        if "elems" in c:
            return ("A", tuple(self.const_val(x) for x in c["elems"]))
        if "fields" in c:
            return ("S", c.get("variant", 0) or 0, tuple(self.const_val(x) for x in c["fields"]))
        if k in ("fndef",):
            return ("FN", ty)
        if k == "closure":
            return ("CLO", ty, ())
        if c.get("zst") or k == "tuple" and not t.get("of"):
            if k == "array":
                return ("A", ())
            return ("S", 0, ())
        if k == "ref" and self.types[t["to"]]["k"] == "array" and self.types[t["to"]].get("len") in (0, "0"):
            return self.const_ref(("A", ()))
        return top("const")

    def const_ref(self, v):
        k = ("k", v)
        CONSTS[k] = v
        return ("R", k, ())

    def const_slice(self, elems):
        v = ("A", tuple(self.const_val(x) for x in elems))
        k = ("k", v)
        CONSTS[k] = v
        return ("SL", k, (), ZERO, lc(len(elems)))

    def from_bits(self, b, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "bool":
            return bool(b)
        if k in ("int", "uint", "char"):
            return lc(b)
        if k == "adt":
            vs = t.get("variants")
            if t.get("akind") == "enum" and vs:
                for i, v in enumerate(vs):
                    if v["discr"] == b and not v["fields"]:
                        return ("S", i, ())
                return top("enumconst")
            if vs and len(vs[0]["fields"]) == 1:
                return ("S", 0, (self.from_bits(b, vs[0]["fields"][0][1]),))
            if t["path"].endswith("num::NonZero"):
                return ("S", 0, (lc(b),))
        if k == "tuple" and not t.get("of"):
            return ("S", 0, ())
        return top("bits")

    # ------------------------------------------------------------ memory
    def base(self, st, root):
        if root[0] == "v":
            return st.env.get((root[1], root[2]), ("UNDEF",))
        if root[0] == "k":
            return CONSTS[root]
        raise Unsupported("base %s" % (root,))

    def load(self, st, root, proj, ty=None):
        if root[0] == "h":
            r = st.heap.get(root[1])
            if r is None:
                return top("noregion")
            if not proj or proj[0][0] != "i":
                return top("region")
            if r.status != "live":
                self.event(st, "use-after-free")
            i = proj[0][1]
            if r.elem == "?":
                v = top("elem")
            else:
                u = seg_read(st, r.segs, i)
                if u is None:
                    v = top("emptyregion")
                else:
                    v = u.lin()
                    if r.elem == "D":
                        v = ("S", 0, (v,))
            proj = proj[1:]
        elif root[0] == "top":
            v = ("TOP", root[1])
        else:
            v = self.base(st, root)
        for p in proj:
            v = self.sub(st, v, p)
        return v

    def sub(self, st, v, p):
        if not isinstance(v, tuple):
            return v if p[0] == "cell" else top("scalarproj")
        tag = v[0]
        if p[0] == "cell":
            return v
        if p[0] == "f":
            if tag == "S":
                return v[2][p[1]] if p[1] < len(v[2]) else top("nofield")
            if tag == "CLO":
                return v[2][p[1]]
            if tag == "U":
                if v[1] == p[1]:
                    return v[2]
                self.event(st, "union field read other than the one written")
                return top("pun")
            if tag == "TOP":
                return ("TOP", (v[1], "f", p[1]))
            if tag == "BOX" and p[1] == 0:
                return v
            return top("field")
        if p[0] == "d":
            if tag == "TOP":
                return ("TOP", (v[1], "d", p[1]))
            return v
        if p[0] == "i":
            if tag == "A":
                if p[1].is_const():
                    if 0 <= p[1].c < len(v[1]):
                        return v[1][p[1].c]
                    return top("oob")
                if v[1] and all(x == v[1][0] for x in v[1]):
                    return v[1][0]
                if len(v[1]) <= 8 and v[1]:
                    for n in range(len(v[1]) - 1):
                        if st.decide_eq(p[1], lc(n)):
                            return v[1][n]
                    return v[1][-1]
                return top("symindex")
            if tag == "TOP":
                return ("TOP", (v[1], "i", p[1]))
            return top("index")
        return top("proj")

    def event(self, st, what):
        st.ev = st.ev | {(what, self.stack[-1] if self.stack else "?")}

    def store(self, st, root, proj, val, ty=None):
        if self.frozen and root[1:] in self.frozen:
            self.event(st, "write-shared")
        if root[0] == "h":
            rid = root[1]
            r = st.heap.get(rid)
            if r is None:
                return
            if r.status != "live":
                self.event(st, "use-after-free")
            if not proj or proj[0][0] != "i":
                return
            if r.elem == "?":
                return
            i = proj[0][1]
            rest = proj[1:]
            v = val
            if rest:
                old = self.load(st, root, proj[:1])
                v = self.upd(st, old, rest, val, None)
            if r.elem == "D":
                v = v[2][0] if isinstance(v, tuple) and v[0] == "S" else v
            t = as_term(v, r.w) if isinstance(v, Lin) else unk(r.w, "store")
            st.heap[rid] = r.with_(segs=seg_write(st, r.segs, i, t))
            return
        if root[0] == "v":
            k = (root[1], root[2])
            if not proj:
                st.env[k] = val
                return
            st.env[k] = self.upd(st, st.env.get(k, ("UNDEF",)), proj, val, ty)
            return
        if root[0] == "top":
            st.taint = st.taint | {"store through an unknown pointer"}
            return
        # constants are immutable

    def upd(self, st, v, proj, val, ty):
        if not proj:
            return val
        p = proj[0]
        if p[0] == "cell":
            return self.upd(st, v, proj[1:], val, ty)
        tag = v[0] if isinstance(v, tuple) else None
        if p[0] == "d":
            if tag == "S" and v[1] != p[1]:
                v = ("S", p[1], v[2])
            elif tag != "S":
                n = self.nfields(ty, p[1])
                idn = v[1] if tag == "TOP" else fresh_id()
                v = ("S", p[1], tuple(("TOP", ((idn, "d", p[1]), "f", i)) for i in range(n)))
            return self.upd(st, v, proj[1:], val, ty)
        if p[0] == "f":
            if tag == "U":
                if v[1] == p[1]:
                    return ("U", p[1], self.upd(st, v[2], proj[1:], val, None))
                return ("U", p[1], self.upd(st, ("UNDEF",), proj[1:], val, None))
            if tag in ("UNDEF", "TOP", None):
                t = self.types[ty] if ty is not None else None
                if t is not None and t["k"] == "adt" and t.get("akind") == "union":
                    return ("U", p[1], self.upd(st, ("UNDEF",), proj[1:], val, None))
                n = self.nfields(ty, 0)
                idn = v[1] if tag == "TOP" else fresh_id()
                v = ("S", 0, tuple(("TOP", (idn, "f", i)) for i in range(max(n, p[1] + 1))))
                tag = "S"
            if tag in ("S", "CLO"):
                f = list(v[2])
                while len(f) <= p[1]:
                    f.append(("UNDEF",))
                f[p[1]] = self.upd(st, f[p[1]], proj[1:], val, self.field_ty(ty, v[1] if tag == "S" else 0, p[1]))
                return (tag, v[1], tuple(f))
            return top("updfield")
        if p[0] == "i":
            if tag == "A":
                i = p[1]
                if not i.is_const():
                    for n in range(len(v[1])):
                        if st.decide_eq(i, lc(n)):
                            i = lc(n)
                            break
                if i.is_const() and 0 <= i.c < len(v[1]):
                    a = list(v[1])
                    a[i.c] = self.upd(st, a[i.c], proj[1:], val, None)
                    return ("A", tuple(a))
            return top("updindex")
        return top("upd")

    def nfields(self, ty, variant):
        if ty is None:
            return 0
        t = self.types[ty]
        if t["k"] == "tuple":
            return len(t["of"])
        vs = t.get("variants")
        if vs and variant < len(vs):
            return len(vs[variant]["fields"])
        return 0

    def field_ty(self, ty, variant, i):
        if ty is None:
            return None
        t = self.types[ty]
        if t["k"] == "tuple":
            return t["of"][i] if i < len(t["of"]) else None
        vs = t.get("variants")
        if vs and variant < len(vs) and i < len(vs[variant]["fields"]):
            return vs[variant]["fields"][i][1]
        return None

    def elem(self, root, proj, i):
        if proj and proj[-1] == ("cell",):
            return ("R", root, proj[:-1])
        return ("R", root, proj + (("i", i),))

    def place(self, st, fn, fid, pl):
        """resolve to (root, proj) or ('slice', SLvalue)"""
        root = ("v", fid, pl[0])
        proj = ()
        sl = None
        for p in pl[1]:
            if p == "*":
                v = self.load(st, root, proj) if sl is None else top("sl*")
                v = self.ptr_view(st, v)
                if v[0] == "R":
                    root, proj = v[1], v[2]
                elif v[0] == "SL":
                    sl = v
                else:
                    root, proj = ("top", v[1] if v[0] == "TOP" else fresh_id()), ()
            elif p[0] == "f":
                proj = proj + (("f", p[1]),)
            elif p[0] == "d":
                proj = proj + (("d", p[1]),)
            elif p[0] == "i":
                i = st.env.get((fid, p[1]))
                if not isinstance(i, Lin):
                    i = unk(64, "idx").lin()
                if sl is not None:
                    e = self.elem(sl[1], sl[2], sl[3] + i)
                    root, proj, sl = e[1], e[2], None
                else:
                    proj = proj + (("i", i),)
            elif p[0] == "c":
                off, mn, fe = p[1], p[2], p[3]
                if sl is not None:
                    i = sl[4] - off if fe else lc(off)
                    e = self.elem(sl[1], sl[2], sl[3] + i)
                    root, proj, sl = e[1], e[2], None
                else:
                    v = self.load(st, root, proj)
                    n = len(v[1]) if isinstance(v, tuple) and v[0] == "A" else mn
                    proj = proj + (("i", lc(n - off if fe else off)),)
            elif p[0] == "s":
                if sl is not None:
                    a, b, fe = p[1], p[2], p[3]
                    hi = sl[4] - b if fe else lc(b)
                    sl = ("SL", sl[1], sl[2], sl[3] + a, hi - a)
                else:
                    root, proj = ("top", fresh_id()), ()
            else:
                root, proj = ("top", fresh_id()), ()
        if sl is not None:
            return ("slice", sl)
        return (root, proj)

    def ptr_view(self, st, v):
        if not isinstance(v, tuple):
            return top("deref")
        if v[0] == "BOX":
            r = st.heap.get(v[1])
            return ("SL", ("h", v[1]), (), ZERO, r.len)
        if v[0] == "S" and len(v[2]) == 1:
            return self.ptr_view(st, v[2][0])
        return v

    def typed(self, v, ty):
        """give unknown values of scalar type a scalar form"""
        if isinstance(v, tuple) and v[0] in ("TOP", "UNDEF") and ty is not None:
            idn = v[1] if v[0] == "TOP" else ("undef", fresh_id())
            t = self.types[ty]
            if t["k"] == "bool":
                return ("ub", idn)
            w = self.p.int_w(ty)
            if w:
                return T("top", (idn,), w[0]).lin()
        return v

    def read(self, st, fn, fid, pl, move=False):
        r = self.place(st, fn, fid, pl)
        ty = self.place_ty(fn, pl)
        if r[0] == "slice":
            return top("unsized")
        v = self.typed(self.load(st, r[0], r[1]), ty)
        if move and not pl[1]:
            st.env.pop((fid, pl[0]), None)
        return v

    def operand(self, st, fn, fid, o):
        if o["o"] == "const":
            return self.typed(self.const_val(o), o["ty"])
        return self.read(st, fn, fid, o["p"])

    def consume(self, st, fid, o):
        if o["o"] == "move" and not o["p"][1]:
            st.env.pop((fid, o["p"][0]), None)

    # ------------------------------------------------------------ arithmetic
    def divmod(self, st, l, d):
        if l.is_const():
            return lc(l.c // d), lc(l.c % d)
        q = Lin(l.c // d, tuple((a, k // d) for a, k in l.t if k % d == 0))
        r = l - q.scale(d)
        for n in range(-1, 3):
            rr = r - n * d
            if st.ge(rr) and st.ge(lc(d - 1) - rr):
                return q + n, rr
        key = (r, d)
        v = DM.get(key)
        if v is None:
            lo, hi = r.range()
            v = (sym("q%d" % len(DM), (lo // d) if lo is not None else None, (hi // d) if hi is not None else None),
                 sym("r%d" % len(DM), 0, d - 1))
            DM[key] = v
        e = r - v[0].scale(d) - v[1]
        st.add_lin(e)
        st.add_lin(-e)
        return q + v[0], v[1]

    def linear(self, v):
        """the value is an index-like linear expression (not a machine word term)"""
        a = v.atom()
        if a is None:
            return True
        return a.term is None or a.term.op in ("popcnt", "clz", "ctz", "lin", "len", "top") or (a.term.op == "rec" and REC[a.term.a[0]]["lin"])

    def cmp(self, st, op, a, b, w, signed):
        if op in ("Ne", "Ge", "Gt"):
            n = {"Ne": "Eq", "Ge": "Lt", "Gt": "Le"}[op]
            return self.neg(self.cmp(st, n, a, b, w, signed))
        if op == "Le":
            return self.neg(self.cmp(st, "Lt", b, a, w, signed))
        if a.is_const() and b.is_const():
            x, y = a.c, b.c
            if signed:
                x -= (x >> (w - 1)) << w
                y -= (y >> (w - 1)) << w
            return x == y if op == "Eq" else x < y
        if op == "Eq":
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                t = x.atom()
                t = t.term if t is not None else None
                if t is not None and t.op == "popcnt":
                    try:
                        if fits(st, t.a[0], y):
                            m = mk_shr(tc(ones(t.a[0].w), t.a[0].w), lc(t.a[0].w) - y, t.a[0].w)
                            return ("teq", t.a[0], m)
                    except NeedSplit:
                        pass
                    if y.is_const() and y.c == 0:
                        return ("teq", t.a[0], tc(0, t.a[0].w))
                if t is not None and t.op in ("clz", "ctz") and y.is_const() and y.c == t.a[0].w:
                    return ("teq", t.a[0], tc(0, t.a[0].w))
            if self.linear(a) and self.linear(b):
                return ("eq0", a - b)
            return ("teq", as_term(a, w), as_term(b, w))
        if signed:
            if b.is_const() and b.c == 0:
                return ("bit", as_term(a, w), lc(w - 1))
            ta, tb = as_term(a, w), as_term(b, w)
            sg = []
            for t in (ta, tb):
                c = ("bit", t, lc(w - 1))
                v = st.truth(c)
                if v is None:
                    raise NeedSplit(cond=c)
                sg.append(v)
            if sg[0] != sg[1]:
                return sg[0]
            if ta.op == tb.op == "shl" and ta.a[1] is tb.a[1]:
                k = lc(w) - ta.a[1]
                if fits(st, ta.a[0], k) and fits(st, tb.a[0], k):
                    return ("tlt", ta.a[0], tb.a[0])
            return ("tlt", ta, tb)
        if self.linear(a) and self.linear(b):
            return ("ge", b - a - 1)
        if b.is_const() and b.c == 1:
            return ("teq", as_term(a, w), tc(0, w))
        if a.is_const() and a.c == 0:
            return ("not", ("teq", as_term(b, w), tc(0, w)))
        return ("tlt", as_term(a, w), as_term(b, w))

    def neg(self, c):
        if c is True or c is False:
            return not c
        if c[0] == "not":
            return c[1]
        if c[0] == "ge":
            return ("ge", -c[1] - 1)
        return ("not", c)

    def binop(self, st, op, a, b, ty, bty=None):
        t = self.types[ty]
        if t["k"] == "bool" or isinstance(a, bool) or (isinstance(a, tuple) and not isinstance(b, Lin)):
            if t["k"] != "bool":
                if op in ("Eq", "Ne"):
                    return ("ub", fresh_id())
                return top("ptrop")
            if not (isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple))):
                return ("ub", fresh_id())
            va, vb = st.truth(a), st.truth(b)
            a = a if va is None else va
            b = b if vb is None else vb
            if op in ("Eq", "BitXor", "Ne"):
                r = self.bxor(a, b)
                return self.neg(r) if op == "Eq" else r
            if op == "BitAnd":
                return False if a is False or b is False else b if a is True else a if b is True else ("and", a, b)
            if op == "BitOr":
                return True if a is True or b is True else b if a is False else a if b is False else ("or", a, b)
            if op == "Lt":
                return self.binop(st, "BitAnd", self.neg(a), b, ty)
            if op == "Gt":
                return self.binop(st, "BitAnd", a, self.neg(b), ty)
            if op == "Le":
                return self.binop(st, "BitOr", self.neg(a), b, ty)
            if op == "Ge":
                return self.binop(st, "BitOr", a, self.neg(b), ty)
            return ("ub", fresh_id())
        iw = self.p.int_w(ty)
        if not iw or not isinstance(a, Lin) or not isinstance(b, Lin):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return ("ub", fresh_id())
            if op == "Offset" and isinstance(a, tuple) and a[0] == "R" and isinstance(b, Lin):
                return models.ptr_add(self, a, b)
            if iw:
                r = unk(iw[0], "binop").lin()
                return ("S", 0, (r, ("ub", fresh_id()))) if "WithOverflow" in op else r
            return top("binop")
        w, sg = iw
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, op, a, b, w, sg)
        if op == "Cmp":
            c = self.cmp(st, "Lt", a, b, w, sg)
            v = st.truth(c)
            if v is None:
                raise NeedSplit(cond=c)
            if v:
                return ("S", 0, ())
            c = self.cmp(st, "Eq", a, b, w, sg)
            v = st.truth(c)
            if v is None:
                raise NeedSplit(cond=c)
            return ("S", 1 if v else 2, ())
        wo = op.endswith("WithOverflow")
        o = op[:-12] if wo else op
        if o in ("Add", "Sub", "Mul") or o in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            o = o[:3]
            if sg:
                if a.is_const() and b.is_const():
                    x = a.c - ((a.c >> (w - 1)) << w)
                    y = b.c - ((b.c >> (w - 1)) << w)
                    r = x + y if o == "Add" else x - y if o == "Sub" else x * y
                    ov = not (-(1 << (w - 1)) <= r < (1 << (w - 1)))
                    r = lc(r & ones(w))
                else:
                    r, ov = self.signed_op(st, o, a, b, w)
                return ("S", 0, (r, ov)) if wo else r
            if o == "Add" and disjoint(a, b, w):
                r = mk("or", as_term(a, w), as_term(b, w), w).lin()
                return ("S", 0, (r, False)) if wo else r
            if o == "Mul":
                if a.is_const():
                    r = b.scale(a.c)
                elif b.is_const():
                    r = a.scale(b.c)
                else:
                    r = None
                if r is None:
                    r = T("wmul", (as_term(a, w), as_term(b, w)), w).lin()
                    la_, lb_ = const_bits(as_term(a, w)), const_bits(as_term(b, w))
                    ov = False if la_ + lb_ <= w else ("ub", fresh_id())
                    return ("S", 0, (r, ov)) if wo else r
            else:
                r = a + b if o == "Add" else a - b
            if not wo:
                return r
            ov = ("ge", r - (1 << w)) if o != "Sub" else ("ge", -r - 1)
            v = st.truth(ov)
            return ("S", 0, (r, ov if v is None else v))
        if o in ("Div", "Rem"):
            if b.is_const() and b.c > 0 and not sg:
                if a.is_const() or self.linear(a):
                    q, r = self.divmod(st, a, b.c)
                    return q if o == "Div" else r
                if b.c & (b.c - 1) == 0:
                    t_ = as_term(a, w)
                    return (mk_shr(t_, lc(b.c.bit_length() - 1), w) if o == "Div" else mk("and", t_, tc(b.c - 1, w), w)).lin()
            if sg:
                return unk(w, "sdiv").lin()
            return T("udiv" if o == "Div" else "urem", (as_term(a, w), as_term(b, w)), w).lin()
        if o in ("Shl", "ShlUnchecked"):
            return mk_shl(as_term(a, w), b, w).lin()
        if o in ("Shr", "ShrUnchecked"):
            if sg:
                x = as_term(a, w)
                if b.is_const() and b.c == 0:
                    return a
                if x.op == "c" and b.is_const():
                    v = x.a[0] - ((x.a[0] >> (w - 1)) << w)
                    return lc((v >> b.c) & ones(w))
                return T("ashr", (x, b), w).lin()
            if b.is_const() and not a.is_const() and self.linear(a) and b.c < w:
                return self.divmod(st, a, 1 << b.c)[0]
            return mk_shr(as_term(a, w), b, w).lin()
        if o in ("BitAnd", "BitOr", "BitXor"):
            if o == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y.is_const() and y.c > 0 and (y.c & (y.c + 1)) == 0 and not x.is_const() and self.linear(x):
                        return self.divmod(st, x, y.c + 1)[1]
            return mk({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[o], as_term(a, w), as_term(b, w), w).lin()
        return unk(w, op).lin()

    def signed_op(self, st, o, a, b, w):
        """two's complement addition / subtraction that provably stays in range"""
        if o == "Add":
            if a.is_const() and a.c == 0:
                return b, False
            if disjoint(a, b, w):
                return mk("or", as_term(a, w), as_term(b, w), w).lin(), False
        if o in ("Add", "Sub"):
            if b.is_const() and b.c == 0:
                return a, False
            ta, tb = as_term(a, w), as_term(b, w)
            sa = bit(st, ta, lc(w - 1))
            sb = bit(st, tb, lc(w - 1))
            if o == "Sub" and sa is False and sb is False:
                return T("wsub", (ta, tb), w).lin(), False
            if o == "Add" and sa is False and sb is False and const_bits(ta) < w - 1 and const_bits(tb) < w - 1:
                return T("wadd", (ta, tb), w).lin(), False
        return unk(w, "signed").lin(), ("ub", fresh_id())

    def bxor(self, a, b):
        if a is False:
            return b
        if b is False:
            return a
        if a is True:
            return self.neg(b)
        if b is True:
            return self.neg(a)
        if a == b:
            return False
        return ("xor", a, b)

    def cast(self, st, kind, v, fty, tty):
        if kind == "IntToInt":
            fw = self.p.int_w(fty)
            tw = self.p.int_w(tty)
            if isinstance(v, Lin) and fw and tw:
                return self.int_cast(st, v, fw, tw)
            if self.types[fty]["k"] == "bool":
                if v is True:
                    return ONE
                if v is False:
                    return ZERO
                return T("b2i", (v,), tw[0]).lin()
            if isinstance(v, tuple) and v[0] == "S" and tw:   # enum as int
                t = self.types[fty]
                return lc(t["variants"][v[1]]["discr"] & ones(tw[0]))
            return unk(tw[0], "cast").lin() if tw else top("cast")
        if kind.startswith("PointerCoercion(Unsize"):
            ft, tt = self.types[fty], self.types[tty]
            if isinstance(v, tuple) and v[0] == "R" and "to" in ft and self.types[ft["to"]]["k"] == "array":
                n = int(self.types[ft["to"]]["len"]) if str(self.types[ft["to"]].get("len")).isdigit() else None
                if n is not None:
                    return ("SL", v[1], v[2], ZERO, lc(n))
            return v
        if kind.startswith("PointerCoercion"):
            return v
        if kind == "Transmute":
            fw, tw = self.p.int_w(fty), self.p.int_w(tty)
            if isinstance(v, Lin) and tw:
                return v
            if isinstance(v, tuple) and v[0] == "A" and self.types[tty]["k"] == "array" and self.types[fty]["k"] == "array":
                a, b = self.p.int_w(self.types[fty]["of"]), self.p.int_w(self.types[tty]["of"])
                if a and b and a[0] == b[0]:
                    return v
            if isinstance(v, Lin) and self.types[tty]["k"] == "adt":
                return ("S", 0, (v,))
            if tw and isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1 and isinstance(v[2][0], Lin):
                return v[2][0]
            if isinstance(v, tuple) and v[0] in ("R", "SL"):
                if self.types[tty]["k"] == "adt":
                    return ("S", 0, (v,))
                return v
            if isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1 and self.types[tty]["k"] in ("ptr", "ref"):
                return v[2][0]
            return top("transmute")
        if kind == "BoxDerefTransmute" and isinstance(v, tuple) and v[0] == "BOX":
            return self.ptr_view(st, v)
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            if isinstance(v, tuple) and v[0] == "SL":            # wide to thin
                to = self.types[tty].get("to")
                if to is not None and self.types[to]["k"] not in ("slice", "str"):
                    return self.elem(v[1], v[2], v[3])
            return v
        return top("cast " + kind)

    def int_cast(self, st, v, fw, tw):
        (a, s1), (b, s2) = fw, tw
        if v.is_const():
            x = v.c
            if s1 and b > a and x >> (a - 1) & 1:
                x |= ones(b) ^ ones(a)
            return lc(x & ones(b))
        if b < a:
            if st.ge(lc(ones(b)) - v):
                return v
            if self.linear(v):
                return self.divmod(st, v, 1 << b)[1]
            return mk_trunc(as_term(v, a), b).lin()
        if b > a and s1:
            return mk_sext(as_term(v, a), a, b).lin()
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fn, fid, r, dty):
        k = r["r"]
        if k == "use":
            return self.operand(st, fn, fid, r["a"])
        if k == "ref":
            if r["p"][1] and r["p"][1][-1] == "*":
                v = self.load(st, *self.place(st, fn, fid, (r["p"][0], r["p"][1][:-1]))) if len(r["p"][1]) == 1 else None
                if isinstance(v, tuple) and v and v[0] == "STR":
                    return v
            pl = self.place(st, fn, fid, r["p"])
            if pl[0] == "slice":
                return pl[1]
            root, proj = pl
            if root[0] == "top":
                return ("R", root, proj)
            return ("R", root, proj)
        if k == "bin":
            a = self.operand(st, fn, fid, r["a"])
            b = self.operand(st, fn, fid, r["b"])
            return self.binop(st, r["op"], a, b, self.op_ty(fn, r["a"]))
        if k == "un":
            a = self.operand(st, fn, fid, r["a"])
            op = r["op"]
            if op == "Not":
                t = self.op_ty(fn, r["a"])
                if self.types[t]["k"] == "bool":
                    return self.neg(a) if isinstance(a, (bool, tuple)) else ("ub", fresh_id())
                w = self.p.int_w(t)
                if isinstance(a, Lin):
                    return mk_not(as_term(a, w[0]), w[0]).lin()
                return top("not")
            if op == "PtrMetadata":
                a = self.ptr_view(st, a)
                if a[0] == "SL":
                    return a[4]
                return T("top", (("len", a[1] if a[0] == "TOP" else fresh_id()),), 64).lin()
            if op == "Neg":
                w = self.p.int_w(self.op_ty(fn, r["a"]))
                if isinstance(a, Lin) and a.is_const():
                    return lc(-a.c & ones(w[0]))
                return T("wsub", (tc(0, w[0]), as_term(a, w[0])), w[0]).lin() if isinstance(a, Lin) else top("neg")
            return top("un " + op)
        if k == "discr":
            pl = self.place(st, fn, fid, r["p"])
            v = self.load(st, pl[0], pl[1]) if pl[0] != "slice" else top("")
            ty = self.place_ty(fn, r["p"])
            return self.discr(v, ty, dty)
        if k == "agg":
            f = tuple(self.operand(st, fn, fid, o) for o in r["f"])
            kk = r["k"]
            if kk == "adt":
                t = self.types[r["ty"]]
                if t.get("akind") == "union":
                    return ("U", r["uf"], f[0])
                if t.get("akind") == "struct" and norm_path(t["path"]) == "ptr::NonNull":
                    return ("S", 0, f)
                return ("S", r["v"] or 0, f)
            if kk == "tuple":
                return ("S", 0, f)
            if kk == "closure":
                return ("CLO", r["ty"], f)
            if kk == "array":
                return ("A", f)
            if kk == "rawptr":
                p, m = f
                if isinstance(p, tuple) and p[0] == "R" and isinstance(m, Lin):
                    return models.slice_from_ptr(self, st, p, m)
                return p
            return top("agg " + kk)
        if k == "cast":
            v = self.operand(st, fn, fid, r["a"])
            return self.cast(st, r["k"], v, self.op_ty(fn, r["a"]), r["ty"])
        if k == "repeat":
            v = self.operand(st, fn, fid, r["a"])
            n = r.get("n")
            try:
                n = int(n)
            except (TypeError, ValueError):
                return top("repeat")
            if n <= 256:
                return ("A", (v,) * n)
            return top("repeat")
        return top("rv " + k)

    def discr(self, v, ty, dty):
        w = self.p.int_w(dty) or (64, False)
        if isinstance(v, tuple) and v[0] == "S":
            t = self.types[ty]
            vs = t.get("variants")
            if vs:
                return lc(vs[v[1]]["discr"] & ones(w[0]))
            return lc(v[1])
        idn = v[1] if isinstance(v, tuple) and v[0] == "TOP" else fresh_id()
        return T("top", (("disc", idn),), w[0]).lin()

    # ------------------------------------------------------------ execution
    def stmt(self, st, fn, fid, s):
        k = s[0]
        if k == "=":
            dty = self.place_ty(fn, s[1])
            v = self.rvalue(st, fn, fid, s[2], dty)
            pl = self.place(st, fn, fid, s[1])
            if pl[0] != "slice":
                self.store(st, pl[0], pl[1], v, fn.locals[s[1][0]])
            elif isinstance(v, tuple) and v[0] == "A":
                for i, x in enumerate(v[1]):
                    e = self.elem(pl[1][1], pl[1][2], pl[1][3] + i)
                    self.store(st, e[1], e[2], x)
            r = s[2]
            if r["r"] == "use":
                o = r["a"]
                if o["o"] == "move" and not o["p"][1] and o["p"][0] != s[1][0]:
                    st.env.pop((fid, o["p"][0]), None)
            elif r["r"] == "agg":
                for o in r["f"]:
                    self.consume(st, fid, o)
        elif k == "dead":
            st.env.pop((fid, s[1]), None)
        elif k == "sd":
            pl = self.place(st, fn, fid, s[1])
            v = self.load(st, pl[0], pl[1])
            n = s[2]
            if isinstance(v, tuple) and v[0] == "S":
                self.store(st, pl[0], pl[1], ("S", n, v[2]))
        elif k == "assume":
            c = self.operand(st, fn, fid, s[1])
            r = st.assume(c) if isinstance(c, (bool, tuple)) else [st]
            if len(r) == 1 and r[0] is not st:
                st.cons, st.facts, st.org, st._feas = r[0].cons, r[0].facts, r[0].org, r[0]._feas
        elif k == "cno":
            models.copy_nonoverlapping(self, st, fn, fid, s)

    def run_block(self, fn, fid, bb, st):
        """execute one block; returns list of (target, state); target 'ret' for return"""
        self.tick()
        b = fn.blocks[bb]
        out = []
        work = [(st, 0)]
        stmts = b["s"]
        n = len(stmts)
        splits = 0
        while work:
            s, i = work.pop()
            try:
                while i < n:
                    self.stmt(s, fn, fid, stmts[i])
                    i += 1
                out += self.term(s, fn, fid, bb, b["t"])
            except NeedSplit as sp:
                splits += 1
                if splits > 200:
                    raise Budget("splits")
                for x in s.split(sp):
                    work.append((x if x is not s else x.copy(), i))
        return out

    def term(self, st, fn, fid, bb, t):
        k = t["t"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            a = self.operand(st, fn, fid, t["a"])
            return self.switch(st, fn, a, t)
        if k == "assert":
            c = self.operand(st, fn, fid, t["a"])
            exp = t["exp"]
            if not isinstance(c, (bool, tuple)):
                c = ("ub", fresh_id())
            out = []
            for s in st.assume(c, not exp):
                self.panic(s, "assert: " + str(t.get("msg", ""))[:60], t.get("sp"))
            for s in st.assume(c, exp):
                out.append((t["to"], s if s is not st else st))
            return out
        if k == "call":
            return self.call_term(st, fn, fid, bb, t)
        if k == "drop":
            pl = self.place(st, fn, fid, t["p"])
            ty = t["ty"]
            out = []
            if pl[0] == "slice" or not self.p.needs_drop(ty):
                return [(t["to"], st)]
            for s in self.drop_at(st.copy(), pl[0], pl[1], ty, fid, bb):
                out.append((t["to"], s))
            return out
        if k == "unreach":
            return []
        if k == "py":
            return t["fn"](self, st.copy(), fid)
        if k in ("resume", "abort"):
            return []
        if t.get("to") is not None:
            return [(t["to"], st)]
        return []

    def switch(self, st, fn, a, t):
        out = []
        if isinstance(a, (bool, tuple)) and not isinstance(a, Lin):
            # Boolean
            arms = {int(v): b for v, b in t["arms"]}
            for val in (False, True):
                tgt = arms.get(int(val), t["else"])
                if tgt is None:
                    continue
                for s in st.assume(a, val):
                    out.append((tgt, s if s is not st else st.copy()))
            return out
        if a.is_const():
            for v, b in t["arms"]:
                if int(v) == a.c:
                    return [(b, st)]
            return [(t["else"], st)]
        rest = [st]
        w = self.op_ty(fn, t["a"])
        w = self.p.int_w(w) or (64, False)
        for v, b in t["arms"]:
            nr = []
            for s in rest:
                c = self.cmp(s, "Eq", a, lc(int(v)), w[0], False)
                for x in s.assume(c, True):
                    out.append((b, x if x is not s else s.copy()))
                for x in s.assume(c, False):
                    nr.append(x if x is not s else s.copy())
            rest = nr
        if t["else"] is not None and fn.blocks[t["else"]]["t"]["t"] != "unreach":
            for s in rest:
                out.append((t["else"], s))
        return out

    # ------------------------------------------------------------ functions
    def run_fn(self, st, fn, args, fid):
        """interpret fn's body; returns list of (state, value)"""
        self.visited.add(fn.key)
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        rets = []
        w = self.p.fn_wto(fn)
        inbox = {0: [st]}
        outs = loops.run_elements(self, fn, fid, w, inbox)
        for tgt, s in outs:
            if tgt == "ret":
                rets.append(s)
        res = []
        for s in rets:
            v = s.env.get((fid, 0), ("S", 0, ()))
            v = self.typed(v, fn.locals[0])
            for k in [k for k in s.env if k[0] == fid]:
                del s.env[k]
            res.append((s, v))
        if len(res) > 1:
            res = loops.merge_results(self, res)
        return res

    def inline(self, st, key, args, fid, bb):
        fn = self.p.fns[key]
        if self.stack.count(key) >= 4 or len(self.stack) > 60:
            return self.havoc_call(st, args, fn.locals[0], "recursion")
        if fn.spread is not None and len(args) != fn.argc:
            pass
        nf = self.fid(fid, bb, key)
        self.stack.append(key)
        self.calls += 1
        s0 = self.steps
        try:
            r = self.run_fn(st, fn, args, nf)
        finally:
            self.stack.pop()
            if key not in self.stack:
                self.cost[key] = self.cost.get(key, 0) + self.steps - s0
        if self.post_hook is not None:
            r = self.post_hook(self, fn, args, r)
        return r

    def call_value(self, st, f, args, fid, bb):
        """call a closure / fn item value with the given argument list"""
        v = f
        place = None
        n = 0
        while isinstance(v, tuple) and v[0] == "R" and n < 4:
            place = v
            v = self.load(st, v[1], v[2])
            n += 1
        if isinstance(v, tuple) and v[0] == "FN":
            return self.call_def(st, v[1], args, fid, bb, None)
        if isinstance(v, tuple) and v[0] == "CLO":
            t = self.types[v[1]]
            key = t["body"]
            if key not in self.p.fns:
                return self.havoc_call(st, args, None, "closure body")
            fn = self.p.fns[key]
            selfty = self.types[fn.locals[1]]
            if selfty["k"] == "ref":
                if place is None:
                    slot = (fid, ("clo", bb, len(self.stack)))
                    st.env[slot] = v
                    place = ("R", ("v", slot[0], slot[1]), ())
                    r = self.inline(st, key, [place] + list(args), fid, bb)
                    for s, _ in r:
                        s.env.pop(slot, None)
                    return r
                return self.inline(st, key, [place] + list(args), fid, bb)
            return self.inline(st, key, [v] + list(args), fid, bb)
        return self.havoc_call(st, args, None, "unknown function value")

    def call_def(self, st, fty, args, fid, bb, dty, fn=None, t=None):
        c = self.types[fty].get("callee")
        if c is None:
            return self.havoc_call(st, args, dty, "no callee")
        path = norm_path(c.get("path") or c.get("def") or "?")
        if c.get("ctor"):
            ct = c["ctor"]
            v = ct if isinstance(ct, int) and not isinstance(ct, bool) else (c.get("variant") or 0)
            return [(st, ("S", v, tuple(args)))]
        if self.api is not None:
            r = self.api(self, st, c, args, fid, bb, dty)
            if r is not None:
                return r
        m = models.lookup(path, c)
        if m is not None:
            r = m(self, st, args, models.Info(c, path, fid, bb, dty, self))
            if r is not NotImplemented:
                return r
        key = c.get("key")
        if key in self.p.fns and not c.get("shim"):
            callee = self.p.fns[key]
            if self.havoc_keys is not None and self.havoc_keys(self, callee, args):
                return self.havoc_call(st, args, callee.locals[0], None, name=callee.path)
            a = list(args)
            if c.get("name") in ("call", "call_mut", "call_once") and "ops::" in norm_path(c.get("trait") or "") and len(a) == 2:
                tup = a[1]
                a = [a[0]] + (list(tup[2]) if isinstance(tup, tuple) and tup[0] == "S" else [])
                if self.types[callee.locals[1]]["k"] != "ref" and isinstance(a[0], tuple) and a[0][0] == "R":
                    a[0] = self.load(st, a[0][1], a[0][2])
            return self.inline(st, key, a, fid, bb)
        name = c.get("name")
        if name in ("call", "call_mut", "call_once") and "Fn" in (c.get("trait") or ""):
            tup = args[1]
            al = list(tup[2]) if isinstance(tup, tuple) and tup[0] == "S" else []
            return self.call_value(st, args[0], al, fid, bb)
        if c.get("shim") == "clone" or (name == "clone" and c.get("trait")):
            v = args[0]
            if isinstance(v, tuple) and v[0] == "R":
                return [(st, self.load(st, v[1], v[2]))]
        return self.havoc_call(st, args, dty, path)

    def call_term(self, st, fn, fid, bb, t):
        st = st.copy()
        f = t["f"]
        args = [self.operand(st, fn, fid, o) for o in t["args"]]
        for o in t["args"]:
            self.consume(st, fid, o)
        dty = self.place_ty(fn, t["dest"])
        if f["o"] == "const":
            res = self.call_def(st, f["ty"], args, fid, bb, dty, fn, t)
        else:
            res = self.call_value(st, self.operand(st, fn, fid, f), args, fid, bb)
        out = []
        if t.get("to") is None:
            return out
        for s, v in res:
            if not s.feasible():
                continue
            v = self.typed(v, dty)
            try:
                pl = self.place(s, fn, fid, t["dest"])
                if pl[0] != "slice":
                    self.store(s, pl[0], pl[1], v, fn.locals[t["dest"][0]])
                out.append((t["to"], s))
            except NeedSplit as sp:
                for x in s.split(sp):
                    pl = self.place(x, fn, fid, t["dest"])
                    self.store(x, pl[0], pl[1], v, fn.locals[t["dest"][0]])
                    out.append((t["to"], x))
        return out

    # ------------------------------------------------------------ havoc
    def havoc_call(self, st, args, dty, why, name=None):
        if why:
            self.unmodelled[why] = self.unmodelled.get(why, 0) + 1
            st.taint = st.taint | {why}
        else:
            st.taint = st.taint | {"~summary " + str(name)}
        for a in args:
            self.havoc_ref(st, a, why or name)
        v = top("call " + str(why or name))
        if dty is not None:
            v = self.typed(v, dty)
        return [(st, v)]

    def havoc_ref(self, st, v, why, depth=0):
        if not isinstance(v, tuple) or depth > 4:
            return
        if not v:
            return
        if v[0] == "SL" and v[1][0] == "h":
            r = st.heap.get(v[1][1])
            if r is not None and r.kind != "ro":
                from state import seg_replace
                u = arr(r.w, why)
                try:
                    st.heap[v[1][1]] = r.with_(segs=seg_replace(st, r.segs, v[3], v[3] + v[4], [(v[3], v[3] + v[4], u)], r.len))
                except NeedSplit:
                    st.heap[v[1][1]] = r.with_(segs=((ZERO, r.len, u),))
        elif v[0] == "SL":
            if v[2] and v[2][-1] == ("cell",):
                old = self.load(st, v[1], v[2][:-1])
                self.store(st, v[1], v[2][:-1], self.havoc_val(old, why))
        elif v[0] == "R":
            if v[1][0] == "v" or v[1][0] == "h":
                try:
                    old = self.load(st, v[1], v[2])
                    self.havoc_ref(st, old, why, depth + 1)
                    self.store(st, v[1], v[2], self.havoc_val(old, why))
                except NeedSplit:
                    pass
        elif v[0] in ("S", "CLO", "A"):
            for x in v[-1]:
                self.havoc_ref(st, x, why, depth + 1)
        elif v[0] == "IT":
            for x in v[2:]:
                self.havoc_ref(st, x, why, depth + 1)

    def havoc_val(self, v, why):
        if isinstance(v, Lin):
            a = v.atom()
            w = a.term.w if a is not None and a.term is not None else 64
            return unk(w, why).lin()
        if isinstance(v, bool) or (isinstance(v, tuple) and v[0] in ("ub", "ge", "eq0", "teq", "tlt", "bit", "not", "and", "or", "xor")):
            return ("ub", fresh_id())
        if isinstance(v, tuple) and v[0] in ("FN", "CLO", "R", "SL", "VEC", "SV", "BOX"):
            return v
        if isinstance(v, tuple) and v[0] == "S" and len(v[2]) == 1 and isinstance(v[2][0], Lin):
            return ("S", v[1], (self.havoc_val(v[2][0], why),))
        return top(why)

    # ------------------------------------------------------------ drops
    def drop_at(self, st, root, proj, ty, fid, bb):
        if not self.p.needs_drop(ty):
            return [st]
        t = self.types[ty]
        v = self.load(st, root, proj)
        d = t.get("drop")
        if not isinstance(v, tuple) or v[0] in ("TOP", "UNDEF"):
            return [st]
        if v[0] in ("VEC", "SV", "BOX"):
            self.free(st, v)
            return [st]
        sts = [st]
        if d and d != "extern" and d in self.p.fns:
            out = []
            for s, _ in self.inline(st, d, [("R", root, proj)], fid, ("drop", bb)):
                out.append(s)
            sts = out
        if t["k"] in ("adt", "tuple", "closure") and v[0] in ("S", "CLO") and t.get("akind") != "union":
            vi = v[1] if v[0] == "S" else 0
            n = len(v[2])
            for i in range(n):
                ft = t["upvars"][i] if t["k"] == "closure" else self.field_ty(ty, vi, i)
                if ft is None or not self.p.needs_drop(ft):
                    continue
                pre = (("d", vi),) if t.get("akind") == "enum" else ()
                nx = []
                for s in sts:
                    nx += self.drop_at(s, root, proj + pre + (("f", i),), ft, fid, (bb, i))
                sts = nx
        return sts

    def free(self, st, v):
        r = st.heap.get(v[1])
        if r is None:
            return
        if r.kind == "inline":
            return
        if r.status != "live":
            self.event(st, "double free")
        st.heap[v[1]] = r.with_(status="freed")
