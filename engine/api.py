"""Contracts of the in-place arithmetic of ApInt, used when the function under
analysis calls one of them (each is analysed itself, without its own contract).

A successful call leaves fresh digits in its operand, named after the operation
and the contents of the operands before the call (an uninterpreted function of
them), with no bits above the width; a failing call is followed exactly."""
from lin import Lin, lc, la, new_atom, ZERO, ONE
from terms import T, NeedSplit, tc
from state import ORG, HASH, dig
import scen, spec

_N = {}


class Name:
    """digits of the result `res` of an operation on operands described by `args`"""
    __slots__ = ("res", "args", "h")

    def __new__(cls, res, args):
        k = (res, args)
        o = _N.get(k)
        if o is None:
            o = object.__new__(cls)
            o.res, o.args, o.h = res, args, hash(k)
            _N[k] = o
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return str(self) < str(o)

    def __gt__(self, o):
        return str(self) > str(o)

    def __repr__(self):
        return "%s(%s)" % (self.res, ",".join(map(str, self.args)))


def desc(st, v):
    """what identifies the contents of a value"""
    s = v.segs
    if len(s) == 1 and s[0][2].op == "dig" and (s[0][2].a[1] is HASH or (v.inl is not None and s[0][2].a[1] is ZERO)):
        return s[0][2].a[0]
    return ("segs",) + tuple(s)


# operation -> (operands, ((slot, result name), ...))
CON = {
    "inc": (1, (("x", "inc"),)), "dec": (1, (("x", "dec"),)), "neg": (1, (("x", "neg"),)),
    "add": (2, (("x", "add"),)), "sub": (2, (("x", "sub"),)), "mul": (2, (("x", "mul"),)),
    "udiv": (2, (("x", "uq"),)), "urem": (2, (("x", "ur"),)), "sdiv": (2, (("x", "sq"),)), "srem": (2, (("x", "sr"),)),
    "udivrem": (2, (("x", "uq"), ("y", "ur"))), "uremdiv": (2, (("x", "ur"), ("y", "uq"))),
    "sdivrem": (2, (("x", "sq"), ("y", "sr"))), "sremdiv": (2, (("x", "sr"), ("y", "sq"))),
}
UNIT = ("S", 0, ())
OKU = ("S", 0, (UNIT,))


def contracts(p, tab):
    """callee key -> operation, for the in-place arithmetic of ApInt"""
    out = {}
    for fn in tab:
        if fn.ty == "ApInt" and fn.trait == "-" and fn.op.name in CON and not fn.name.startswith("into_"):
            out[fn.key] = fn.op.name
    return out


def handler(cons):
    def api(I, st, c, args, fid, bb, dty):
        op = cons.get(c.get("key"))
        if op is None or c["key"] == I.stack[0]:
            return None
        return call(I, st, op, c["key"], args, fid, bb)
    return api


def call(I, st, op, key, args, fid, bb):
    n, slots = CON[op]
    if len(args) != n:
        return None
    vs = []
    for a in args:
        if not (isinstance(a, tuple) and a[0] == "R"):
            return None
        v = I.load(st, a[1], a[2])
        w = scen.view(st, v)
        if not w.ok or (w.rid is not None and st.heap[w.rid].status != "live"):
            return None
        vs.append((a, v, w))
    if n == 2:
        c = ("eq0", vs[0][2].w - vs[1][2].w)
        t = st.truth(c)
        if t is None:
            out = []
            for b in (True, False):
                for s in st.assume(c, b):
                    if s.feasible():
                        r = call(I, s, op, key, args, fid, bb)
                        out += r if r is not None else I.inline(s, key, args, fid, bb)
            return out
        if t is False:
            return I.inline(st, key, args, fid, bb)
        if (vs[0][2].rid is None) != (vs[1][2].rid is None):
            return None
    out = []
    sts = [st.copy()]
    if spec.OPS[op].group == "div":
        d = desc(st, vs[1][2])
        if isinstance(d, tuple):
            return None
        for z in spec.redefine(st, d, tc(0, 64)):
            if z.feasible():
                out += I.inline(z, key, args, fid, bb)
        sts = nonzero(st, d, vs[1][2])
    ds = tuple(desc(st, v[2]) for v in vs)
    for st in sts:
        st = st.copy()
        nz = op == "neg" and not isinstance(ds[0], tuple) and not spec.redefine(st, ds[0], tc(0, 64))
        for s, res in slots:
            a, v, w = vs[0 if s == "x" else 1]
            nm = Name(res, ds)
            ORG[nm] = (w.len, w.w - (w.len - 1).scale(64))
            if w.rid is None:
                I.store(st, a[1], a[2], ("S", 0, (v[2][0], ("U", 0, ("S", 0, (dig(nm, ZERO).lin(),))))))
            else:
                reg = st.heap[w.rid]
                st.heap[w.rid] = reg.with_(segs=((ZERO, w.len, dig(nm, HASH)),))
        for s in nonzero(st, nm, w) if nz else [st]:
            out.append((s, OKU if n == 2 else UNIT))
    return out


def nonzero(st, name, v):
    """the refinements of st in which the digits `name` are not all zero"""
    k = ZERO
    st = st.copy()
    if v.rid is not None:
        if not spec.redefine(st, name, tc(0, 64)):
            return [st]
        k = la(new_atom("nz", 0, None))
        st.add_lin(v.len - 1 - k)
    return [s for s in st.assume(("teq", dig(name, k), tc(0, 64)), False) if s.feasible()]
