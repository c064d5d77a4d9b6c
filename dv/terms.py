"""z3 term helpers, linear forms, array closed forms, floating-point wrapper."""
import z3, itertools

_cnt = itertools.count()
BV64 = z3.BitVecSort(64)


def fresh(prefix, bits):
    if bits == 1:
        return z3.Bool('%s!%d' % (prefix, next(_cnt)))
    return z3.BitVec('%s!%d' % (prefix, next(_cnt)), bits)


def fresh_fn(prefix, bits, inbits=64):
    return z3.Function('%s!%d' % (prefix, next(_cnt)), z3.BitVecSort(inbits), z3.BitVecSort(bits))


def uid():
    return next(_cnt)


def bv(n, bits=64):
    return z3.BitVecVal(n, bits)


def isc(t):
    return z3.is_bv_value(t)


def cval(t):
    return t.as_long()


def simp(t):
    return z3.simplify(t)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_true(b):
    return z3.is_true(b)


def is_false(b):
    return z3.is_false(b)


def And(*a):
    a = [x for x in a if x is not None and not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    if not a:
        return TRUE
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    if not a:
        return FALSE
    return a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def lin(t):
    """linear form of a BV term: ({ast_id: (coef, term)}, const), arithmetic mod 2^w"""
    w = t.size()
    M = 1 << w
    res = {}
    const = 0
    stack = [(t, 1)]
    while stack:
        x, c = stack.pop()
        if c == 0:
            continue
        if z3.is_bv_value(x):
            const = (const + c * x.as_long()) % M
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_BADD:
            for a in x.children():
                stack.append((a, c))
            continue
        if k == z3.Z3_OP_BSUB:
            ch = x.children()
            stack.append((ch[0], c))
            for a in ch[1:]:
                stack.append((a, -c))
            continue
        if k == z3.Z3_OP_BNEG:
            stack.append((x.arg(0), -c))
            continue
        if k == z3.Z3_OP_BMUL:
            ch = x.children()
            cc = c
            rest = []
            for a in ch:
                if z3.is_bv_value(a):
                    cc *= a.as_long()
                else:
                    rest.append(a)
            if len(rest) == 0:
                const = (const + cc) % M
                continue
            if len(rest) == 1:
                stack.append((rest[0], cc % M))
                continue
            # nonlinear: key on product term
            r = rest[0]
            for a in rest[1:]:
                r = r * a
            x = r
            c = cc
        elif k == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
            stack.append((x.arg(0), (c << x.arg(1).as_long()) % M))
            continue
        i = x.get_id()
        if i in res:
            nc = (res[i][0] + c) % M
            if nc == 0:
                del res[i]
            else:
                res[i] = (nc, x)
        else:
            c %= M
            if c:
                res[i] = (c, x)
    return res, const


def signed(c, w):
    return c - (1 << w) if c >> (w - 1) else c


def from_lin(res, const, w):
    t = None
    for c, x in res.values():
        s = signed(c, w)
        y = x if s == 1 else (bv(s, w) * x)
        t = y if t is None else t + y
    if t is None:
        return bv(const, w)
    if const:
        t = t + bv(const, w)
    return t


def exact_div(t, c):
    """t / c when every coefficient of the linear form of t is a multiple of c (caller guarantees
    that the division is exact and no wrap-around occurs). None otherwise."""
    if c == 1:
        return t
    if isc(t):
        v = signed(t.as_long(), t.size())
        return bv(v // c, t.size()) if v % c == 0 else None
    res, k = lin(t)
    w = t.size()
    out = {}
    for i, (co, x) in res.items():
        s = signed(co, w)
        if s % c:
            return None
        out[i] = ((s // c) % (1 << w), x)
    ks = signed(k, w)
    if ks % c:
        return None
    return from_lin(out, (ks // c) % (1 << w), w)


def add(a, b):
    if isc(a) and a.as_long() == 0:
        return b
    if isc(b) and b.as_long() == 0:
        return a
    return simp(a + b)


def sub_(a, b):
    if isc(b) and b.as_long() == 0:
        return a
    return simp(a - b)


_symc = {}


def free_syms(t):
    """set of ids of uninterpreted constants/functions' decl names occurring in t"""
    i = t.get_id()
    r = _symc.get(i)
    if r is not None and r[0].eq(t):
        return r[1]
    seen = set()
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    out = frozenset(out)
    _symc[i] = (t, out)
    return out


_apps = {}


def uf_apps(t):
    """list of UF applications (arity>=1) in t"""
    i = t.get_id()
    r = _apps.get(i)
    if r is not None and r[0].eq(t):
        return r[1]
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 1:
                out.append(x)
            st.extend(x.children())
    _apps[i] = (t, out)
    return out


def subst(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


# ---------------------------------------------------------------- arrays as closed forms

class FArr:
    """element contents as a function index(BV64) -> BV(bits)"""
    bits = 8

    def sel(self, i):
        raise NotImplementedError

    def store(self, i, v):
        return FStore(self, i, v)

    def base(self):
        return self


class FBase(FArr):
    def __init__(self, bits, fn=None, name='A'):
        self.bits = bits
        self.fn = fn if fn is not None else fresh_fn(name, bits)

    def sel(self, i):
        return self.fn(i)


class FConst(FArr):
    def __init__(self, v):
        self.v = v
        self.bits = v.size()

    def sel(self, i):
        return self.v


class FTable(FArr):
    """constant table"""

    def __init__(self, vals, bits):
        self.vals = vals
        self.bits = bits
        self.fn = None

    def sel(self, i):
        if isc(i):
            k = i.as_long()
            return bv(self.vals[k], self.bits) if k < len(self.vals) else bv(0, self.bits)
        # balanced binary ite over index bits
        n = len(self.vals)
        nb = max(1, (n - 1).bit_length())

        def go(lo, b):
            if lo >= n:
                return bv(self.vals[n - 1], self.bits)
            if b < 0:
                return bv(self.vals[lo], self.bits)
            x = go(lo, b - 1)
            y = go(lo + (1 << b), b - 1)
            if x.eq(y):
                return x
            return z3.If(z3.Extract(b, b, i) == 1, y, x)
        return go(0, nb - 1)


class FStore(FArr):
    def __init__(self, prev, i, v):
        self.prev = prev
        self.i = i
        self.v = v
        self.bits = prev.bits

    def sel(self, j):
        x = self
        conds = []
        while isinstance(x, FStore):
            if isc(x.i) and isc(j):
                if x.i.as_long() == j.as_long():
                    break
            else:
                d = simp(x.i - j)
                if isc(d):
                    if d.as_long() == 0:
                        break
                else:
                    conds.append((x.i == j, x.v))
            x = x.prev
        r = x.v if isinstance(x, FStore) else x.sel(j)
        for c, v in reversed(conds):
            r = ite(c, v, r)
        return r

    def base(self):
        return self.prev.base()


class FCond(FArr):
    """j -> val(j) if cond(j) else prev(j)"""

    def __init__(self, prev, cond, val):
        self.prev = prev
        self.cond = cond
        self.val = val
        self.bits = prev.bits

    def sel(self, j):
        c = simp(self.cond(j))
        if is_false(c):
            return self.prev.sel(j)
        v = self.val(j)
        if is_true(c):
            return v
        return ite(c, v, self.prev.sel(j))

    def base(self):
        return self.prev.base()


class FFun(FArr):
    def __init__(self, bits, f):
        self.bits = bits
        self.f = f

    def sel(self, j):
        return self.f(j)


# ---------------------------------------------------------------- floating point

RNE = z3.RNE()


def fsort(w):
    return z3.Float32() if w == 32 else z3.Float64()


_fpb = {}
_fpdef = {}


def fp_bits_def(nm):
    return _fpdef[nm]


fpb_syms = {}


def fp_bits_sym(f, w):
    """the bit pattern of an fp term: one symbol per term, so that it stays the same value wherever the term occurs"""
    k = f.get_id()
    r = _fpb.get(k)
    if r is None or not r[0].eq(f):
        nm = 'fb_%d_%d' % (k, len(_fpb))
        r = (f, z3.BitVec(nm, w))
        _fpb[k] = r
        fpb_syms[nm] = f
        # an operation result that is a NaN is quiet (hardware behaviour)
        mb = 23 if w == 32 else 52
        _fpdef[nm] = [z3.fpBVToFP(r[1], fsort(w)) == f,
                      z3.Implies(z3.fpIsNaN(f), z3.Extract(mb - 1, mb - 1, r[1]) == 1)]
    return r[1]


class Flt:
    __slots__ = ('w', '_b', '_f', 'z')

    def __init__(self, w, bits=None, fp=None):
        self.w = w
        self._b = bits
        self._f = fp

    def fp(self):
        if self._f is None:
            self._f = z3.simplify(z3.fpBVToFP(self._b, fsort(self.w)))
        return self._f

    def bits(self, st):
        if self._b is None:
            s = z3.simplify(self._f)
            if z3.is_fp_value(s) and not s.isNaN():
                b = z3.simplify(z3.fpToIEEEBV(s))
                if isc(b):
                    self._b = b
                    return b
            b = fp_bits_sym(s, self.w)
            self._b = b
        return self._b

    def __repr__(self):
        return 'Flt(%s)' % (self._b if self._b is not None else self._f)
