"""Semantics of the functions the code under verification does not define itself: allocation, LLVM intrinsics,
and the specification primitives of the harness files."""
import re, z3
from .terms import *
from . import core
from .core import Ptr, NULL, Undef, Unsupported, ArrayObj, StructObj, ADDR_LIMIT, FnPtr


def op_new(ex, st, I, args, kind):
    n = ex.num(args[0])
    ex.oblige(st, z3.ULE(n, bv(ADDR_LIMIT)), 'alloc-size', I, 'allocation request is satisfiable')
    if isc(n) and cval(n) <= 4096 and (kind == 'new' or ex.records):
        oid = ex.newobj(st, StructObj(cval(n), kind))
        if ex.__dict__.get('_treelay'):
            from .tree import OWN
            st.assume(OWN(ex.addr(oid)) == bv(uid()))
    else:
        o = ArrayObj(None, None, None, kind)
        o.bytes = n
        oid = ex.newobj(st, o)
    st.ghost['allocs'] = st.ghost.get('allocs', 0) + 1
    return [(st, Ptr(oid))]


def cstr(ex, st, p):
    o = st.mem[p.obj]
    s = ''
    i = cval(p.idx)
    while True:
        c = cval(o.content.sel(bv(i)))
        if c == 0:
            return s
        s += chr(c)
        i += 1


def do_memcpy(ex, st, I, d, s, n, move=False):
    n = ex.num(n)
    if isc(n) and cval(n) == 0:
        return [(st, d)]
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unsupported('memcpy on %r %r' % (d, s))
    so = ex.check_live(st, s, I, 'load')
    if so is None:
        return [(st, d)]
    do = ex.check_live(st, d, I, 'store')
    if do is None:
        return [(st, d)]
    if isinstance(so, StructObj) and isinstance(do, StructObj):
        if not isc(n):
            raise Unsupported('symbolic struct memcpy')
        k = cval(n)
        if s.sub < 0 or s.sub + k > so.size or d.sub < 0 or d.sub + k > do.size:
            ex.oblige(st, core.FALSE, 'bounds', I, 'memcpy within the object')
            st.dead = True
            return [(st, d)]
        cells = [(a, sz, v) for a, (sz, v) in so.cells.items() if s.sub <= a and a + sz <= s.sub + k]
        part = [(a, sz, v) for a, (sz, v) in so.cells.items() if a < s.sub + k and s.sub < a + sz and not (s.sub <= a and a + sz <= s.sub + k)]
        if part:
            raise Unsupported('memcpy splits a scalar')
        o = st.w(d.obj)
        for a in list(o.cells):
            sz, _ = o.cells[a]
            if a < d.sub + k and d.sub < a + sz:
                if not (d.sub <= a and a + sz <= d.sub + k):
                    raise Unsupported('memcpy splits a scalar')
                del o.cells[a]
        for a, sz, v in cells:
            o.cells[a - s.sub + d.sub] = (sz, v)
        # class instances move with their bytes
        for (oid, off, cls) in list(st.insts):
            if oid == s.obj and s.sub <= off and off + cls.size <= s.sub + k:
                pass
        return [(st, d)]
    # array copies
    def typed(p, o, other):
        if isinstance(o, ArrayObj) and o.esz is None:
            e = other.esz if isinstance(other, ArrayObj) and other.esz else 1
            return ex.type_raw(st, p.obj, e)
        return o
    so = typed(s, so, do)
    do = typed(d, st.mem[d.obj], so)
    if isinstance(so, ArrayObj) and isinstance(do, ArrayObj) and so.esz == do.esz and s.sub == 0 and d.sub == 0:
        esz = so.esz
        m = exact_div(n, esz)
        if m is None:
            raise Unsupported('memcpy of partial elements')
        ex.oblige(st, z3.Or(m == 0, And(z3.ULT(s.idx, so.length), z3.ULE(m, so.length - s.idx))), 'bounds', I, 'memcpy source in bounds')
        ex.oblige(st, z3.Or(m == 0, And(z3.ULT(d.idx, do.length), z3.ULE(m, do.length - d.idx))), 'bounds', I, 'memcpy destination in bounds')
        if s.obj == d.obj and not move:
            ex.oblige(st, z3.Or(m == 0, s.idx == d.idx, z3.ULE(s.idx + m, d.idx), z3.ULE(d.idx + m, s.idx)), 'memcpy-overlap', I, '')
        src = so.content
        o = st.w(d.obj)
        di, si = d.idx, s.idx
        o.content = FCond(o.content, lambda j, di=di, m=m: z3.ULT(simp(j - di), m),
                          lambda j, di=di, si=si, src=src: src.sel(simp(si + (j - di))))
        return [(st, d)]
    if isc(n) and cval(n) <= 64:
        k = cval(n)
        # load pieces of at most 8 bytes; pieces follow the array element size
        e = so.esz if isinstance(so, ArrayObj) else (do.esz if isinstance(do, ArrayObj) else 1)
        from .llir import Ty
        vals = []
        for i in range(0, k, e):
            t = Ty('int', bits=8 * e)
            t.size = t.store = e
            ps = shift(ex, st, s, i)
            vals.append(ex.load(st, ps, t, I))
            if st.dead:
                return [(st, d)]
        for q, i in enumerate(range(0, k, e)):
            t = Ty('int', bits=8 * e)
            t.size = t.store = e
            ex.store(st, shift(ex, st, d, i), vals[q], t, I)
        return [(st, d)]
    raise Unsupported('memcpy between differently typed objects')


def shift(ex, st, p, nbytes):
    o = st.mem[p.obj]
    if isinstance(o, StructObj):
        return Ptr(p.obj, p.idx, p.sub + nbytes, p.nullc)
    t = p.sub + nbytes
    q = t // o.esz
    return Ptr(p.obj, add(p.idx, bv(q)), t - q * o.esz, p.nullc)


def do_memset(ex, st, I, d, val, n):
    n = ex.num(n)
    val = ex.num(val)
    if isc(n) and cval(n) == 0:
        return [(st, d)]
    o = ex.check_live(st, d, I, 'store')
    if o is None:
        return [(st, d)]
    if isinstance(o, StructObj):
        if not isc(n):
            raise Unsupported('symbolic struct memset')
        k = cval(n)
        if d.sub < 0 or d.sub + k > o.size:
            ex.oblige(st, core.FALSE, 'bounds', I, 'memset within the object')
            st.dead = True
            return [(st, d)]
        o = st.w(d.obj)
        for a in list(o.cells):
            sz, _ = o.cells[a]
            if a < d.sub + k and d.sub < a + sz:
                if not (d.sub <= a and a + sz <= d.sub + k):
                    raise Unsupported('memset splits a scalar')
                del o.cells[a]
        if isc(val) and cval(val) == 0 and d.sub == 0 and k == o.size:
            o.default = 'zero'
        else:
            i = 0
            while i < k:
                s = 8 if k - i >= 8 and (d.sub + i) % 8 == 0 else (4 if k - i >= 4 and (d.sub + i) % 4 == 0 else 1)
                o.cells[d.sub + i] = (s, simp(z3.Concat(*([val] * s))) if s > 1 else val)
                i += s
        return [(st, d)]
    if o.esz is None:
        o = ex.type_raw(st, d.obj, 1)
    m = exact_div(n, o.esz)
    if m is None or d.sub:
        raise Unsupported('memset of partial elements')
    ex.oblige(st, z3.Or(m == 0, And(z3.ULT(d.idx, o.length), z3.ULE(m, o.length - d.idx))), 'bounds', I, 'memset in bounds')
    v = val if o.esz == 1 else simp(z3.Concat(*([val] * o.esz)))
    o = st.w(d.obj)
    di = d.idx
    o.content = FCond(o.content, lambda j: z3.ULT(simp(j - di), m), lambda j: v)
    return [(st, d)]


def fp1(f):
    def h(ex, st, I, args):
        a = ex.flt(args[0])
        if ex.fp_abstract is not None:
            r = ex.fp_abstract(ex, st, f.__name__, [a], I)
            if r is not None:
                return [(st, r)]
        return [(st, f(a))]
    return h


def f_fabs(a):
    if a._b is not None:
        return Flt(a.w, bits=simp(a._b & bv((1 << (a.w - 1)) - 1, a.w)))
    return Flt(a.w, fp=simp(z3.fpAbs(a.fp())))


def f_sqrt(a):
    return Flt(a.w, fp=simp(z3.fpSqrt(RNE, a.fp())))


def f_round(mode):
    def g(a):
        return Flt(a.w, fp=simp(z3.fpRoundToIntegral(mode, a.fp())))
    g.__name__ = 'round'
    return g


def f_copysign(ex, st, I, args):
    a, b = ex.flt(args[0]), ex.flt(args[1])
    w = a.w
    x, y = a.bits(st), b.bits(st)
    m = bv(1 << (w - 1), w)
    return [(st, Flt(w, bits=simp((x & ~m) | (y & m))))]


def f_minmax(isMin):
    def h(ex, st, I, args):
        a, b = ex.flt(args[0]), ex.flt(args[1])
        x, y = a.fp(), b.fp()
        r = z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(z3.fpLEQ(x, y) if isMin else z3.fpGEQ(x, y), x, y)))
        return [(st, Flt(a.w, fp=simp(r)))]
    return h


def with_overflow(op, sgn):
    def h(ex, st, I, args):
        a, b = ex.num(args[0]), ex.num(args[1])
        w = a.size()
        ext = z3.SignExt if sgn else z3.ZeroExt
        if op == 'add':
            ov = Not(And(z3.BVAddNoOverflow(a, b, sgn), z3.BVAddNoUnderflow(a, b) if sgn else TRUE))
            r = a + b
        elif op == 'sub':
            ov = Not(And(z3.BVSubNoOverflow(a, b) if sgn else TRUE, z3.BVSubNoUnderflow(a, b, sgn)))
            r = a - b
        else:
            if not sgn and (isc(a) or isc(b)):
                c, x = (cval(a), b) if isc(a) else (cval(b), a)
                ov = z3.UGT(x, bv(((1 << w) - 1) // c, w)) if c else FALSE
            else:
                ov = Not(And(z3.BVMulNoOverflow(a, b, sgn), z3.BVMulNoUnderflow(a, b) if sgn else TRUE))
            r = a * b
        ov = simp(ov)
        if not z3.is_true(ov) and not z3.is_false(ov) and ex.valid(st, Not(ov), timeout=4000):
            ov = FALSE
        return [(st, [simp(r), ov])]
    return h


def ignore(ex, st, I, args):
    return [(st, None)]


def vp_require(ex, st, I, args):
    c = ex.num(args[0])
    if not z3.is_bool(c):
        c = simp(c != 0)
    st.assume(simp(c))
    st.ghost['required'] = st.ghost.get('required', 0) + 1
    return [(st, None)]


def vp_ensure(ex, st, I, args):
    c = ex.num(args[0])
    if not z3.is_bool(c):
        c = simp(c != 0)
    name = cstr(ex, st, args[1])
    ex.oblige(st, c, 'ensures', I, name)
    return [(st, None)]


def vp_recurrences(ex, st, I, args):
    ex.recur = True
    return [(st, None)]


def vp_intervals(ex, st, I, args):
    """queries with floating-point terms go to the interval back end"""
    ex.sol.fbox = True
    ex.sol.deadline = ex.sol.last_deadline or ex.sol.deadline     # there is no unrolled second run to keep time for
    return [(st, None)]


def vp_ref(fn):
    """the mathematical function, in double precision (dv/fbox.py)"""
    f = z3.Function('REF.' + fn, z3.Float64(), z3.Float64())
    return lambda ex, st, I, args: [(st, Flt(64, fp=f(args[0].fp())))]


def vp_records(ex, st, I, args):
    # RECORDS(): the contract builds its objects itself, with concrete sizes, so every allocation has a concrete size: each is
    # a record of bytes in which pointers (elements that own storage) can be stored. Calls execute the callee's body.
    ex.records = True
    ex.contracts = []
    return [(st, None)]


def vp_unroll(ex, st, I, args):
    """loops from here on are executed iteration by iteration; more iterations than that must be proved impossible"""
    ex.unroll = max(ex.unroll, cval(args[0]))
    ex.sol.near = True
    return [(st, None)]


def abs_int(ex, st, I, args):
    a = ex.num(args[0])
    return [(st, simp(z3.If(a < 0, -a, a)))]


def intrin(name):
    n = name
    if n.startswith('llvm.memcpy'):
        return lambda ex, st, I, a: do_memcpy(ex, st, I, a[0], a[1], a[2])
    if n.startswith('llvm.memmove'):
        return lambda ex, st, I, a: do_memcpy(ex, st, I, a[0], a[1], a[2], move=True)
    if n.startswith('llvm.memset'):
        return lambda ex, st, I, a: do_memset(ex, st, I, a[0], a[1], a[2])
    if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias')):
        return ignore
    if n.startswith('llvm.fabs'):
        return fp1(f_fabs)
    if n.startswith('llvm.sqrt'):
        return fp1(f_sqrt)
    if n.startswith('llvm.floor'):
        return fp1(f_round(z3.RTN()))
    if n.startswith('llvm.ceil'):
        return fp1(f_round(z3.RTP()))
    if n.startswith('llvm.trunc.f'):
        return fp1(f_round(z3.RTZ()))
    if n.startswith(('llvm.rint', 'llvm.nearbyint', 'llvm.roundeven')):
        return fp1(f_round(z3.RNE()))
    if n.startswith('llvm.round.'):
        return fp1(f_round(z3.RNA()))
    if n.startswith('llvm.copysign'):
        return f_copysign
    if n.startswith('llvm.minnum'):
        return f_minmax(True)
    if n.startswith('llvm.maxnum'):
        return f_minmax(False)
    if n.startswith('llvm.fmuladd'):
        def fma(ex, st, I, a):
            x, y, z = [ex.flt(v) for v in a]
            return [(st, Flt(x.w, fp=simp(z3.fpAdd(RNE, z3.fpMul(RNE, x.fp(), y.fp()), z.fp()))))]
        return fma
    if n.startswith('llvm.is.fpclass'):
        def isc_(ex, st, I, a):
            x = ex.flt(a[0]).fp()
            m = cval(a[1])
            neg = z3.fpIsNegative(x)
            parts = []
            if m & 3:
                parts.append(z3.fpIsNaN(x))
            tests = [(0x4, And(z3.fpIsInf(x), neg)), (0x8, And(z3.fpIsNormal(x), neg)), (0x10, And(z3.fpIsSubnormal(x), neg)),
                     (0x20, And(z3.fpIsZero(x), neg)), (0x40, And(z3.fpIsZero(x), Not(neg))),
                     (0x80, And(z3.fpIsSubnormal(x), Not(neg))), (0x100, And(z3.fpIsNormal(x), Not(neg))),
                     (0x200, And(z3.fpIsInf(x), Not(neg)))]
            for b, t in tests:
                if m & b:
                    parts.append(t)
            return [(st, simp(Or(*parts)) if parts else FALSE)]
        return isc_
    m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow', n)
    if m:
        return with_overflow(m.group(2), m.group(1) == 's')
    m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', n)
    if m:
        def fsh(ex, st, I, a):
            x, y, s = [ex.num(v) for v in a]
            w = x.size()
            s = z3.URem(s, bv(w, w))
            if m.group(1) == 'fshl':
                r = z3.If(s == 0, x, (x << s) | z3.LShR(y, bv(w, w) - s))
            else:
                r = z3.If(s == 0, y, (x << (bv(w, w) - s)) | z3.LShR(y, s))
            return [(st, simp(r))]
        return fsh
    m = re.match(r'llvm\.([us])(min|max)\.', n)
    if m:
        def mm(ex, st, I, a):
            x, y = ex.num(a[0]), ex.num(a[1])
            lt = z3.ULT(x, y) if m.group(1) == 'u' else x < y
            return [(st, simp(z3.If(lt, x, y) if m.group(2) == 'min' else z3.If(lt, y, x)))]
        return mm
    if n.startswith('llvm.abs.'):
        return abs_int
    if n.startswith('llvm.bswap'):
        def bs(ex, st, I, a):
            x = ex.num(a[0])
            k = x.size() // 8
            return [(st, simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(k)])))]
        return bs
    if n.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
        def cz(ex, st, I, a):
            x = ex.num(a[0])
            w = x.size()
            if n.startswith('llvm.ctpop'):
                r = bv(0, w)
                for i in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
                return [(st, simp(r))]
            r = bv(w, w)
            rng = range(w) if n.startswith('llvm.ctlz') else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, bv(w - 1 - i if n.startswith('llvm.ctlz') else i, w), r)
            return [(st, simp(r))]
        return cz
    if n == 'llvm.trap':
        def trap(ex, st, I, a):
            ex.oblige(st, FALSE, 'trap', I, 'trap reached')
            st.dead = True
            return [(st, None)]
        return trap
    if n.startswith('llvm.expect'):
        return lambda ex, st, I, a: [(st, a[0])]
    if n.startswith('llvm.va_') or n.startswith('llvm.'):
        return None
    return None


NEW = {'_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'malloc'}


def abort_(ex, st, I, args):
    ex.oblige(st, FALSE, 'abort', I, 'abort reached')
    st.dead = True
    return [(st, None)]


def lookup(ex, F):
    n = F.name
    if n in ex.externals:
        return ex.externals[n]
    if n.startswith('llvm.'):
        h = intrin(n)
        if h is None:
            raise Unsupported('intrinsic ' + n)
        return h
    if n in ('_Znwm',):
        return lambda ex, st, I, a: op_new(ex, st, I, a, 'new')
    if n in ('_Znam',):
        return lambda ex, st, I, a: op_new(ex, st, I, a, 'new[]')
    if n == 'malloc':
        return lambda ex, st, I, a: op_new(ex, st, I, a, 'malloc')
    if n in ('_ZdlPv', '_ZdlPvm'):
        return lambda ex, st, I, a: [(s, None) for s in ex.free(st, a[0], 'new', I)]
    if n in ('_ZdaPv', '_ZdaPvm'):
        return lambda ex, st, I, a: [(s, None) for s in ex.free(st, a[0], 'new[]', I)]
    if n == 'free':
        return lambda ex, st, I, a: [(s, None) for s in ex.free(st, a[0], 'malloc', I)]
    if n == '__vp_require':
        return vp_require
    if n == '__vp_recurrences':
        return vp_recurrences
    if n == '__vp_records':
        return vp_records
    if n == '__vp_unroll':
        return vp_unroll
    if n == '__vp_intervals':
        return vp_intervals
    if n.startswith('__vp_ref_'):
        return vp_ref(n[9:])
    if n == '__vp_ensure':
        return vp_ensure
    if F.decl:
        from . import tree
        h = tree.builtin(F)
        if h:
            return h
        if n == 'memcpy':
            return lambda ex, st, I, a: do_memcpy(ex, st, I, a[0], a[1], a[2])
        if n == 'memmove':
            return lambda ex, st, I, a: do_memcpy(ex, st, I, a[0], a[1], a[2], move=True)
        if n == 'memset':
            return lambda ex, st, I, a: do_memset(ex, st, I, a[0], simp(z3.Extract(7, 0, ex.num(a[1]))), a[2])
        if n in ('abort', '__assert_fail', '_ZSt9terminatev'):
            return abort_
        if n in ('printf', 'fprintf', 'puts'):
            return lambda ex, st, I, a: [(st, fresh('io', 32))]
        lib = {'fabs': f_fabs, 'fabsf': f_fabs, 'sqrt': f_sqrt, 'sqrtf': f_sqrt}
        if n in lib:
            return fp1(lib[n])
        rm = {'floor': z3.RTN(), 'floorf': z3.RTN(), 'ceil': z3.RTP(), 'ceilf': z3.RTP(), 'trunc': z3.RTZ(), 'truncf': z3.RTZ()}
        if n in rm:
            return fp1(f_round(rm[n]))
        raise Unsupported('external function ' + F.dem)
    return None
