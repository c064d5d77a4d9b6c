"""Function contracts used at call sites: resize() of the vector-like containers.  A contract is verified against the
body of the current source in its own process (verify); callers then see the contract and not the body (apply).
When the body does not satisfy the contract, callers fall back to the body."""
import re, z3
from .terms import *
from .core import *
from . import classes

CNT = 1 << 42
_RE = re.compile(r'^(nanostl::(?:vector|valarray)<([a-z ]+)(?:, nanostl::allocator<[^<>]*> ?)?>)::resize\(unsigned long long\)$')


def candidates(mod):
    """[(symbol, demangled)] of the functions for which a contract is known"""
    out = []
    for f in mod.funcs.values():
        m = _RE.match(f.dem)
        if m and not f.decl and m.group(2) in classes._ESZ:
            out.append((f.name, f.dem))
    from . import tree
    return out + tree.candidates(mod)


class Resize:
    """{wf(v) && count <= 2^42}  v.resize(count)
    {size == count; if count <= cap: same buffer and capacity, element k is 0 for size<=k<count and unchanged otherwise;
     else: a fresh buffer, 2*cap <= cap' and count <= cap' <= 2*count, elements k<size copied, 0 for size<=k<count; old buffer
     released; nothing else changed}"""

    def __init__(self, ex, F):
        m = _RE.match(F.dem)
        self.name = F.dem
        self.sym = F.name
        self.esz = classes._ESZ[m.group(2)]
        self.cls = classes.find_vec_class(ex, re.escape(m.group(1)), self.esz)

    def match(self, F):
        return F.name == self.sym

    def content(self, old, n, count):
        w = self.esz * 8
        return FCond(old, lambda j: And(z3.ULE(n, j), z3.ULT(j, count)), lambda j: bv(0, w))

    def apply(self, ex, st, F, args, I):
        this, count = args[0], args[1]
        ok = isinstance(this, Ptr) and this.obj is not None and isinstance(st.mem.get(this.obj), StructObj) and \
            isc(this.idx) and cval(this.idx) == 0 and this.nullc is None and st.mem[this.obj].live and not isinstance(count, Undef)
        v = self.cls.view(st, this.obj, this.sub) if ok else None
        if v is not None and v.buf is None:
            v = None if not (isc(v.cap) and cval(v.cap) == 0) else v
        if v is None or (v.buf is not None and not isinstance(st.mem.get(v.buf), ArrayObj)):
            return ex.call(F, st, args)
        if ex.unroll and isc(v.cap) and isc(v.len) and isc(simp(ex.num(count))):
            return ex.call(F, st, args)     # everything is a known number: the body itself is more precise
        pre = And(*[c for c, _ in self.cls.wf(ex, st, this.obj, this.sub)] + [z3.ULE(count, bv(CNT))])
        if ex.assume_mode:
            st.assume(simp(pre))    # (the final pass over the loop body checks it)
        elif not ex.valid(st, pre):
            return ex.call(F, st, args)
        ex.note_instance(F, st, this)
        v = self.cls.view(st, this.obj, this.sub)
        old = v.content if v.content is not None else FConst(bv(0, self.esz * 8))
        out = []
        for s, inplace in ex.branch(st, simp(z3.ULE(count, v.cap))):
            o = s.w(this.obj)
            o.cells[this.sub + self.cls.s] = (8, count)
            if inplace:
                if v.buf is not None:
                    b = s.w(v.buf)
                    b.content = self.content(old, v.len, count)
            else:
                if v.buf is not None:
                    b = s.w(v.buf)
                    b.live = False
                nc = z3.BitVec('newcap!%d' % uid(), 64)
                s.assume(And(z3.ULE(count, nc), z3.ULE(nc, 2 * count), z3.ULE(2 * v.cap, nc)))
                fr = FCond(FBase(self.esz * 8, name='grown'), lambda j: z3.ULT(j, v.len), old.sel)
                nb = ex.newobj(s, ArrayObj(self.esz, nc, self.content(fr, v.len, count), 'new[]', 'grown'))
                o.cells[this.sub + self.cls.p] = (8, Ptr(nb))
                o.cells[this.sub + self.cls.c] = (8, nc)
            out.append((s, None))
        return out

    def verify(self, ex, F):
        st = State(ex)
        cls = self.cls
        oid = ex.newobj(st, StructObj(cls.size, 'param', name='v'))
        v0 = cls.make(ex, st, oid, 0, 'v')
        count = z3.BitVec('count', 64)
        st.assume(z3.ULE(count, bv(CNT)))
        ex.verifying = self
        ex.contracts = []
        n = 0
        known = set(st.mem)
        for s, _ in ex.call(F, st, [Ptr(oid), count]):
            if s.dead or not ex.feasible(s):
                continue
            n += 1
            v1 = cls.view(s, oid, 0)
            if v1 is None:
                ex.oblige(s, FALSE, 'contract', None, 'representation lost')
                continue
            for c, msg in cls.wf(ex, s, oid, 0):
                ex.oblige(s, c, 'contract', None, msg)
            ex.oblige(s, simp(v1.len == count), 'contract', None, 'size is count')
            k = fresh('k', 64)
            spec = self.content(v0.content, v0.len, count).sel(k)
            if v1.buf == v0.buf:
                ex.oblige(s, z3.ULE(count, v0.cap), 'contract', None, 'in place only within capacity')
                ex.oblige(s, simp(v1.cap == v0.cap), 'contract', None, 'capacity unchanged in place')
                ex.oblige(s, Implies(z3.ULT(k, v0.cap), simp(v1.content.sel(k) == spec)), 'contract', None, 'elements')
            else:
                ex.oblige(s, z3.UGT(count, v0.cap), 'contract', None, 'reallocates only beyond capacity')
                ob = s.mem.get(v0.buf)
                if ob is not None and ob.live:
                    ex.oblige(s, v0.cap == 0, 'contract', None, 'old buffer released')
                ex.oblige(s, And(z3.ULE(count, v1.cap), z3.ULE(v1.cap, 2 * count), z3.ULE(2 * v0.cap, v1.cap)), 'contract', None, 'growth')
                if v1.content is None:
                    ex.oblige(s, FALSE, 'contract', None, 'no buffer')
                    continue
                ex.oblige(s, Implies(z3.ULT(k, count), simp(v1.content.sel(k) == spec)), 'contract', None, 'elements')
            for i, o in s.mem.items():
                if o.live and o.kind in ('new', 'new[]', 'malloc') and i not in (v0.buf, v1.buf):
                    ex.oblige(s, o.absent if isinstance(o, ArrayObj) and o.absent is not None else FALSE, 'contract', None, 'leak')
                if i not in known and o.live and o.kind == 'global' and not o.ro:
                    ex.oblige(s, FALSE, 'contract', None, 'touches global state')
        if n == 0:
            raise Unsupported('no path through ' + F.dem)


def install(ex, syms):
    for f in ex.mod.funcs.values():
        if f.name in syms and _RE.match(f.dem):
            ex.contracts.append(Resize(ex, f))
    from . import tree
    tree.install(ex, syms)


def contract_for(ex, F):
    from . import tree
    return Resize(ex, F) if _RE.match(F.dem) else tree.TreeFn(ex, F)
