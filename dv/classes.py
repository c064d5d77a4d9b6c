"""Class adaptors: how an object of a container class is laid out (discovered by running the class's own observers),
its representation invariant, and its abstract view (length + contents)."""
import re, z3
from .terms import *
from . import core
from .core import Ptr, NULL, Undef, Unsupported, ArrayObj, StructObj, State

LIM = 1 << 40          # containers of up to 2^40 elements
CAPLIM = 1 << 44


def leaves(ty, off=0):
    if ty.k == 'struct':
        out = []
        for i, e in enumerate(ty.elems):
            out += leaves(e, off + ty.offs[i])
        return out
    if ty.k == 'arr':
        out = []
        for i in range(ty.n):
            out += leaves(ty.elem, off + i * ty.elem.size)
        return out
    return [(off, ty)]


class VecView:
    pass


class VecClass:
    """nanostl::vector<T>, nanostl::valarray<T>: {pointer, capacity, size} in an order found by running data(),
    capacity() and size() on an object with opaque fields."""

    def __init__(self, ex, cname, esz, struct_ty):
        self.cname = cname
        self.esz = esz
        self.size = struct_ty.size
        lv = leaves(struct_ty)
        ptrs = [o for o, t in lv if t.k == 'ptr']
        ints = [o for o, t in lv if t.k == 'int' and t.bits == 64]
        if len(ptrs) != 1 or len(ints) != 2 or len(lv) != 3:
            raise Unsupported('representation of %s is not {pointer, two counters}' % cname)
        self.p = ptrs[0]
        esc = re.escape(cname)
        self.s = self.observe(ex, esc + r'::size\(\) const', ints)
        self.c = self.observe(ex, esc + r'::capacity\(\) const', ints)
        if self.s is None and self.c is None:
            raise Unsupported('no size() observer for ' + cname)
        if self.s is None:
            raise Unsupported('no size() observer')
        if self.c is None:
            self.c = [o for o in ints if o != self.s][0]
        if self.c == self.s:
            raise Unsupported('size() and capacity() read the same field')

    def observe(self, ex, pat, ints):
        F = None
        for f in ex.mod.funcs.values():
            if re.fullmatch(pat, f.dem):
                F = f
        if F is None or F.decl:
            return None
        st = State(ex)
        o = StructObj(self.size, 'param')
        syms = {}
        for off in ints:
            syms[off] = fresh('obs', 64)
            o.cells[off] = (8, syms[off])
        buf = ex.newobj(st, ArrayObj(self.esz, fresh('obslen', 64), FBase(self.esz * 8), 'new[]'))
        o.cells[self.p] = (8, Ptr(buf))
        oid = ex.newobj(st, o)
        old, ex.verifying = ex.verifying, None
        am = ex.assume_mode
        ex.assume_mode = 1
        try:
            res = ex.call(F, st, [Ptr(oid)])
        finally:
            ex.verifying = old
            ex.assume_mode = am
        if len(res) != 1:
            return None
        r = res[0][1]
        for off in ints:
            if isinstance(r, z3.BitVecRef) and r.eq(syms[off]):
                return off
        return None

    # -- building
    def make(self, ex, st, oid, off, name, length=None, content=None, cap=None, base_null=True):
        """puts a fresh well-formed representation into (oid, off); returns the view"""
        n = length if length is not None else z3.BitVec(name + '.size!%d' % uid(), 64)
        cp = cap if cap is not None else z3.BitVec(name + '.cap!%d' % uid(), 64)
        ct = content if content is not None else FBase(self.esz * 8, name=name)
        buf = ex.newobj(st, ArrayObj(self.esz, cp, ct, 'new[]', name + '.buf'))
        o = st.w(oid)
        nullc = simp(cp == 0)
        st.mem[buf].absent = nullc
        o.cells[off + self.p] = (8, Ptr(buf, bv(0), 0, nullc))
        o.cells[off + self.c] = (8, cp)
        o.cells[off + self.s] = (8, n)
        st.assume(z3.ULE(n, cp))
        st.assume(z3.ULE(cp, bv(CAPLIM)))
        if not any(i[0] == oid and i[1] == off for i in st.insts):
            st.insts.append((oid, off, self))
        return self.view(st, oid, off)

    def view(self, st, oid, off):
        o = st.mem[oid]
        v = VecView()
        try:
            v.p = o.cells[off + self.p][1]
            v.cap = o.cells[off + self.c][1]
            v.len = o.cells[off + self.s][1]
        except KeyError:
            return None
        if not isinstance(v.p, Ptr) or isinstance(v.cap, (Ptr, Undef)) or isinstance(v.len, (Ptr, Undef)):
            return None
        v.buf = v.p.obj
        bo = st.mem.get(v.buf) if v.buf is not None else None
        v.content = bo.content if isinstance(bo, ArrayObj) else None
        return v

    def wf(self, ex, st, oid, off):
        """[(condition, text)] of the representation invariant"""
        o = st.mem[oid]
        v = self.view(st, oid, off)
        if v is None:
            return [(FALSE, 'fields are initialised')]
        out = []
        if v.p.obj is None:
            out.append((simp(v.cap == 0), 'a null buffer has zero capacity'))
        else:
            bo = st.mem.get(v.p.obj)
            if bo is None or not bo.live:
                nn = v.p.nullc if v.p.nullc is not None else FALSE
                return [(nn, 'the buffer is alive')]
            if not isinstance(bo, ArrayObj):
                return [(FALSE, 'the buffer is an array from new[]')]
            if bo.esz is None:
                bo = ex.type_raw(st, v.p.obj, self.esz)
                v = self.view(st, oid, off)
            out.append((z3.BoolVal(bo.kind == 'new[]' and bo.esz == self.esz and v.p.sub == 0), 'the buffer is an array from new[]'))
            out.append((simp(v.p.idx == 0), 'the buffer pointer is the start of the allocation'))
            nn = v.p.nullc if v.p.nullc is not None else FALSE
            out.append((simp(nn == (v.cap == 0)), 'null buffer exactly when capacity is zero'))
            out.append((Or(nn, simp(bo.length == v.cap)), 'capacity equals the allocated length'))
        out.append((simp(z3.ULE(v.len, v.cap)), 'size does not exceed capacity'))
        out.append((simp(z3.ULE(v.cap, bv(CAPLIM))), 'capacity is bounded'))
        return out


def find_vec_class(ex, cname_re, esz):
    """adaptor for the class whose demangled name matches; struct type found through the observers' argument"""
    key = (cname_re, esz)
    cache = ex.__dict__.setdefault('_vecclasses', {})
    if key in cache:
        return cache[key]
    cname = None
    for f in ex.mod.funcs.values():
        m = re.match('(' + cname_re + r')::(size|capacity|begin|end|resize|push_back|~)', f.dem)
        if m:
            cname = m.group(1)
            break
    if cname is None:
        raise Unsupported('class %s is not instantiated' % cname_re)
    base = 'class.' + cname.split('<')[0]
    ty = None
    for n, t in ex.mod.structs.items():
        if re.fullmatch(re.escape(base) + r'(\.\d+)?', n) and t.size:
            ty = t
            break
    if ty is None:
        raise Unsupported('no layout for ' + cname)
    c = VecClass(ex, cname, esz, ty)
    cache[key] = c
    return c


_MEMBER = re.compile(r'^(nanostl::(?:vector|valarray))<([a-z ]+)(, nanostl::allocator<[^<>]*> ?)?>::')
_ESZ = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
        'long long': 8, 'unsigned long long': 8, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8}


def class_of_member(ex, F):
    cache = ex.__dict__.setdefault('_membercls', {})
    if F.name in cache:
        return cache[F.name]
    cache[F.name] = None
    m = _MEMBER.match(F.dem)
    # constructors, resize() and the like print a return type only for templates: also look after a leading type
    if m and m.group(2) in _ESZ:
        try:
            cache[F.name] = find_vec_class(ex, re.escape(F.dem[:m.end() - 2]), _ESZ[m.group(2)])
        except Unsupported:
            pass
    return cache[F.name]
