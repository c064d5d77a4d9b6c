"""Symbolic execution of LLVM IR with proof obligations.  Every function without a contract is entered;
functions with a contract are replaced by it (and verified against it separately)."""
import z3, time, os
from . import llir
from .terms import *
from .solver import Solver, QFact, TimeUp


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'idx', 'sub', 'nullc')

    def __init__(self, obj, idx=None, sub=0, nullc=None):
        self.obj = obj
        self.idx = idx if idx is not None else bv(0)
        self.sub = sub
        self.nullc = nullc

    def __repr__(self):
        return 'Ptr(%s,%s,%s%s)' % (self.obj, self.idx, self.sub, ',null?%s' % self.nullc if self.nullc is not None else '')


NULL = Ptr(None)


def same_ptr(a, b):
    return a.obj == b.obj and a.idx.eq(b.idx) and a.sub == b.sub and \
        ((a.nullc is None and b.nullc is None) or (a.nullc is not None and b.nullc is not None and a.nullc.eq(b.nullc)))


class FnPtr:
    def __init__(self, name):
        self.name = name


class Undef:
    def __init__(self, ty):
        self.ty = ty


class StructObj:
    def __init__(self, size, kind, cells=None, name=''):
        self.size = size
        self.kind = kind
        self.cells = cells or {}
        self.live = True
        self.name = name
        self.ro = False
        self.default = None   # 'zero' -> missing bytes read as 0

    def clone(self):
        o = StructObj(self.size, self.kind, dict(self.cells), self.name)
        o.live = self.live
        o.ro = self.ro
        o.default = self.default
        return o


class ArrayObj:
    def __init__(self, esz, length, content, kind, name=''):
        self.esz = esz
        self.length = length
        self.content = content
        self.kind = kind
        self.live = True
        self.name = name
        self.ro = False
        self.bytes = None     # set when esz is None (not typed yet)
        self.absent = None    # condition under which the object does not exist (null buffer of an empty container)

    def clone(self):
        o = ArrayObj(self.esz, self.length, self.content, self.kind, self.name)
        o.absent = self.absent
        o.live = self.live
        o.ro = self.ro
        o.bytes = self.bytes
        return o


_SWAP = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


class State:
    def __init__(self, ex):
        self.ex = ex
        self.mem = {}
        self.locals = {}
        self.pc = []
        self.facts = []
        self.insts = []       # (objid, offset, class adaptor)
        self.dead = False
        self.abstract = False
        self.gobj = {}        # global name -> obj id
        self.phinext = None
        self.ghost = {}
        self.model = None     # a model of pc[:mlen]
        self.mlen = 0

    def model_says(self, c):
        """truth value of c in a model of the path condition (None: no model at hand)"""
        m = self.model
        if m is None:
            return None
        while self.mlen < len(self.pc):
            if not z3.is_true(m.eval(self.pc[self.mlen], model_completion=True)):
                self.model = None
                return None
            self.mlen += 1
        v = m.eval(c, model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None

    def copy(self):
        s = State(self.ex)
        s.mem = dict(self.mem)
        s.locals = dict(self.locals)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.insts = list(self.insts)
        s.dead = self.dead
        s.abstract = self.abstract
        s.gobj = dict(self.gobj)
        s.ghost = dict(self.ghost)
        s.model = self.model
        s.mlen = self.mlen
        return s

    def assume(self, c):
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.dead = True
        self.pc.append(c)

    def w(self, oid):
        o = self.mem[oid].clone()
        self.mem[oid] = o
        return o


class Failure:
    def __init__(self, kind, fn, loc, msg, status, model, st, harness=None):
        self.kind = kind
        self.fn = fn
        self.loc = loc
        self.msg = msg
        self.status = status      # 'refuted' | 'undecided'
        self.model = model
        self.abstract = st.abstract or bool(st.facts)
        self.st = st

    def __repr__(self):
        return '%s: %s in %s at %s %s%s' % (self.status, self.kind, self.fn, self.loc, self.msg, ' (abstract)' if self.abstract else '')


ADDR_LIMIT = 1 << 47


class Exec:
    def __init__(self, mod, timeout_ms=15000):
        self.mod = mod
        self.sol = Solver(timeout_ms)
        self.contracts = []           # list of contract objects with .match(fn) / .apply
        self.verifying = None         # function whose own body is being verified
        self.assume_mode = 0
        self.failures = []
        self.ob_total = 0
        self.ob_trivial = 0
        self.ob_discharged = 0
        self.ob_kinds = {}
        self.obligations = []         # (harness, kind, fn, loc)
        self.nextobj = 1
        self.stack = []
        self.symstack = []
        self.recur = False            # name loop-carried values without closed form (loops.recurrences)
        self.recs = []
        self.in_body = 0
        self.defs = []
        self.def_apps = {}
        self.unroll = 0               # >0: unroll loops up to this many times
        self.records = False          # True: concrete-size new[] makes a record, see vp_records
        self.bounded = False          # True: paths beyond the unroll limit are dropped (bounded mode)
        self.hit_bound = False
        self.maxpaths = 4000
        self.npaths = 0
        self.blog = None              # branch-condition log of the loop being analysed
        self.loop_report = []
        self.harness = None
        self.used_contracts = {}
        self.entered = set()
        self.debug = bool(os.environ.get('DV_DEBUG'))
        self.init_globals_arbitrary = True
        self.div_elim = True
        self.externals = {}
        self.ret_reached = 0
        self.xobs = None
        self.lazy_feas = False
        self.recursion_limit = 0
        self.hint_candidates = []

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, cond, kind, I=None, msg=''):
        if st.dead:
            return
        if self.assume_mode:
            st.assume(cond)
            return
        self.ob_total += 1
        fnname = I.fn.dem if I is not None else (self.stack[-1] if self.stack else '')
        loc = ('%s:%d' % (os.path.basename(I.loc[0]), I.loc[1])) if I is not None and I.loc else ''
        self.ob_kinds[kind] = self.ob_kinds.get(kind, 0) + 1
        self.obligations.append((kind, fnname, loc, msg))
        c = simp(cond)
        if z3.is_true(c):
            self.ob_trivial += 1
            self.ob_discharged += 1
            return
        if self.sol.quick_unsat(st.pc, st.facts, Not(c)):
            r, m = 'unsat', None
        else:
            r, m = self.sol.check(st.pc + [Not(c)], st.facts)
        if r == 'unknown' and self.sol.timeout < 60000:
            r, m = self.retry_unknown(st.pc + [Not(c)], st.facts)
        if r == 'unsat':
            self.ob_discharged += 1
            if self.xobs is not None:
                self.xobs.append((list(st.pc) + [Not(c)], list(st.facts)))
        else:
            f = Failure(kind, fnname, loc, msg, 'refuted' if r == 'sat' else 'undecided',
                        m if r == 'sat' else None, st.copy())
            f.query = (list(st.pc), list(st.facts), Not(c))
            self.failures.append(f)
            if self.debug:
                print('   FAIL', f, c)
        st.assume(c)

    def retry_unknown(self, forms, facts):
        if self.sol.fbox:
            return 'unknown', None
        r = self.sol.cvc5(forms, facts, timeout=20)
        if r == 'unsat':
            self.sol.stats.cvc5_unsat += 1
            return 'unsat', None
        return 'unknown', None

    def feasible(self, st, c=None):
        if st.dead:
            return False
        if c is not None and st.model_says(c):
            return True
        f = st.pc + ([c] if c is not None else [])
        if c is not None and self.sol.quick_unsat(st.pc, st.facts, c):
            return False
        r, m = self.sol.check(f, st.facts, timeout=5000)
        if r == 'sat' and st.model is None and not self.sol.fbox:
            st.model = m
            st.mlen = 0
        return r != 'unsat'

    def valid(self, st, c, timeout=None):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible(st)
        if self.sol.quick_unsat(st.pc, st.facts, Not(c)):
            return True
        r, _ = self.sol.check(st.pc + [Not(c)], st.facts, timeout=timeout or 8000)
        return r == 'unsat'

    # ------------------------------------------------------------------ memory
    def newobj(self, st, o):
        i = self.nextobj
        self.nextobj += 1
        st.mem[i] = o
        return i

    def addr(self, oid):
        return z3.BitVec('addr_%d' % oid, 64)

    def alloc_type(self, st, ty, kind, name='', zero=False):
        if ty.k == 'arr':
            leaf, n = ty, 1
            while leaf.k == 'arr':
                n *= leaf.n
                leaf = leaf.elem
            if leaf.k in ('int', 'fp') and leaf.size in (1, 2, 4, 8):
                w = leaf.size * 8
                return self.newobj(st, ArrayObj(leaf.size, bv(n), FConst(bv(0, w)) if zero else FBase(w, name='u'), kind, name))
        o = StructObj(ty.size, kind, name=name)
        if zero:
            o.default = 'zero'
        return self.newobj(st, o)

    def flat_const(self, c):
        """leaf constants with byte offsets"""
        out = []

        def go(c, off):
            if c[0] == 'agg':
                t = c[1]
                for i, e in enumerate(c[2]):
                    go(e, off + (t.offs[i] if t.k == 'struct' else i * t.elem.size))
            elif c[0] == 'zero':
                t = c[1]
                if t.k == 'struct':
                    for i, e in enumerate(t.elems):
                        go(('zero', e), off + t.offs[i])
                elif t.k == 'arr':
                    for i in range(t.n):
                        go(('zero', t.elem), off + i * t.elem.size)
                elif t.k == 'int':
                    out.append((off, t.size, ('int', 0, t.bits)))
                elif t.k == 'fp':
                    out.append((off, t.size, ('fp', 0, t.bits)))
                elif t.k == 'ptr':
                    out.append((off, 8, ('null',)))
            elif c[0] == 'int':
                out.append((off, max(1, c[2] // 8), c))
            elif c[0] == 'fp':
                out.append((off, c[2] // 8, c))
            else:
                out.append((off, 8, c))
        go(c, 0)
        return out

    def global_obj(self, st, name):
        if name in st.gobj:
            return st.gobj[name]
        g = self.mod.globals[name]
        ty = g['ty']
        isconst = g['const'] and g['init'] is not None
        leaf = ty
        while leaf.k == 'arr':
            leaf = leaf.elem
        if isconst:
            fl = self.flat_const(g['init'])
            if ty.k == 'arr' and leaf.k in ('int', 'fp') and all(x[2][0] in ('int', 'fp') for x in fl):
                vals = [x[2][1] for x in fl]
                o = ArrayObj(leaf.size, bv(len(vals)), FTable(vals, leaf.size * 8), 'global', name)
                o.ro = True
                oid = self.newobj(st, o)
            else:
                o = StructObj(ty.size, 'global', name=name)
                oid = self.newobj(st, o)
                st.gobj[name] = oid
                for off, sz, c in fl:
                    o.cells[off] = (sz, self.const(st, c, None))
                o.ro = True
        else:
            # mutable global: arbitrary contents (any history) unless it is zero-size
            oid = self.alloc_type(st, ty, 'global', name)
        st.gobj[name] = oid
        return oid

    def check_live(self, st, p, I, what):
        """obligations common to every access; returns the object or None when the path dies"""
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, type(p).__name__))
        if p.obj is None:
            self.oblige(st, FALSE, 'null-deref', I, what + ' through a null pointer')
            st.dead = True
            return None
        if p.nullc is not None:
            self.oblige(st, Not(p.nullc), 'null-deref', I, what + ' through a possibly null pointer')
        o = st.mem.get(p.obj)
        if o is None or not o.live:
            self.oblige(st, FALSE, 'use-after-free', I, what + ' of a dead object')
            st.dead = True
            return None
        if o.kind == 'tree':
            from . import tree
            o = tree.materialise(self, st, p.obj)
        return o

    def type_raw(self, st, oid, esz):
        o = st.w(oid)
        n = exact_div(o.bytes, esz)
        if n is None:
            # ceil? require divisibility
            n = simp(z3.UDiv(o.bytes, bv(esz)))
        o.esz = esz
        o.length = n
        o.content = FBase(esz * 8, name='raw')
        return o

    def load_bytes_array(self, st, o, p, size, I):
        esz = o.esz
        if p.sub == 0 and size == esz:
            self.oblige(st, z3.ULT(p.idx, o.length), 'bounds', I, 'load within the object')
            return o.content.sel(p.idx)
        if p.sub + size <= esz:
            self.oblige(st, z3.ULT(p.idx, o.length), 'bounds', I, 'load within the object')
            v = o.content.sel(p.idx)
            return simp(z3.Extract((p.sub + size) * 8 - 1, p.sub * 8, v))
        if p.sub == 0 and size % esz == 0:
            k = size // esz
            self.oblige(st, And(z3.ULT(p.idx, o.length), z3.ULE(bv(k), o.length - p.idx)), 'bounds', I, 'load within the object')
            parts = [o.content.sel(add(p.idx, bv(i))) for i in range(k)]
            return simp(z3.Concat(*reversed(parts)))
        raise Unsupported('unaligned array access')

    def load(self, st, p, ty, I):
        o = self.check_live(st, p, I, 'load')
        if o is None:
            return Undef(ty)
        size = ty.store
        if isinstance(o, ArrayObj):
            if o.esz is None:
                o = self.type_raw(st, p.obj, size)
            if ty.k == 'ptr':
                raise Unsupported('pointer loaded from a scalar array')
            v = self.load_bytes_array(st, o, p, size, I)
            return self.from_bits(v, ty)
        off = p.sub
        if not isc(p.idx) or cval(p.idx) != 0:
            raise Unsupported('symbolic offset into struct')
        if o.kind == 'inner':
            from . import tree
            return tree.inner_load(self, st, o, off, ty, I)
        if off < 0 or off + size > o.size:
            self.oblige(st, FALSE, 'bounds', I, 'load outside the object')
            st.dead = True
            return Undef(ty)
        return self.load_cell(st, p.obj, o, off, size, ty)

    def load_cell(self, st, oid, o, off, size, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(st, c[1], ty)
        if ty.k == 'struct':
            return [self.load_cell(st, oid, st.mem[oid], off + ty.offs[i], e.store, e) for i, e in enumerate(ty.elems)]
        # gather overlapping cells
        ov = [(a, s, v) for a, (s, v) in o.cells.items() if a < off + size and off < a + s]
        if not ov:
            if o.default == 'zero':
                return self.from_bits(bv(0, size * 8), ty) if ty.k != 'ptr' else NULL
            if ty.k == 'ptr':
                v = Undef(ty)
                return v
            v = self.from_bits(fresh('uninit', size * 8), ty)
            o = st.w(oid)
            o.cells[off] = (size, v)
            return v
        if ty.k == 'ptr':
            raise Unsupported('partial pointer load')
        parts = []
        pos = off
        for a, s, v in sorted(ov, key=lambda t: t[0]):
            if a > pos:
                parts.append(bv(0, (a - pos) * 8) if o.default == 'zero' else fresh('uninit', (a - pos) * 8))
                pos = a
            b = self.to_bits(st, v, s)
            lo = max(0, pos - a)
            hi = min(s, off + size - a)
            parts.append(z3.Extract(hi * 8 - 1, lo * 8, b) if (lo, hi) != (0, s) else b)
            pos = a + hi
        if pos < off + size:
            parts.append(bv(0, (off + size - pos) * 8) if o.default == 'zero' else fresh('uninit', (off + size - pos) * 8))
        v = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
        return self.from_bits(simp(v), ty)

    def to_bits(self, st, v, size):
        """value -> BV of size*8 bits"""
        if isinstance(v, Flt):
            return v.bits(st)
        if isinstance(v, Undef):
            return fresh('undef', size * 8)
        if isinstance(v, (Ptr, FnPtr)):
            if isinstance(v, Ptr) and v.obj is None:
                return bv(0, 64)
            raise Unsupported('pointer bytes')
        if z3.is_bool(v):
            return z3.If(v, bv(1, size * 8), bv(0, size * 8))
        n = v.size()
        if n < size * 8:
            v = z3.ZeroExt(size * 8 - n, v)
        return v

    def from_bits(self, v, ty):
        if ty.k == 'int':
            if ty.bits == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            if ty.bits < v.size():
                return simp(z3.Extract(ty.bits - 1, 0, v))
            return v
        if ty.k == 'fp':
            if ty.bits > 64:
                raise Unsupported('x87 float')
            return Flt(ty.bits, bits=v)
        if ty.k == 'struct':
            out = []
            for i, e in enumerate(ty.elems):
                out.append(self.from_bits(simp(z3.Extract((ty.offs[i] + e.store) * 8 - 1, ty.offs[i] * 8, v)), e))
            return out
        if ty.k == 'ptr':
            if isc(v) and cval(v) == 0:
                return NULL
        raise Unsupported('from_bits %r' % ty)

    def coerce(self, st, v, ty):
        if isinstance(v, Undef):
            return Undef(ty)
        if ty.k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if not isinstance(v, Flt) and not z3.is_bool(v) and isc(v) and cval(v) == 0:
                return NULL
            raise Unsupported('integer loaded as pointer')
        if isinstance(v, (Ptr, FnPtr)):
            if ty.k == 'int' and isinstance(v, Ptr) and v.obj is None:
                return bv(0, ty.bits)
            raise Unsupported('pointer loaded as integer')
        if ty.k == 'fp':
            if isinstance(v, Flt):
                return v
            return Flt(ty.bits, bits=self.to_bits(st, v, ty.store))
        if ty.k == 'int':
            if z3.is_bool(v) if not isinstance(v, Flt) else False:
                if ty.bits == 1:
                    return v
                return simp(z3.If(v, bv(1, ty.bits), bv(0, ty.bits)))
            b = v.bits(st) if isinstance(v, Flt) else v
            return self.from_bits(b, ty) if b.size() != ty.bits else b
        if ty.k == 'struct':
            return self.from_bits(self.to_bits(st, v, ty.store), ty)
        raise Unsupported('coerce to %r' % ty)

    def store(self, st, p, v, ty, I):
        o = self.check_live(st, p, I, 'store')
        if o is None:
            return
        size = ty.store
        if o.ro:
            self.oblige(st, FALSE, 'write-to-const', I, 'store to read-only object')
            st.dead = True
            return
        if isinstance(o, ArrayObj):
            if o.esz is None:
                o = self.type_raw(st, p.obj, size)
            b = self.to_bits(st, v, size)
            esz = o.esz
            if p.sub == 0 and size == esz:
                self.oblige(st, z3.ULT(p.idx, o.length), 'bounds', I, 'store within the object')
                o = st.w(p.obj)
                o.content = o.content.store(p.idx, b)
                return
            if p.sub == 0 and size % esz == 0:
                k = size // esz
                self.oblige(st, And(z3.ULT(p.idx, o.length), z3.ULE(bv(k), o.length - p.idx)), 'bounds', I, 'store within the object')
                o = st.w(p.obj)
                for i in range(k):
                    o.content = o.content.store(add(p.idx, bv(i)), simp(z3.Extract((i + 1) * esz * 8 - 1, i * esz * 8, b)))
                return
            if p.sub + size <= esz:
                self.oblige(st, z3.ULT(p.idx, o.length), 'bounds', I, 'store within the object')
                old = o.content.sel(p.idx)
                parts = []
                if p.sub + size < esz:
                    parts.append(z3.Extract(esz * 8 - 1, (p.sub + size) * 8, old))
                parts.append(b)
                if p.sub:
                    parts.append(z3.Extract(p.sub * 8 - 1, 0, old))
                o = st.w(p.obj)
                o.content = o.content.store(p.idx, simp(z3.Concat(*parts)))
                return
            raise Unsupported('unaligned array store')
        off = p.sub
        if not isc(p.idx) or cval(p.idx) != 0:
            raise Unsupported('symbolic offset into struct')
        if o.kind == 'inner':
            from . import tree
            return tree.inner_store(self, st, o, off, v, ty, I)
        if off < 0 or off + size > o.size:
            self.oblige(st, FALSE, 'bounds', I, 'store outside the object')
            st.dead = True
            return
        o = st.w(p.obj)
        self.put_cell(st, o, off, size, v, ty)

    def put_cell(self, st, o, off, size, v, ty):
        if ty is not None and ty.k == 'struct':
            if isinstance(v, Undef):
                v = [Undef(e) for e in ty.elems]
            for i, e in enumerate(ty.elems):
                self.put_cell(st, o, off + ty.offs[i], e.store, v[i], e)
            return
        for a in list(o.cells):
            s, old = o.cells[a]
            if a < off + size and off < a + s and not (a == off and s == size):
                if a >= off and a + s <= off + size:
                    del o.cells[a]
                else:
                    # split the overlapped scalar
                    b = self.to_bits(st, old, s)
                    del o.cells[a]
                    if a < off:
                        o.cells[a] = (off - a, simp(z3.Extract((off - a) * 8 - 1, 0, b)))
                    if a + s > off + size:
                        lo = off + size - a
                        o.cells[off + size] = (s - lo, simp(z3.Extract(s * 8 - 1, lo * 8, b)))
        o.cells[off] = (size, v)

    def free(self, st, p, kind, I):
        if isinstance(p, Undef):
            self.oblige(st, FALSE, 'bad-free', I, 'delete of an indeterminate pointer')
            st.dead = True
            return [st]
        if not isinstance(p, Ptr):
            raise Unsupported('delete of non-pointer')
        if p.obj is None:
            return [st]
        o = st.mem.get(p.obj)
        nz = TRUE if p.nullc is None else Not(p.nullc)
        if o is None or not o.live:
            self.oblige(st, Not(nz), 'double-free', I, 'delete of an object that is no longer alive')
            return [st]
        if o.kind in ('tree', 'inner'):
            raise Unsupported('delete of a node of an opaque tree')
        ok = o.kind == kind and p.sub == 0
        self.oblige(st, Implies(nz, And(z3.BoolVal(ok), p.idx == 0)), 'bad-free', I,
                    'delete of a pointer that was not obtained from the matching new')
        o = st.w(p.obj)
        o.live = False
        return [st]

    # ------------------------------------------------------------------ values
    def const(self, st, c, I):
        k = c[0]
        if k == 'int':
            if c[2] == 1:
                return TRUE if c[1] else FALSE
            return bv(c[1], c[2])
        if k == 'fp':
            if c[2] > 64:
                raise Unsupported('x87 constant')
            return Flt(c[2], bits=bv(c[1], c[2]))
        if k == 'null':
            return NULL
        if k == 'func':
            return FnPtr(c[1])
        if k == 'global':
            return self.as_ptr(st, self.global_obj(st, c[1]))
        if k in ('undef', 'poison'):
            return Undef(c[1])
        if k == 'zero':
            return self.zero_val(c[1])
        if k == 'agg':
            return [self.const(st, e, I) for e in c[2]]
        if k == 'cgep':
            ops = [self.value(st, o, I) for o in c[2]]
            return self.gep1(st, c[1], ops, I)
        raise Unsupported('constant %s' % (c,))

    def as_ptr(self, st, oid):
        return Ptr(oid)

    def zero_val(self, t):
        if t.k == 'int':
            return FALSE if t.bits == 1 else bv(0, t.bits)
        if t.k == 'fp':
            return Flt(t.bits, bits=bv(0, t.bits))
        if t.k == 'ptr':
            return NULL
        if t.k == 'struct':
            return [self.zero_val(e) for e in t.elems]
        raise Unsupported('zero %r' % t)

    def value(self, st, o, I):
        k = o[0]
        if k == 'inst':
            return st.locals[o[1]]
        if k == 'arg':
            return st.locals[('a', o[1])]
        return self.const(st, o, I)

    def num(self, v):
        """BV/Bool view of an integer operand"""
        if isinstance(v, Undef):
            return fresh('undef', v.ty.bits)
        return v

    def iv(self, st, o, I):
        return self.num(self.value(st, o, I))

    # ------------------------------------------------------------------ GEP
    def gep_terms(self, ety, idxs):
        """-> [(scale, BV64 term)], const"""
        terms = []
        const = 0
        t = ety

        def addi(scale, v):
            nonlocal const
            if isc(v):
                const += scale * signed(cval(v), v.size())
            else:
                terms.append((scale, z3.SignExt(64 - v.size(), v) if v.size() < 64 else v))
        addi(ety.size, self.num(idxs[0]))
        for v in idxs[1:]:
            v = self.num(v)
            if t.k == 'struct':
                n = cval(v)
                const += t.offs[n]
                t = t.elems[n]
            elif t.k in ('arr', 'vec'):
                addi(t.elem.size, v)
                t = t.elem
            else:
                raise Unsupported('gep into %r' % t)
        return terms, const

    def gep1(self, st, ety, ops, I):
        r = self.gep(st, ety, ops, I)
        if len(r) != 1:
            raise Unsupported('forking constant gep')
        return r[0][1]

    def gep(self, st, ety, ops, I):
        """list of (state, ptr)"""
        p = ops[0]
        if isinstance(p, Undef):
            raise Unsupported('gep on indeterminate pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % p)
        terms, const = self.gep_terms(ety, ops[1:])
        if p.obj is None:
            if not terms and const == 0:
                return [(st, p)]
            if not terms:
                return [(st, Ptr(None, p.idx, p.sub + const))]
            # null + symbolic: keep a null pointer with displacement
            t = p.idx
            for s_, v in terms:
                t = t + bv(s_) * v
            return [(st, Ptr(None, simp(t), p.sub + const))]
        o = st.mem[p.obj]
        if isinstance(o, ArrayObj):
            if o.esz is None:
                if ety.k in ('int', 'fp', 'ptr') and ety.size <= 8:
                    if ety.k == 'ptr':
                        raise Unsupported('array of pointers')
                    o = self.type_raw(st, p.obj, ety.size)
                else:
                    raise Unsupported('array of %r' % ety)
            esz = o.esz
            idx = p.idx
            sub = p.sub + const
            for s_, v in terms:
                if s_ % esz == 0:
                    q = s_ // esz
                    idx = idx + (v if q == 1 else bv(q) * v)
                else:
                    d = exact_div(simp(v * s_), esz)
                    if d is None:
                        raise Unsupported('byte offset into wider array')
                    idx = idx + d
            q = sub // esz
            if q:
                idx = idx + bv(q)
            return [(st, Ptr(p.obj, simp(idx), sub - q * esz, p.nullc))]
        # struct object
        if not terms:
            return [(st, Ptr(p.obj, p.idx, p.sub + const, p.nullc))]
        total = bv(0)
        for s_, v in terms:
            total = total + bv(s_) * v
        total = simp(total)
        res = []
        for val in self.enum_values(st, total, 16):
            s2 = st.copy() if True else st
            s2.assume(total == bv(val))
            res.append((s2, Ptr(p.obj, p.idx, p.sub + const + signed(val, 64), p.nullc)))
        if not res:
            st.dead = True
            return [(st, p)]
        return res

    def enum_values(self, st, t, limit):
        t = simp(t)
        if isc(t):
            return [cval(t)]
        vals = []
        extra = []
        while True:
            r, m = self.sol.check(st.pc + extra, st.facts, want_model=True)
            if r == 'unsat':
                return vals
            if r == 'unknown' or len(vals) >= limit:
                raise Unsupported('cannot enumerate index values')
            v = m.eval(t, model_completion=True).as_long()
            vals.append(v)
            extra.append(t != bv(v, t.size()))

    # ------------------------------------------------------------------ pointers
    def ptr_eq(self, a, b, st=None):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return z3.BoolVal(a.name == b.name)
            return FALSE
        if a.obj is None and b.obj is None:
            return simp(a.idx + bv(a.sub) == b.idx + bv(b.sub))
        if a.obj is None or b.obj is None:
            p = b if a.obj is None else a
            return FALSE if p.nullc is None else p.nullc
        if a.obj != b.obj and st is not None and any(x in st.mem and st.mem[x].kind == 'inner' for x in (a.obj, b.obj)):
            from . import tree
            return tree.node_eq(st, a, b)
        if a.obj == b.obj:
            na, nb = a.nullc, b.nullc
            e = simp(a.idx == b.idx) if a.sub == b.sub else FALSE
            if (na is None and nb is None) or (na is not None and nb is not None and na.eq(nb)):
                return e
            na = FALSE if na is None else na
            nb = FALSE if nb is None else nb
            return Or(And(na, nb), And(Not(na), Not(nb), e))
        if a.nullc is not None and b.nullc is not None:
            return And(a.nullc, b.nullc)
        return FALSE

    def ptr_int(self, st, p):
        if p.obj is None:
            return simp(p.idx + bv(p.sub))
        o = st.mem[p.obj]
        base = self.addr(p.obj)
        if p.nullc is not None:
            base = z3.If(p.nullc, bv(0), base)
        if isinstance(o, StructObj):
            return simp(base + bv(p.sub))
        esz = o.esz or 1
        return simp(base + bv(esz) * p.idx + bv(p.sub))

    def icmp(self, st, pred, a, b, I):
        if isinstance(a, Undef) and a.ty.k == 'ptr' or isinstance(b, Undef) and b.ty.k == 'ptr':
            return fresh('undefcmp', 1)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if pred == 'eq':
                return self.ptr_eq(a, b, st)
            if pred == 'ne':
                return Not(self.ptr_eq(a, b, st))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is None and b.obj is None:
                x, y = a.idx + bv(a.sub), b.idx + bv(b.sub)
                return simp({'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y), 'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y)}[pred])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and pred in _SWAP and (a.obj is None or b.obj is None):
                # (the null pointer orders before every other, as flat addresses do)
                if b.obj is None:
                    a, b, pred = b, a, _SWAP[pred]
                if isc(simp(a.idx)) and cval(simp(a.idx)) == 0 and a.sub == 0:
                    bnull = FALSE if b.nullc is None else b.nullc
                    return simp({'ult': Not(bnull), 'ule': TRUE, 'ugt': FALSE, 'uge': bnull}[pred])
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
                if a.sub == b.sub:
                    x, y = a.idx, b.idx
                elif isinstance(st.mem[a.obj], StructObj):
                    x, y = bv(a.sub), bv(b.sub)
                else:
                    esz = st.mem[a.obj].esz
                    x, y = a.idx * esz + a.sub, b.idx * esz + b.sub
                return simp({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
            self.oblige(st, FALSE, 'ptr-compare', I, 'relational comparison of unrelated pointers')
            return fresh('ptrcmp', 1)
        a, b = self.num(a), self.num(b)
        if z3.is_bool(a):
            a = z3.If(a, bv(1, 1), bv(0, 1))
            b = z3.If(b, bv(1, 1), bv(0, 1))
        f = {'eq': lambda: a == b, 'ne': lambda: Not(a == b), 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]
        return simp(f())

    def fcmp(self, pred, a, b):
        x, y = a.fp(), b.fp()
        un = Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'false':
            return FALSE
        if pred == 'true':
            return TRUE
        if pred == 'ord':
            return simp(Not(un))
        if pred == 'uno':
            return simp(un)
        base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ,
                'ne': lambda p, q: And(Not(un), Not(z3.fpEQ(p, q)))}[pred[1:]](x, y)
        if pred[0] == 'o':
            return simp(base)
        if pred == 'une':
            return simp(Not(z3.fpEQ(x, y)))
        return simp(Or(un, base))

    # ------------------------------------------------------------------ integer arithmetic
    def binop(self, st, I, a, b):
        r = self.binop0(st, I, a, b)
        if self.recs and not self.assume_mode and not self.in_body and I.op in ('add', 'xor', 'sub') and z3.is_bv(r) and r.size() == 64:
            return self.name_term(st, I.op, a, b, r)
        return r

    # ---- definitions: sums and exclusive-ors over recurrences get a name each (d == a + b), shared between the code and the
    # specification when the operands are equal under the path condition, so that deep mixing functions compare by name
    def canon_apps(self, st, t):
        sub = []
        for a in uf_apps(t):
            if a.num_args() != 1 or a.arg(0).sort() != BV64:
                continue
            reps = self.def_apps.setdefault(a.decl().name(), [])
            hit = None
            for r in reps:
                if r.eq(a):
                    hit = r
                    break
            if hit is None:
                for r in reps:
                    if self.valid(st, simp(r.arg(0) == a.arg(0)), timeout=2000):
                        hit = r
                        break
            if hit is None:
                reps.append(a)
            elif not hit.eq(a):
                sub.append((a, hit))
        return simp(subst(t, sub)) if sub else t

    def name_term(self, st, op, a, b, r):
        def deep(t):
            return any(nm.startswith(('rec!', 'def!')) for nm in free_syms(t))
        if isc(r) or not deep(r):
            return r
        a, b = self.canon_apps(st, a), self.canon_apps(st, b)
        if op != 'sub' and a.get_id() > b.get_id():
            a, b = b, a
        hit = None
        for (o, x, y, d, c) in self.defs:
            if o == op and (x.eq(a) and y.eq(b)):
                hit = (d, c)
                break
        if hit is None and op != 'sub':
            for (o, x, y, d, c) in self.defs:
                if o != op:
                    continue
                for p, q in ((x, y), (y, x)):
                    for u, v in ((a, b), (b, a)):
                        if hit is None and p.eq(u) and not deep(q) and not deep(v) and self.valid(st, simp(q == v), timeout=3000):
                            hit = (d, c)
        if hit is None:
            d = z3.BitVec('def!%d' % uid(), 64)
            c = d == (a + b if op == 'add' else a ^ b if op == 'xor' else a - b)
            self.defs.append((op, a, b, d, c))
            hit = (d, c)
        d, c = hit
        if not any(x is c for x in st.pc):
            st.pc.append(c)
        return d

    def binop0(self, st, I, a, b):
        op = I.op
        if z3.is_bool(a) or z3.is_bool(b):
            if op == 'and':
                return And(a, b) if True else None
            if op == 'or':
                return Or(a, b)
            if op == 'xor':
                if is_true(b):
                    return Not(a)
                return simp(z3.Xor(a, b))
            a = z3.If(a, bv(1, 1), bv(0, 1)) if z3.is_bool(a) else a
            b = z3.If(b, bv(1, 1), bv(0, 1)) if z3.is_bool(b) else b
        w = a.size()
        if op == 'add':
            if I.x.get('nsw'):
                self.oblige(st, And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), 'signed-overflow', I, 'add')
            return simp(a + b)
        if op == 'sub':
            if I.x.get('nsw'):
                self.oblige(st, And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), 'signed-overflow', I, 'sub')
            return simp(a - b)
        if op == 'mul':
            if I.x.get('nsw'):
                if isc(a) and isc(b):
                    v = signed(cval(a), w) * signed(cval(b), w)
                    self.oblige(st, z3.BoolVal(-(1 << (w - 1)) <= v < (1 << (w - 1))), 'signed-overflow', I, 'mul')
                else:
                    self.oblige(st, And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), 'signed-overflow', I, 'mul')
            return simp(a * b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, b != 0, 'div-by-zero', I, op)
            if op in ('sdiv', 'srem'):
                if not (isc(b) and signed(cval(b), w) != -1):
                    self.oblige(st, Not(And(a == bv(1 << (w - 1), w), b == bv(-1, w))), 'signed-overflow', I, op)
            if isc(a) and isc(b) and cval(b):
                return simp({'udiv': z3.UDiv(a, b), 'urem': z3.URem(a, b), 'sdiv': a / b, 'srem': z3.SRem(a, b)}[op])
            if op == 'sdiv' and I.x.get('exact') and isc(b):
                d = exact_div(a, signed(cval(b), w))
                if d is not None:
                    return simp(d)
            if self.div_elim and not self.sol.fbox and isc(b) and cval(b) != 0 and w >= 16:
                bvv = cval(b)
                if op in ('sdiv', 'srem'):
                    if signed(bvv, w) > 0 and (bvv & (bvv - 1)) and self.valid(st, a >= 0, timeout=3000):
                        q, r = self.udivrem(st, a, bvv)
                        return q if op == 'sdiv' else r
                    return simp(a / b if op == 'sdiv' else z3.SRem(a, b))
                if bvv & (bvv - 1):
                    q, r = self.udivrem(st, a, bvv)
                    return q if op == 'udiv' else r
            return simp({'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b,
                         'srem': lambda: z3.SRem(a, b)}[op]())
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, z3.ULT(b, bv(w, w)), 'shift-range', I, op)
            if op == 'shl':
                if I.x.get('nsw') and not (isc(a) and isc(b)):
                    pass
                return simp(a << b)
            if op == 'ashr' and I.x.get('exact') and isc(b):
                d = exact_div(a, 1 << cval(b))
                if d is not None:
                    return simp(d)
            return simp(z3.LShR(a, b) if op == 'lshr' else a >> b)
        if op == 'and':
            return simp(a & b)
        if op == 'or':
            return simp(a | b)
        if op == 'xor':
            return simp(a ^ b)
        raise Unsupported(op)

    def udivrem(self, st, a, c):
        """unsigned division by a constant: fresh quotient/remainder with their defining equation"""
        key = ('dr', a.get_id(), c)
        g = st.ghost.get(key)
        if g is not None:
            return g[0], g[1]
        w = a.size()
        ub = cval(a) if isc(a) else st.ghost.get(('ub', a.get_id()), ((1 << w) - 1,))[0]
        q, r = fresh('q', w), fresh('r', w)
        st.assume(z3.ULE(q, bv(ub // c, w)))
        st.assume(z3.ULT(r, bv(c, w)))
        st.assume(a == q * bv(c, w) + r)      # (no wrap-around: q <= ub/c, r < c; together they determine q and r)
        if ub // c * c + c - 1 > (1 << w) - 1:
            st.assume(z3.ULE(q * bv(c, w), a))
        st.ghost[('ub', q.get_id())] = (ub // c, q)
        st.ghost[key] = (q, r, a)
        return q, r

    def fbin(self, st, I, a, b):
        x, y = a.fp(), b.fp()
        op = I.op
        r = {'fadd': lambda: z3.fpAdd(RNE, x, y), 'fsub': lambda: z3.fpSub(RNE, x, y),
             'fmul': lambda: z3.fpMul(RNE, x, y), 'fdiv': lambda: z3.fpDiv(RNE, x, y)}.get(op)
        if r is None:
            raise Unsupported(op)
        h = self.fp_abstract
        if h is not None:
            v = h(self, st, op, [a, b], I)
            if v is not None:
                return v
        return Flt(a.w, fp=simp(r()))

    fp_abstract = None

    # ------------------------------------------------------------------ instruction dispatch
    def cast(self, st, I, v):
        op = I.op
        ty = I.ty
        if op in ('trunc', 'zext', 'sext'):
            v = self.num(v)
            if z3.is_bool(v):
                if op == 'trunc':
                    return v
                one = bv(1, ty.bits) if op == 'zext' else bv(-1, ty.bits)
                return simp(z3.If(v, one, bv(0, ty.bits)))
            if op == 'trunc':
                if ty.bits == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(ty.bits - 1, 0, v))
            d = ty.bits - v.size()
            return simp(z3.ZeroExt(d, v) if op == 'zext' else z3.SignExt(d, v))
        if op == 'bitcast':
            if ty.k == 'int' and isinstance(v, Flt):
                return v.bits(st)
            if ty.k == 'fp' and not isinstance(v, Flt):
                return Flt(ty.bits, bits=self.num(v))
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                return self.ptr_int(st, v)
            raise Unsupported('ptrtoint')
        if op == 'inttoptr':
            if isc(v) and cval(v) == 0:
                return NULL
            raise Unsupported('inttoptr')
        if isinstance(v, Undef):
            v = Flt(v.ty.bits, bits=fresh('undef', v.ty.bits)) if v.ty.k == 'fp' else self.num(v)
        if self.fp_abstract is not None:
            r = self.fp_abstract(self, st, op, [v], I)
            if r is not None:
                return r
        if op == 'fpext':
            return Flt(ty.bits, fp=simp(z3.fpFPToFP(RNE, v.fp(), fsort(ty.bits))))
        if op == 'fptrunc':
            return Flt(ty.bits, fp=simp(z3.fpFPToFP(RNE, v.fp(), fsort(ty.bits))))
        if op in ('sitofp', 'uitofp'):
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 8), bv(0, 8))
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return Flt(ty.bits, fp=simp(f(RNE, v, fsort(ty.bits))))
        if op in ('fptosi', 'fptoui'):
            x = v.fp()
            s = fsort(v.w)
            RTZ = z3.RTZ()
            if op == 'fptosi':
                # value truncates into [-2^(w-1), 2^(w-1)-1]  <=>  -2^(w-1)-1 < x < 2^(w-1)
                t = z3.fpRoundToIntegral(RTZ, x)
                lo = z3.FPVal(-(2.0 ** (ty.bits - 1)), s)
                hi = z3.FPVal(2.0 ** (ty.bits - 1), s)
                self.oblige(st, And(z3.fpGEQ(t, lo), z3.fpLT(t, hi)), 'float-to-int', I, 'converted value fits')
                return simp(z3.fpToSBV(RTZ, x, z3.BitVecSort(ty.bits)))
            t = z3.fpRoundToIntegral(RTZ, x)
            self.oblige(st, And(z3.fpGEQ(t, z3.FPVal(0.0, s)), z3.fpLT(t, z3.FPVal(2.0 ** ty.bits, s))), 'float-to-int', I,
                        'converted value fits')
            return simp(z3.fpToUBV(RTZ, x, z3.BitVecSort(ty.bits)))
        raise Unsupported(op)

    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
    CAST = {'trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr',
            'bitcast'}

    def flt(self, v):
        if isinstance(v, Undef):
            return Flt(v.ty.bits, bits=fresh('undef', v.ty.bits))
        return v

    def step(self, st, I):
        """executes a non-terminator; returns list of states"""
        op = I.op
        L = st.locals
        if op in self.BIN:
            L[I.id] = self.binop(st, I, self.iv(st, I.ops[0], I), self.iv(st, I.ops[1], I))
        elif op == 'icmp':
            L[I.id] = self.icmp(st, I.x['pred'], self.value(st, I.ops[0], I), self.value(st, I.ops[1], I), I)
        elif op == 'load':
            L[I.id] = self.load(st, self.value(st, I.ops[0], I), I.ty, I)
        elif op == 'store':
            self.store(st, self.value(st, I.ops[1], I), self.value(st, I.ops[0], I), I.x['vty'], I)
        elif op == 'getelementptr':
            res = self.gep(st, I.x['ety'], [self.value(st, o, I) for o in I.ops], I)
            for s, p in res:
                s.locals[I.id] = p
            return [s for s, _ in res]
        elif op == 'alloca':
            oid = self.alloc_type(st, I.x['aty'], 'alloca', I.name)
            L[I.id] = Ptr(oid)
            st.ghost['frame'] = st.ghost.get('frame', ()) + (oid,)
        elif op in self.CAST:
            L[I.id] = self.cast(st, I, self.value(st, I.ops[0], I))
        elif op == 'call':
            return self.do_call(st, I)
        elif op == 'select':
            c = self.iv(st, I.ops[0], I)
            a = self.value(st, I.ops[1], I)
            b = self.value(st, I.ops[2], I)
            return self.select(st, I, c, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            L[I.id] = self.fbin(st, I, self.flt(self.value(st, I.ops[0], I)), self.flt(self.value(st, I.ops[1], I)))
        elif op == 'fneg':
            a = self.flt(self.value(st, I.ops[0], I))
            w = a.w
            if a._b is not None:
                L[I.id] = Flt(w, bits=simp(a._b ^ bv(1 << (w - 1), w)))
            else:
                L[I.id] = Flt(w, fp=simp(z3.fpNeg(a.fp())))
        elif op == 'fcmp':
            L[I.id] = self.fcmp(I.x['pred'], self.flt(self.value(st, I.ops[0], I)), self.flt(self.value(st, I.ops[1], I)))
        elif op == 'freeze':
            v = self.value(st, I.ops[0], I)
            if isinstance(v, Undef):
                if I.ty.k == 'ptr':
                    raise Unsupported('freeze of undef pointer')
                v = self.from_bits(fresh('frz', max(8, I.ty.bits)), I.ty)
            L[I.id] = v
        elif op == 'extractvalue':
            v = self.value(st, I.ops[0], I)
            for k in I.x['idx']:
                if isinstance(v, Undef):
                    v = Undef(v.ty.elems[k])
                else:
                    v = v[k]
            L[I.id] = v
        elif op == 'insertvalue':
            agg = self.value(st, I.ops[0], I)
            v = self.value(st, I.ops[1], I)

            def ins(a, ty, idx):
                if isinstance(a, Undef):
                    a = [Undef(e) for e in (ty.elems if ty.k == 'struct' else [ty.elem] * ty.n)]
                a = list(a)
                if len(idx) == 1:
                    a[idx[0]] = v
                else:
                    a[idx[0]] = ins(a[idx[0]], ty.elems[idx[0]], idx[1:])
                return a
            L[I.id] = ins(agg, I.ty, I.x['idx'])
        else:
            raise Unsupported('instruction ' + op)
        return [st]

    def select(self, st, I, c, a, b):
        c = simp(c)
        if is_true(c):
            st.locals[I.id] = a
            return [st]
        if is_false(c):
            st.locals[I.id] = b
            return [st]
        if isinstance(a, Flt) and isinstance(b, Flt):
            if a._b is not None and b._b is not None:
                st.locals[I.id] = Flt(a.w, bits=ite(c, a._b, b._b))
            else:
                st.locals[I.id] = Flt(a.w, fp=ite(c, a.fp(), b.fp()))
            return [st]
        simple = lambda v: not isinstance(v, (Ptr, FnPtr, Undef, list, Flt))
        if simple(a) and simple(b) and not self.fork_select:
            st.locals[I.id] = simp(ite(c, a, b))
            return [st]
        out = []
        for cond, v in ((c, a), (Not(c), b)):
            if self.feasible(st, cond):
                s = st.copy()
                s.assume(cond)
                s.locals[I.id] = v
                out.append(s)
        return out

    fork_select = False

    # ------------------------------------------------------------------ control flow
    def branch(self, st, c):
        """[(state, taken)] feasible sides"""
        c = simp(c)
        if is_true(c):
            return [(st, True)]
        if is_false(c):
            return [(st, False)]
        if self.blog is not None:
            self.blog.append(c)
        out = []
        t = self.feasible(st, c)
        f = self.feasible(st, Not(c)) if t else True
        if t and f:
            s2 = st.copy()
            st.assume(c)
            s2.assume(Not(c))
            return [(st, True), (s2, False)]
        if t:
            st.assume(c)
            return [(st, True)]
        st.assume(Not(c))
        if not f:
            return []
        return [(st, False)]

    def eval_phis(self, F, st, b, prev):
        vals = {}
        for I in F.blocks[b].insts:
            if I.op != 'phi':
                break
            for (pb, o) in I.x['in']:
                if pb == prev:
                    vals[I.id] = self.value(st, o, I)
                    break
        return vals

    def exec_block(self, F, st, b, skip_phis):
        """-> list of ('goto', nb, st) | ('ret', st, val)"""
        insts = F.blocks[b].insts
        ip = 0
        while ip < len(insts) and insts[ip].op == 'phi':
            ip += 1
        out = []
        work = [(st, ip)]
        while work:
            st, ip = work.pop()
            while True:
                if st.dead:
                    break
                I = insts[ip]
                op = I.op
                if op == 'br':
                    if not I.ops:
                        out.append(('goto', I.x['succ'][0], st))
                    else:
                        c = self.iv(st, I.ops[0], I)
                        for s, tk in self.branch(st, c):
                            out.append(('goto', I.x['succ'][0 if tk else 1], s))
                    break
                if op == 'ret':
                    out.append(('ret', st, self.value(st, I.ops[0], I) if I.ops else None))
                    break
                if op == 'switch':
                    v = self.iv(st, I.ops[0], I)
                    if isc(v):
                        tgt = I.x['default']
                        for c, nb in I.x['cases']:
                            if c[1] == cval(v):
                                tgt = nb
                                break
                        out.append(('goto', tgt, st))
                        break
                    rest = []
                    for c, nb in I.x['cases']:
                        e = v == bv(c[1], v.size())
                        if self.blog is not None:
                            self.blog.append(e)
                        if self.feasible(st, e):
                            s = st.copy()
                            s.assume(e)
                            out.append(('goto', nb, s))
                        rest.append(Not(e))
                    if self.feasible(st, And(*rest) if rest else TRUE):
                        for r in rest:
                            st.assume(r)
                        out.append(('goto', I.x['default'], st))
                    break
                if op == 'unreachable':
                    self.oblige(st, FALSE, 'unreachable', I, 'code marked unreachable is reached')
                    st.dead = True
                    break
                res = self.step(st, I)
                res = [s for s in res if not s.dead]
                if not res:
                    break
                ip += 1
                for s in res[1:]:
                    work.append((s, ip))
                    self.npaths += 1
                st = res[0]
        if self.npaths > self.maxpaths:
            raise Unsupported('path limit')
        return out

    def run_region(self, F, st, b, prev, lp, preset):
        """execute from block b until the region (loop lp, or the whole function) is left"""
        loops = llir.find_loops(F)
        out = []
        work = [(st, b, prev, preset)]
        while work:
            st, b, prev, pre = work.pop()
            if st.dead:
                continue
            if lp is not None and not pre:
                if b not in lp.body:
                    out.append(('exit', b, prev, st))
                    continue
                if b == lp.header:
                    out.append(('back', b, prev, st))
                    continue
            inner = loops.get(b)
            if inner is not None and not pre:
                for o in self.do_loop(F, inner, st, prev):
                    if o[0] == 'exit':
                        work.append((o[3], o[1], o[2], False))
                    else:
                        out.append(o)
                continue
            if not pre:
                vals = self.eval_phis(F, st, b, prev)
                st.locals.update(vals)
            for o in self.exec_block(F, st, b, True):
                if o[0] == 'goto':
                    work.append((o[2], o[1], b, False))
                    if len(work) > 1:
                        self.npaths += 1
                else:
                    out.append(o)
        return out

    def call(self, F, st, args):
        """run the body of F; list of (state, retval)"""
        if F.decl or not F.blocks:
            raise Unsupported('no body for ' + F.dem)
        if len(self.stack) > 200:
            raise Unsupported('call depth')
        if self.symstack.count(F.name) > max(self.recursion_limit, self.unroll):
            if self.recursion_limit and self.bounded:
                self.hit_bound = True
                return []
            # (UNROLL(n) in a contract: exhaustive to depth n, and an error beyond it on a feasible path)
            if self.unroll and not self.feasible(st):
                return []
            raise Unsupported('recursion without contract: ' + F.dem)
        if 'irreducible' in llir.find_loops(F):
            raise Unsupported('irreducible control flow in ' + F.dem)
        self.entered.add(F.dem)
        if args and isinstance(args[0], Ptr) and args[0].obj is not None:
            self.note_instance(F, st, args[0])
        saved = st.locals
        savedframe = st.ghost.get('frame', ())
        st.locals = {('a', i): v for i, v in enumerate(args)}
        st.ghost['frame'] = ()
        self.stack.append(F.dem)
        self.symstack.append(F.name)
        try:
            res = []
            for o in self.run_region(F, st, 0, None, None, False):
                if o[0] != 'ret':
                    raise Unsupported('bad region exit')
                s, v = o[1], o[2]
                for oid in s.ghost.get('frame', ()):
                    if oid in s.mem:
                        q = s.w(oid)
                        q.live = False
                s.ghost['frame'] = savedframe
                s.locals = dict(saved)
                res.append((s, v))
            return res
        finally:
            self.stack.pop()
            self.symstack.pop()

    def note_instance(self, F, st, this):
        """a member function of a container class runs on *this: remember where that container lives"""
        from . import classes
        cls = classes.class_of_member(self, F)
        if cls is None or not isinstance(st.mem.get(this.obj), StructObj) or not isc(this.idx):
            return
        if not any(i[0] == this.obj and i[1] == this.sub for i in st.insts):
            st.insts.append((this.obj, this.sub, cls))

    def do_call(self, st, I):
        cal = I.x['callee']
        if cal[0] != 'func':
            v = self.value(st, cal, I)
            if isinstance(v, FnPtr):
                name = v.name
            else:
                raise Unsupported('indirect call')
        else:
            name = cal[1]
        F = self.mod.funcs.get(name)
        if F is None:
            raise Unsupported('unknown callee ' + name)
        args = [None if o[0] == 'md' else self.value(st, o, I) for o in I.ops]
        from . import builtins
        h = builtins.lookup(self, F)
        if h is not None:
            res = h(self, st, I, args)
        else:
            c = self.find_contract(F)
            if c is not None:
                self.used_contracts[c.name] = self.used_contracts.get(c.name, 0) + 1
                res = c.apply(self, st, F, args, I)
            else:
                res = self.call(F, st, args)
        out = []
        for s, v in res:
            if s.dead:
                continue
            if I.ty.k != 'void':
                s.locals[I.id] = v
            out.append(s)
        return out

    def find_contract(self, F):
        for c in self.contracts:
            if c.match(F) and not (self.verifying is not None and self.verifying is c and len([x for x in self.stack if x == F.dem]) == 0):
                return c
        return None

    # loops live in loops.py
    def do_loop(self, F, lp, st, prev):
        from . import loops
        return loops.do_loop(self, F, lp, st, prev)

