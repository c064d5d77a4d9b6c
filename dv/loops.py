"""Loop handling: invariants are synthesised (closed forms in a ghost iteration counter, bounds taken from the
loop's own comparisons, history facts, frame conditions) and then *checked*: every invariant is proved on entry and
proved to be preserved by one arbitrary iteration; what is not preserved is dropped (Houdini).  Only what survives
is used after the loop."""
import z3, time
from . import llir
from .terms import *
from .core import *
from .solver import QFact


class Var:
    __slots__ = ('kind', 'key', 'w', 'h', 'e', 'aff', 'tmpl', 'cf')


NMAX = 1 << 50


def val_term(v):
    """(kind, term, template) of a first-class value"""
    if isinstance(v, Ptr):
        return 'ptr', v.idx, v
    if isinstance(v, Flt):
        return 'flt', None, v
    if isinstance(v, (Undef, FnPtr, list)):
        return 'other', None, v
    if z3.is_bool(v):
        return 'bool', v, None
    return 'bv', v, None


def val_eq(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same_ptr(a, b)
    if isinstance(a, Flt) and isinstance(b, Flt):
        if a._b is not None and b._b is not None:
            return a._b.eq(b._b)
        return a._f is not None and b._f is not None and a._f.eq(b._f)
    if isinstance(a, (Ptr, Flt, Undef, FnPtr, list)) or isinstance(b, (Ptr, Flt, Undef, FnPtr, list)):
        return False
    return a.eq(b)


class LoopAbort(Exception):
    pass


def nw(n, w):
    if w == 64:
        return n
    if w < 64:
        return z3.Extract(w - 1, 0, n)
    return z3.ZeroExt(w - 64, n)


class Analysis:
    def __init__(self, ex, F, lp, st, prev):
        self.ex = ex
        self.F = F
        self.lp = lp
        self.st0 = st
        self.prev = prev
        self.id = uid()
        self.n = z3.BitVec('n!%d' % self.id, 64)
        self.phis = [I for I in F.blocks[lp.header].insts if I.op == 'phi']
        self.cells = set()      # (oid, off)
        self.arrays = set()     # oid
        self.insts = []         # (oid, off, cls)
        self.cands = []         # surviving scalar candidates: functions env -> Bool
        self.qcands = []
        self.affine = {}        # var key -> delta term
        self.aclosed = {}       # oid -> builder(n) -> FArr
        self.aframe = {}        # oid -> list of (idx0, step) for frame facts
        self.iclosed = {}       # inst key -> (len handled by vars) append value builder
        self.free_ok = True
        self.rec = {}           # var key -> (R, step): loop-carried value R(n) with R(0) = entry, R(n+1) = step(R(n), n)
        self.norec = False

    # ------------------------------------------------------------ header state
    def header_state(self, mode):
        """mode 'raw': everything modified is fresh; mode 'inv': closed forms + candidates"""
        ex = self.ex
        H = self.st0.copy()
        H.abstract = True
        H.pc.append(z3.ULE(self.n, bv(NMAX)))
        self.vars = []
        self.hbase = {}
        env = {}
        # instances first (they own cells and a buffer)
        for (oid, off, cls) in self.insts:
            v0 = cls.view(self.st0, oid, off)
            old = v0.buf
            key = ('ilen', oid, off)
            x = Var()
            x.kind, x.key, x.w, x.e, x.tmpl = 'ilen', key, 64, v0.len, (oid, off, cls)
            x.aff = self.affine.get(key) if mode == 'inv' else None
            x.h = None
            if x.aff is not None:
                ln = simp(x.e + self.n * x.aff)
                x.cf = ln
            else:
                ln = x.h = z3.BitVec('len!%d' % uid(), 64)
                x.cf = ln
            self.vars.append(x)
            ck = ('icap', oid, off)
            y = Var()
            y.kind, y.key, y.w, y.e, y.tmpl, y.aff = 'icap', ck, 64, v0.cap, (oid, off, cls), None
            y.h = z3.BitVec('cap!%d' % uid(), 64)
            y.cf = y.h
            self.vars.append(y)
            ikey = ('i', oid, off)
            if mode == 'inv' and ikey in self.iclosed:
                ct = self.iclosed[ikey](self.n)
            else:
                ct = FBase(cls.esz * 8, name='icont')
            self.hbase[ikey] = ct
            cls.make(ex, H, oid, off, 'L%d' % self.id, length=ln, content=ct, cap=y.h)
            if old is not None and old in H.mem:
                # the entry buffer may have been replaced: treat it as gone
                o = H.w(old)
                o.live = False
        inst_cells = set()
        for (oid, off, cls) in self.insts:
            for d in (cls.p, cls.c, cls.s):
                inst_cells.add((oid, off + d))
        # phis
        ev = self.ex.eval_phis(self.F, self.st0, self.lp.header, self.prev)
        for I in self.phis:
            e = ev[I.id]
            H.locals[I.id] = self.mkvar(H, ('phi', I.id), e, I.ty, mode)
        # cells
        for (oid, off) in sorted(self.cells):
            if (oid, off) in inst_cells:
                continue
            o = H.mem[oid]
            if off not in o.cells:
                continue
            sz, e = o.cells[off]
            o = H.w(oid)
            if isinstance(e, Undef):
                continue
            o.cells[off] = (sz, self.mkvar(H, ('cell', oid, off), e, None, mode))
        # arrays
        for oid in sorted(self.arrays):
            o = H.mem[oid]
            if not o.live:
                continue
            if o.esz is None:
                continue
            o = H.w(oid)
            if mode == 'inv' and oid in self.aclosed:
                o.content = self.aclosed[oid](self.n)
            else:
                o.content = FBase(o.esz * 8, name='acont')
            self.hbase[('a', oid)] = o.content
        return H

    def mkvar(self, H, key, e, ty, mode):
        k, t, tm = val_term(e)
        x = Var()
        x.key = key
        x.kind = k
        x.tmpl = tm
        x.e = t
        x.aff = None
        x.h = None
        if k == 'other':
            if isinstance(e, Undef):
                if e.ty.k in ('int',) and e.ty.bits > 1:
                    x.kind = 'bv'
                    x.e = fresh('undef', e.ty.bits)
                    t = x.e
                    k = 'bv'
                else:
                    raise LoopAbort('undefined loop-carried value')
            else:
                raise LoopAbort('loop-carried aggregate')
        if k == 'flt':
            x.h = z3.BitVec('hf!%d' % uid(), e.w)
            x.w = e.w
            x.cf = x.h
            self.vars.append(x)
            return Flt(e.w, bits=x.h)
        if k == 'bool':
            x.w = 1
            x.h = z3.Bool('hb!%d' % uid())
            x.cf = x.h
            self.vars.append(x)
            return x.h
        x.w = t.size()
        a = self.affine.get(key) if mode == 'inv' else None
        if a is not None:
            x.aff = a
            x.cf = simp(t + nw(self.n, x.w) * a)
        elif mode == 'inv' and key in self.rec:
            x.cf = self.rec[key][0](self.n)
            H.assume(Or(self.n != 0, x.cf == t))
        else:
            x.h = z3.BitVec('h!%d' % uid(), x.w)
            x.cf = x.h
        self.vars.append(x)
        if k == 'ptr':
            if e.obj is None:
                if key[0] == 'phi' or True:
                    # null-valued loop-carried pointer: only an unchanged null is supported
                    x.kind = 'nullptr'
                    x.cf = x.h = None
                    x.aff = None
                    self.vars.pop()
                    return e
            return Ptr(e.obj, x.cf, e.sub, e.nullc)
        return x.cf

    def get(self, st, x, nxt):
        """value of variable x in a back-edge state"""
        k = x.key
        if k[0] == 'phi':
            v = nxt[k[1]]
        elif k[0] == 'cell':
            c = st.mem[k[1]].cells.get(k[2])
            if c is None:
                raise LoopAbort('cell vanished')
            v = c[1]
        elif k[0] in ('ilen', 'icap'):
            oid, off, cls = x.tmpl
            vw = cls.view(st, oid, off)
            if vw is None:
                raise LoopAbort('instance not well formed at the back edge')
            return vw.len if k[0] == 'ilen' else vw.cap
        if x.kind == 'ptr':
            if not isinstance(v, Ptr) or v.obj != x.tmpl.obj or v.sub != x.tmpl.sub:
                raise LoopAbort('pointer changes object')
            a, b = v.nullc, x.tmpl.nullc
            if (a is None) != (b is None) or (a is not None and not a.eq(b)):
                raise LoopAbort('pointer nullness changes')
            return v.idx
        if x.kind == 'flt':
            return self.ex.flt(v).bits(st)
        if isinstance(v, Undef):
            return fresh('undef', x.w)
        if isinstance(v, (Ptr, list, FnPtr)):
            raise LoopAbort('value kind changes')
        return v

    def run_body(self, H, log=True):
        """-> (exits, rets, backs[(state, nxt)])"""
        ex = self.ex
        old = ex.blog
        ex.blog = []
        ex.in_body += 1
        try:
            outs = ex.run_region(self.F, H, self.lp.header, self.prev, self.lp, True)
            self.blog = ex.blog
        finally:
            ex.in_body -= 1
            if old is not None:
                old.extend(ex.blog)
            ex.blog = old
        exits, rets, backs = [], [], []
        for o in outs:
            if o[0] == 'back':
                s = o[3]
                nxt = ex.eval_phis(self.F, s, self.lp.header, o[2])
                backs.append((s, nxt))
            elif o[0] == 'exit':
                exits.append(o)
            else:
                rets.append(o)
        return exits, rets, backs

    # ------------------------------------------------------------ modification sets
    def discover(self):
        for rnd in range(8):
            H = self.header_state('raw')
            ref = {k: v for k, v in H.mem.items()}
            hl = len(H.pc)
            self.ex.assume_mode += 1
            try:
                exits, rets, backs = self.run_body(H)
            finally:
                self.ex.assume_mode -= 1
            grew = False
            allst = [b[0] for b in backs]
            for s in allst:
                for oid, o in ref.items():
                    b = s.mem.get(oid)
                    if b is o or b is None:
                        continue
                    if o.live and not b.live:
                        # freed in the body: must be the buffer of an instance
                        if not self.owner_inst(s, ref, oid):
                            raise LoopAbort('object freed in loop body')
                        grew |= self.add_inst(self.owner_inst(s, ref, oid))
                        continue
                    if isinstance(o, ArrayObj):
                        if o.esz is None and b.esz is not None and b.content.base() is b.content:
                            # typed lazily in the body
                            q = self.st0.w(oid) if oid in self.st0.mem else None
                            if q is not None:
                                q.esz, q.length, q.content = b.esz, b.length, b.content
                            grew = True
                            continue
                        if o.esz is None and b.esz is not None:
                            if oid in self.st0.mem:
                                self.ex.type_raw(self.st0, oid, b.esz)
                            self.arrays.add(oid)
                            grew = True
                            continue
                        if b.content is not o.content:
                            ow = self.owner_key(ref, oid)
                            if oid not in self.arrays and ow is None:
                                if oid not in self.st0.mem:
                                    raise LoopAbort('array created by loop analysis')
                                self.arrays.add(oid)
                                grew = True
                    else:
                        for off, (sz, v) in b.cells.items():
                            ov = o.cells.get(off)
                            if ov is None:
                                if oid in self.st0.mem and o.kind != 'alloca':
                                    pass
                                # newly written cell: give it an (indeterminate) entry value
                                if oid in self.st0.mem and off not in self.st0.mem[oid].cells:
                                    kk = val_term(v)[0]
                                    if kk in ('bv',):
                                        q = self.st0.w(oid)
                                        q.cells[off] = (sz, fresh('uninit', v.size()))
                                        self.cells.add((oid, off))
                                        grew = True
                                    # pointers / others written in the body but never read before: ignore at header
                                continue
                            if val_eq(ov[1], v):
                                continue
                            inst = self.inst_at(s, oid, off)
                            if inst is not None and isinstance(v, Ptr) and isinstance(ov[1], Ptr) and v.obj != ov[1].obj:
                                grew |= self.add_inst(inst)
                                continue
                            if inst is not None and any(i[0] == inst[0] and i[1] == inst[1] for i in self.insts):
                                continue
                            if (oid, off) not in self.cells:
                                self.cells.add((oid, off))
                                grew = True
            if not grew:
                self.raw = (H, hl, exits, rets, backs)
                return
        raise LoopAbort('modification set does not stabilise')

    def inst_at(self, s, oid, off):
        for (o, f, cls) in s.insts:
            if o == oid and f <= off < f + cls.size:
                return (o, f, cls)
        return None

    def owner_key(self, mem, bufid):
        for (o, f, cls) in self.insts:
            c = mem[o].cells.get(f + cls.p)
            if c and isinstance(c[1], Ptr) and c[1].obj == bufid:
                return (o, f)
        return None

    def owner_inst(self, s, mem, bufid):
        for (o, f, cls) in s.insts:
            if o in mem:
                c = mem[o].cells.get(f + cls.p)
                if c and isinstance(c[1], Ptr) and c[1].obj == bufid:
                    return (o, f, cls)
        return None

    def add_inst(self, inst):
        if any(i[0] == inst[0] and i[1] == inst[1] for i in self.insts):
            return False
        # representation must be well formed on entry
        if inst[2].view(self.st0, inst[0], inst[1]) is None:
            raise LoopAbort('instance not initialised at loop entry')
        for c, msg in inst[2].wf(self.ex, self.st0, inst[0], inst[1]):
            if not self.ex.valid(self.st0, c):
                raise LoopAbort('representation invariant not established before the loop: ' + msg)
        self.insts.append(inst)
        v = inst[2].view(self.st0, inst[0], inst[1])
        self.arrays.discard(v.buf)
        for d in (inst[2].p, inst[2].c, inst[2].s):
            self.cells.discard((inst[0], inst[1] + d))
        return True

    # ------------------------------------------------------------ closed forms
    def header_syms(self):
        return set(x.h.decl().name() for x in self.vars if x.h is not None)

    def is_old(self, t, allowed=()):
        """only symbols that exist before the loop header (or allowed ones)"""
        for nm in free_syms(t):
            if nm in allowed:
                continue
            if '!' in nm:
                k = nm.rsplit('!', 1)[1]
                if k.isdigit() and int(k) > self.id:
                    return False
            elif nm in fpb_syms and not self.is_old(fpb_syms[nm], allowed):
                return False
        return True

    def lagged(self, backs):
        """a variable that takes over the value of an affine one (`prev = cur`) is affine too: with v(n) its value
        after iteration n, v(n) = e + (n+1)*d for its entry value e gives the closed form e + n*d by induction"""
        n = self.n
        for rnd in range(4):
            sub = [(x.h, simp(x.e + nw(n, x.w) * self.affine[x.key])) for x in self.vars
                   if x.h is not None and x.key in self.affine]
            grew = False
            for x in self.vars:
                if x.h is None or x.kind in ('flt', 'bool') or x.key[0] == 'icap' or x.key in self.affine:
                    continue
                vs = [simp(subst(self.get(s, x, nxt), sub)) for s, nxt in backs]
                v = vs[0]
                if not all(u.eq(v) for u in vs[1:]) or not self.is_old(v, (n.decl().name(),)):
                    continue
                d = simp(subst(v, [(n, n + 1)]) - v)
                if not self.is_old(d):
                    continue
                r = simp(v - (x.e + nw(n + 1, x.w) * d))
                if isc(r) and cval(r) == 0:
                    self.affine[x.key] = d
                    grew = True
            if not grew:
                return

    def closed_forms(self):
        H, hl, exits, rets, backs = self.raw
        if not backs:
            return
        for x in self.vars:
            if x.h is None or x.kind in ('flt', 'bool') or x.key[0] == 'icap':
                continue
            d = None
            for s, nxt in backs:
                v = self.get(s, x, nxt)
                t = simp(v - x.h)
                if not self.is_old(t):
                    d = None
                    break
                if d is None:
                    d = t
                elif not d.eq(t):
                    d = None
                    break
            if d is not None:
                self.affine[x.key] = d
        self.lagged(backs)
        # substitution raw header symbols -> closed form in n
        n = self.n
        sub = []
        free = set()
        for x in self.vars:
            if x.h is None:
                continue
            if x.key in self.affine:
                sub.append((x.h, simp(x.e + nw(n, x.w) * self.affine[x.key])))
            else:
                free.add(x.h.decl().name())
        self.sub = sub
        self.free = free
        if self.ex.recur and not self.norec and len(backs) == 1:
            self.recurrences(backs[0])
        self.rawvars = list(self.vars)
        # arrays
        fsub = []
        hb = {}
        for key, c in self.hbase.items():
            if key[0] in ('a', 'i') and isinstance(c, FBase):
                hb[c.fn.name()] = (key, c)
        ientry = {}
        for (oid, off, cls) in self.insts:
            v0 = cls.view(self.st0, oid, off)
            ientry[('i', oid, off)] = v0.content if v0.content is not None else FConst(bv(0, cls.esz * 8))

        def conv(t):
            """express a body term through n and entry values; None when impossible.  Reads of arrays modified by
            the loop are guessed to see entry contents (checked later)."""
            t = subst(t, sub)
            for nm, (key, c) in hb.items():
                if nm in free_syms(t):
                    ent = self.st0.mem[key[1]].content if key[0] == 'a' else ientry[key]
                    try:
                        body = ent.sel(z3.Var(0, BV64))
                    except Exception:
                        return None
                    t = z3.substitute_funs(t, (c.fn, body))
            t = simp(t)
            return t if self.is_old(t, (n.decl().name(),)) else None
        self.conv = conv

        for oid in self.arrays:
            c = self.hbase.get(('a', oid))
            if c is None:
                continue
            writes = []
            ok = True
            for s, nxt in backs:
                x = s.mem[oid].content
                lst = []
                while x is not c:
                    if isinstance(x, FStore):
                        lst.append(x.i)
                        x = x.prev
                    else:
                        ok = False
                        break
                if not ok:
                    break
                for i in lst:
                    if not any(i.eq(j) for j in writes):
                        writes.append(i)
            if not ok or not writes:
                continue
            forms = []
            frames = []
            good = True
            for i in writes:
                ci = conv(i)
                if ci is None:
                    good = False
                    frames = None
                    break
                # value after the iteration at index i, per path
                val = None
                for s, nxt in reversed(backs):
                    v = s.mem[oid].content.sel(i)
                    if val is None:
                        val = v
                    else:
                        val = z3.If(And(*s.pc[hl:]), v, val)
                cv = conv(val)
                c0 = simp(subst(ci, [(n, bv(0))]))
                stp = simp(subst(ci, [(n, n + 1)]) - ci)
                if not isc(stp):
                    good = False
                    frames = None
                    break
                stp = signed(cval(stp), 64)
                if stp not in (1, -1, 0):
                    good = False
                    frames = None
                    break
                frames.append((c0, stp))
                if cv is None:
                    good = False
                else:
                    forms.append((c0, stp, cv))
            if frames is not None:
                self.aframe[oid] = frames
            if good:
                ent = self.st0.mem[oid].content

                def build(nn, forms=forms, ent=ent):
                    r = ent
                    for c0, stp, cv in reversed(forms):
                        if stp == 1:
                            r = FCond(r, lambda j, c0=c0, nn=nn: z3.ULT(j - c0, nn),
                                      lambda j, c0=c0, cv=cv: simp(subst(cv, [(n, simp(j - c0))])))
                        elif stp == -1:
                            r = FCond(r, lambda j, c0=c0, nn=nn: z3.ULT(c0 - j, nn),
                                      lambda j, c0=c0, cv=cv: simp(subst(cv, [(n, simp(c0 - j))])))
                        else:
                            r = FCond(r, lambda j, c0=c0, nn=nn: And(j == c0, nn != 0),
                                      lambda j, cv=cv, nn=nn: simp(subst(cv, [(n, simp(nn - 1))])))
                    return r
                self.aclosed[oid] = build
        # instances: append-only template
        for (oid, off, cls) in self.insts:
            key = ('ilen', oid, off)
            d = self.affine.get(key)
            hview_len = [x for x in self.rawvars if x.key == key][0].h
            e = [x for x in self.rawvars if x.key == key][0].e
            v0 = cls.view(self.st0, oid, off)
            ent = v0.content if v0.content is not None else FConst(bv(0, cls.esz * 8))
            if d is not None and isc(d) and cval(d) == 1:
                val = None
                for s, nxt in reversed(backs):
                    vw = cls.view(s, oid, off)
                    if vw is None or vw.content is None:
                        val = None
                        break
                    v = simp(vw.content.sel(hview_len))
                    val = v if val is None else z3.If(And(*s.pc[hl:]), v, val)
                    if val.eq(v):
                        val = v
                cv = conv(simp(val)) if val is not None else None
                if cv is None and val is not None:
                    # different paths give the same value: try the first path alone
                    s, nxt = backs[0]
                    cv = conv(simp(cls.view(s, oid, off).content.sel(hview_len)))
                if cv is not None:
                    self.iclosed[('i', oid, off)] = lambda nn, e=e, ent=ent, cv=cv: FFun(
                        cls.esz * 8, lambda j: ite(simp(z3.ULT(j, e)), ent.sel(j), simp(subst(cv, [(n, simp(j - e))]))))
            elif d is not None and isc(d) and cval(d) == 0:
                self.iclosed[('i', oid, off)] = lambda nn, ent=ent: ent

    # ------------------------------------------------------------ recurrences
    def recurrences(self, back):
        """loop-carried values that have no closed form, but whose next value is a function of themselves, the iteration
        counter and values from before the loop: named R(n).  A recurrence proved to start equal to and step like an earlier one is
        the same function of n (this is what relates a loop of the code to a loop of the specification)."""
        ex = self.ex
        s, nxt = back
        n = self.n
        S = {}
        for x in self.vars:
            if x.h is not None and x.kind == 'bv' and x.key not in self.affine and x.key[0] in ('phi', 'cell'):
                S[x.key] = (x, simp(subst(self.get(s, x, nxt), self.sub)))
        while True:
            allowed = set(x.h.decl().name() for x, t in S.values()) | {n.decl().name()}
            bad = [k for k, (x, t) in S.items() if not self.is_old(t, allowed)]
            if not bad:
                break
            for k in bad:
                del S[k]
        # groups of mutually dependent values
        groups = []
        left = list(S)
        while left:
            g = [left.pop(0)]
            grew = True
            while grew:
                grew = False
                for k in list(left):
                    x, t = S[k]
                    if any(S[j][0].h.decl().name() in free_syms(t) or x.h.decl().name() in free_syms(S[j][1]) for j in g):
                        g.append(k)
                        left.remove(k)
                        grew = True
            groups.append(g)
        for g in groups:
            xs = [S[k][0] for k in g]
            steps = [S[k][1] for k in g]
            m = None
            for old in ex.recs:
                m = self.match_rec(old, xs, steps)
                if m is not None:
                    break
            if m is None:
                fs = [z3.Function('rec!%d' % uid(), BV64, z3.BitVecSort(x.w)) for x in xs]
                ps = [z3.BitVec('recp!%d' % uid(), x.w) for x in xs]
                nn = z3.BitVec('recn!%d' % uid(), 64)
                ex.recs.append((fs, ps, nn, [x.e for x in xs],
                                [simp(subst(t, [(x.h, p) for x, p in zip(xs, ps)] + [(n, nn)])) for t in steps]))
                m = fs
            for x, t, f in zip(xs, steps, m):
                self.rec[x.key] = (f, t)
        self.rech = [(S[k][0].h, k) for k in S]
        for k in S:
            self.free.discard(S[k][0].h.decl().name())

    def match_rec(self, old, xs, steps):
        ex = self.ex
        fs, ps, nn, es, ts = old
        if len(fs) != len(xs):
            return None
        perm = []
        for x in xs:
            hit = None
            for i in range(len(fs)):
                if i not in perm and ps[i].size() == x.w and ex.valid(self.st0, simp(x.e == es[i]), timeout=10000):
                    hit = i
                    break
            if hit is None:
                return None
            perm.append(hit)
        sub = [(x.h, ps[i]) for x, i in zip(xs, perm)] + [(self.n, nn)]
        for x, t, i in zip(xs, steps, perm):
            if not ex.valid(self.st0, simp(subst(t, sub) == ts[i]), timeout=20000):
                return None
        return [fs[i] for i in perm]

    # ------------------------------------------------------------ candidates
    def atoms(self):
        seen = {}

        def go(c):
            k = c.decl().kind() if z3.is_app(c) else None
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES):
                for a in c.children():
                    if z3.is_bool(a):
                        go(a)
                return
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT,
                     z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) and z3.is_bv(c.arg(0)):
                a, b = c.arg(0), c.arg(1)
                seen[(a.get_id(), b.get_id())] = (a, b)
        for c in self.blog_all:
            go(c)
        return list(seen.values())

    def make_candidates(self):
        n = self.n
        H, hl, exits, rets, backs = self.raw
        self.blog_all = list(self.blog)
        hs = self.header_syms()
        allowed = hs | {n.decl().name()}
        forms = {}

        self.weak = set()

        def addc(f, weak=False):
            f = simp(f)
            if z3.is_true(f) or z3.is_false(f):
                return
            forms[f.get_id()] = f
            if weak:
                self.weak.add(f.get_id())
        sub = self.sub
        # instance cap / len pairs are part of the representation invariant already
        for a, b in self.atoms():
            if not self.is_old(a, hs) or not self.is_old(b, hs):
                continue
            a2, b2 = simp(subst(a, sub)), simp(subst(b, sub))
            names = free_syms(a2) | free_syms(b2)
            if not (names & (self.free | {n.decl().name()})):
                continue
            if any(nm.startswith(('acont', 'icont')) for nm in names):
                continue
            # move everything to one side for linear atoms so that both orientations appear naturally
            la, ca = lin(a2)
            lb, cb = lin(b2)
            pairs = [(a2, b2)]
            # isolate: (a - b) split by sign
            w = a2.size()
            diff = simp(a2 - b2)
            ld, cd = lin(diff)
            pos = {i: (co, x) for i, (co, x) in ld.items() if signed(co, w) > 0}
            neg = {i: ((-signed(co, w)) % (1 << w), x) for i, (co, x) in ld.items() if signed(co, w) < 0}
            cs = signed(cd, w)
            P = from_lin(pos, cs if cs > 0 else 0, w)
            N = from_lin(neg, -cs if cs < 0 else 0, w)
            pairs.append((simp(P), simp(N)))
            for p, q in pairs:
                for x, y in ((p, q), (q, p)):
                    addc(z3.ULE(x, y), True)
                    addc(x <= y, True)
                    addc(z3.ULT(x, y))
                    addc(x < y)
                addc(p != q)
        for x in self.rawvars:
            if x.kind in ('flt',) or x.key in self.rec:
                continue
            if x.kind == 'bool':
                addc(x.h == x.e)
                addc(x.h)
                addc(z3.Not(x.h))
                continue
            t = simp(subst(x.h, sub)) if x.h is not None else None
            if t is None:
                continue
            e = x.e
            addc(z3.ULE(t, e))
            addc(z3.UGE(t, e))
            addc(t <= e)
            addc(t >= e)
            if x.kind != 'ptr':
                addc(t >= 0)
                addc(t > 0)
            if x.h is not None and x.key not in self.affine:
                addc(t == e)
            if x.kind == 'ptr':
                o = self.st0.mem.get(x.tmpl.obj)
                if isinstance(o, ArrayObj) and o.length is not None:
                    addc(z3.ULE(t, o.length))
                    addc(z3.ULT(t, o.length))
                    addc(t >= 0)
                    addc(z3.And(t >= bv(-1), t < o.length))
            if x.key[0] == 'ilen':
                addc(z3.ULE(t, bv(1 << 40)))
        # bounds of n
        for k in ((1 << 15) - 1, (1 << 31) - 1, (1 << 32) - 1, 1 << 41, 1 << 45):
            addc(z3.ULE(n, bv(k)))
        # pairwise: free vs affine/free/entry values of the same width
        ts = []
        for x in self.rawvars:
            if x.kind in ('flt', 'bool') or x.h is None or x.key in self.rec:
                continue
            ts.append((x, simp(subst(x.h, sub))))
        for i, (x, t) in enumerate(ts):
            for y, u in ts[i + 1:]:
                if x.w != y.w or x.kind != y.kind:
                    continue
                if x.key in self.affine and y.key in self.affine:
                    continue
                if x.kind == 'ptr' and x.tmpl.obj != y.tmpl.obj:
                    continue
                addc(z3.ULE(t, u))
                addc(z3.ULE(u, t))
                addc(t <= u)
                addc(u <= t)
                addc(t < u)
                addc(u < t)
                addc(t == u)
                # conserved sums/differences
                addc(simp(t + u) == simp(x.e + y.e))
                addc(simp(t - u) == simp(x.e - y.e))
        for h in self.ex.hint_candidates:
            for f in h(self):
                addc(f)
        self.cands = list(forms.values())
        self.history(backs, hl)
        self.accumulators()

    def history(self, backs, hl):
        """facts about all completed iterations: forall m < n. (path condition of iteration m)"""
        n = self.n
        self.hist = []
        alts = []
        for s, nxt in backs:
            cs = []
            for c in s.pc[hl:]:
                cc = self.conv(c)
                if cc is not None and n.decl().name() in free_syms(cc):
                    cs.append(cc)
            alts.append(cs)
        if not alts:
            return
        if len(alts) == 1:
            fs = alts[0]
        else:
            fs = []
            # common conjuncts individually, plus the disjunction when every path has something
            for c in alts[0]:
                if all(any(c.eq(d) for d in a) for a in alts[1:]):
                    fs.append(c)
            if all(alts):
                fs.append(z3.simplify(z3.Or(*[z3.And(*a) if len(a) > 1 else a[0] for a in alts])))
        for f in fs:
            trig = {}
            for a in uf_apps(f):
                if a.num_args() != 1 or a.arg(0).sort() != BV64:
                    continue
                r, k = lin(a.arg(0))
                e = r.get(n.get_id())
                if e is None:
                    continue
                co = signed(e[0], 64)
                if co not in (1, -1):
                    continue
                rest = simp(a.arg(0) - bv(co) * n)
                if n.decl().name() in free_syms(rest):
                    continue
                trig[a.decl().name()] = (lambda t, rest=rest, co=co: (t - rest) if co == 1 else (rest - t))
            if trig:
                self.hist.append((trig, f))

    def bool_conds(self):
        """conditions the body decides on: branch conditions and select conditions inside loop-carried values"""
        H, hl, exits, rets, backs = self.raw
        seen = {}
        todo = list(self.blog_all)
        for s, nxt in backs:
            todo += s.pc[hl:]
            for x in self.rawvars:
                try:
                    v = self.get(s, x, nxt)
                except LoopAbort:
                    continue
                if v is not None:
                    todo.append(v)
        done = set()
        while todo:
            t = todo.pop()
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            if z3.is_bool(t):
                k = t.decl().kind() if z3.is_app(t) else None
                if k == z3.Z3_OP_NOT:
                    todo.append(t.arg(0))
                    continue
                if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES):
                    seen[t.get_id()] = t
            todo.extend(t.children())
        return list(seen.values())

    def accumulators(self):
        """candidate facts relating a selected element to all elements seen so far: a decision C(selected, cursor) of the
        body did not hold (or held) for every cursor position already passed"""
        n = self.n
        self.qc = []
        free = [x for x in self.rawvars if x.h is not None and x.key not in self.affine and x.kind in ('ptr', 'bv') and x.w in (32, 64)]
        aff = [x for x in self.rawvars if x.h is not None and x.key in self.affine and x.kind in ('ptr', 'bv')]
        if not free or not aff:
            return
        conds = self.bool_conds()

        def ext(t):
            return t if t.size() == 64 else z3.SignExt(64 - t.size(), t)
        for x in free:
            for y in aff:
                if x.w != y.w:
                    continue
                for c in conds[:12]:
                    ax = [a for a in uf_apps(c) if a.num_args() == 1 and x.h.decl().name() in free_syms(a)]
                    ay = [a for a in uf_apps(c) if a.num_args() == 1 and y.h.decl().name() in free_syms(a)]
                    if not ax or not ay or any(a.decl().name().startswith(('acont', 'icont')) for a in ax + ay):
                        continue
                    sy = self.trig_shift(ay, y.h)
                    sx = self.trig_shift(ax, x.h)
                    if not sy or not sx:
                        continue
                    w = x.w
                    # the body may look at the element s places from the cursor (`*++p`): count elements, not cursors
                    for s in set([0, self.const_shift(ay, y.h)]):
                        self.accumulate(x, y, sx, sy, c, x.e, w, s, ext)

    def accumulate(self, x, y, sx, sy, c, lo0, w, s, ext):
        lo = simp(lo0 - bv(s, w))
        sh = bv(s, w)

        def inst(xt, yt):
            return subst(c, [(x.h, xt), (y.h, yt)])

        def last(xv):
            return ext(simp(xv - sh))
        for neg in (True, False):
            N = Not if neg else (lambda t: t)
            self.qc.append((x, y, sy, lambda i, xv, yv, N=N: Implies(
                And(ext(lo) <= i, i < ext(yv)), N(inst(xv, nw(i, w))))))
            self.qc.append((x, y, sy, lambda i, xv, yv, N=N: Implies(
                And(ext(lo) <= i, i < last(xv)), N(inst(xv, nw(i, w))))))
            self.qc.append((x, y, sy, lambda i, xv, yv, N=N: Implies(
                And(last(xv) < i, i < ext(yv)), N(inst(xv, nw(i, w))))))
            # elements passed over as the selected one, with the present selection in the place of the cursor
            self.qc.append((x, y, sx, lambda i, xv, yv, N=N: Implies(
                And(ext(lo0) <= i, i < ext(xv)), N(inst(nw(i, w), simp(xv - sh))))))
            self.qc.append((x, y, sx, lambda i, xv, yv, N=N: Implies(
                And(ext(lo0) <= i, i < ext(simp(yv + sh))), N(inst(nw(i, w), simp(xv - sh))))))

    def const_shift(self, apps, h):
        for a in apps:
            if a.arg(0).sort() != BV64:
                continue
            r = simp(a.arg(0) - (h if h.size() == 64 else z3.SignExt(64 - h.size(), h)))
            if isc(r):
                v = signed(cval(r), 64)
                return v if -8 <= v <= 8 else 0
        return 0

    def trig_shift(self, apps, h):
        trig = {}
        for a in apps:
            if a.arg(0).sort() != BV64:
                continue
            if h.size() == 64:
                rest = simp(a.arg(0) - h)
            else:
                rest = simp(a.arg(0) - z3.SignExt(64 - h.size(), h))
            if h.decl().name() in free_syms(rest):
                continue
            trig[a.decl().name()] = (lambda t, rest=rest: t - rest)
        return trig

    # ------------------------------------------------------------ checking
    def entry_env(self):
        sub = [(self.n, bv(0))]
        for x in self.rawvars:
            if x.h is not None and x.key not in self.affine:
                sub.append((x.h, x.e))
        return sub

    def run(self):
        ex = self.ex
        self.discover()
        H, hl, exits, rets, backs = self.raw
        if not backs:
            # the body never loops back on any feasible path: run it once concretely
            return None
        self.closed_forms()
        self.make_candidates()
        # free symbols are renamed at every header_state; candidates are stored over the raw ones
        rawh = {x.key: x.h for x in self.rawvars if x.h is not None}
        # entry check
        es = self.entry_env()
        st0 = self.st0
        keep = []
        for c in self.cands:
            c0 = simp(subst(c, es))
            if z3.is_true(c0):
                keep.append(c)
            elif not z3.is_false(c0):
                keep.append((c, c0))
        # batch: check all non-trivial ones, dropping the false ones by model
        cands = self.batch_valid(st0, [(k, None) if not isinstance(k, tuple) else k for k in keep])
        # bounds that only hold once the loop has been entered
        kept = set(c.get_id() for c in cands)
        cands += [Or(self.n == 0, c) for c in self.cands if c.get_id() in self.weak and c.get_id() not in kept]
        qcs = []
        for (x, y, d, f) in self.qc:
            k = fresh('k', 64)
            yv = y.e
            if ex.valid(st0, f(k, x.e, yv), timeout=3000):
                qcs.append((x, y, d, f))
        aok = dict(self.aclosed)
        iok = dict(self.iclosed)
        for rnd in range(12):
            self.aclosed, self.iclosed = aok, iok
            Hs = self.header_state('inv')
            cur = {x.key: x for x in self.vars}
            ren = [(rawh[k], cur[k].h) for k in rawh if k in cur and cur[k].h is not None]
            ren += [(rawh[k], cur[k].cf) for k in self.rec]
            self.assume_inv(Hs, cands, qcs, ren, cur)
            for oid in list(self.arrays):
                self.frame_fact(Hs, oid)
            snap = Hs.copy()
            ex.assume_mode += 1
            try:
                exits, rets, backs = self.run_body(Hs)
            finally:
                ex.assume_mode -= 1
            changed = False
            n1 = simp(self.n + 1)
            for s, nxt in backs:
                bsub = [(self.n, n1)]
                vals = {}
                for x in self.vars:
                    v = self.get(s, x, nxt)
                    vals[x.key] = v
                    if x.h is not None:
                        bsub.append((rawh.get(x.key, x.h), v))
                    elif x.key in self.rec:
                        bsub.append((rawh[x.key], v))
                for k, (f, t) in self.rec.items():
                    want = simp(subst(t, [(h, self.rec[k2][0](self.n)) for h, k2 in self.rech]))
                    if not want.eq(simp(vals[k])) and not ex.valid(s, vals[k] == want):
                        raise LoopAbort('recurrence not preserved')
                # closed forms of scalars
                for x in self.vars:
                    if x.aff is not None:
                        g = simp(vals[x.key] == simp(subst(x.cf, [(self.n, n1)])))
                        if not ex.valid(s, g):
                            del self.affine[x.key]
                            raise LoopAbort('closed form not preserved')
                # instance representation invariant
                for (oid, off, cls) in self.insts:
                    for c, msg in cls.wf(ex, s, oid, off):
                        if not ex.valid(s, c):
                            raise LoopAbort('representation invariant not preserved: ' + msg)
                # arrays
                for oid in list(self.arrays):
                    if oid in aok:
                        j = fresh('j', 64)
                        o = s.mem[oid]
                        want = aok[oid](n1).sel(j)
                        got = o.content.sel(j)
                        if not ex.valid(s, Implies(z3.ULT(j, o.length), got == want)):
                            del aok[oid]
                            changed = True
                    elif oid in self.aframe:
                        j = fresh('j', 64)
                        o = s.mem[oid]
                        got = o.content.sel(j)
                        if not ex.valid(s, self.frame_cond(oid, j, n1, got)):
                            del self.aframe[oid]
                            changed = True
                for (oid, off, cls) in self.insts:
                    key = ('i', oid, off)
                    if key in iok:
                        j = fresh('j', 64)
                        vw = cls.view(s, oid, off)
                        want = iok[key](n1).sel(j)
                        if vw.content is None or not ex.valid(s, Implies(z3.ULT(j, vw.len), vw.content.sel(j) == want)):
                            del iok[key]
                            changed = True
                # candidates
                pairs = []
                for c in cands:
                    g = simp(subst(c, bsub))
                    pairs.append((c, None if z3.is_true(g) else g))
                new = self.batch_valid(s, pairs)
                if len(new) != len(cands):
                    changed = True
                    cands = new
                nq = []
                for q in qcs:
                    x, y, d, f = q
                    k = fresh('k', 64)
                    if ex.valid(s, f(k, vals[x.key], vals[y.key]), timeout=4000):
                        nq.append(q)
                    else:
                        changed = True
                qcs = nq
            if not changed:
                break
        else:
            raise LoopAbort('invariants do not stabilise')
        # termination: the iteration counter is bounded
        term = ex.valid(snap, z3.ULE(self.n, bv(1 << 45)))
        if not term:
            term = self.measure(snap, backs, cands, ren)
        if not term:
            self.noterm = True
        # final run with obligations
        self.header_final = snap
        ex.loop_report.append(dict(fn=self.F.dem, closed=len(self.affine), invariants=len(cands), facts=len(self.hist) + len(qcs),
                                   arrays=len(aok), terminates=bool(term)))
        if not term and not ex.assume_mode:
            I = self.F.blocks[self.lp.header].insts[-1]
            s = snap.copy()
            ex.oblige(s, z3.ULE(self.n, bv(1 << 45)), 'termination', I, 'loop terminates')
        exits, rets, backs = self.run_body(snap)
        return exits + rets

    def measure(self, snap, backs, cands, ren):
        """look for a well-founded measure among the differences of the loop's comparisons and free variables"""
        ex = self.ex
        meas = []
        cur = {x.key: x for x in self.vars}
        for x in self.vars:
            if x.kind == 'bv' and x.h is not None:
                meas.append(x.h)
        vs = [x for x in self.vars if x.kind in ('bv', 'ptr')]
        for x in vs:
            for y in vs:
                if x is not y and x.w == y.w and (x.h is not None or y.h is not None):
                    meas.append(simp(x.cf - y.cf))
        for a, b in self.atoms()[:10]:
            pass
        for m in meas[:30]:
            ok = True
            for s, nxt in backs:
                bs = [(self.n, simp(self.n + 1))]
                for x in self.vars:
                    if x.h is not None:
                        bs.append((x.h, self.get(s, x, nxt)))
                m2 = simp(subst(m, bs))
                if not ex.valid(s, z3.ULT(m2, m), timeout=2000):
                    ok = False
                    break
            if ok:
                return True
        return False

    def assume_inv(self, H, cands, qcs, ren, cur):
        for c in cands:
            H.assume(simp(subst(c, ren)))
        n = self.n
        for trig, f in self.hist:
            H.facts.append(QFact(trig, lambda m, f=f: Implies(z3.ULT(m, n), simp(subst(f, [(n, m)]))), 'history'))
        for (x, y, d, f) in qcs:
            xv, yv = cur[x.key].cf, cur[y.key].cf
            H.facts.append(QFact(d, lambda i, f=f, xv=xv, yv=yv: f(i, xv, yv), 'accumulator'))
        for (oid, off, cls) in self.insts:
            pass

    def frame_cond(self, oid, j, n, got):
        ent = self.st0.mem[oid].content
        wr = []
        for c0, stp in self.aframe[oid]:
            if stp == 1:
                wr.append(z3.ULT(j - c0, n))
            elif stp == -1:
                wr.append(z3.ULT(c0 - j, n))
            else:
                wr.append(j == c0)
        return Or(*(wr + [got == ent.sel(j)]))

    def frame_fact(self, H, oid):
        if oid in self.aclosed or oid not in self.aframe:
            return
        c = H.mem[oid].content
        if not isinstance(c, FBase):
            return
        H.facts.append(QFact({c.fn.name(): (lambda t: t)}, lambda j: self.frame_cond(oid, j, self.n, c.fn(j)), 'frame'))

    def batch_valid(self, st, pairs):
        """pairs (cand, goal or None); returns candidates whose goal is valid in st.  Drops many at a time by model."""
        ex = self.ex
        keep = [c for c, g in pairs if g is None]
        todo = [(c, g) for c, g in pairs if g is not None and not z3.is_false(g)]
        guard = 0
        while todo and guard < 60:
            guard += 1
            neg = z3.Or(*[Not(g) for _, g in todo]) if len(todo) > 1 else Not(todo[0][1])
            r, m = ex.sol.check(st.pc + [neg], st.facts, timeout=6000, want_model=True)
            if r == 'unsat':
                keep += [c for c, _ in todo]
                break
            if r == 'unknown':
                # one by one
                for c, g in todo:
                    if ex.valid(st, g, timeout=2000):
                        keep.append(c)
                break
            nt = []
            for c, g in todo:
                v = m.eval(g, model_completion=True)
                if z3.is_false(v):
                    continue
                nt.append((c, g))
            if len(nt) == len(todo):
                nt = [(c, g) for c, g in todo if ex.valid(st, g, timeout=2000)]
                keep += [c for c, _ in nt]
                break
            todo = nt
        return keep


def concrete_unroll(ex, F, lp, st, prev, limit):
    """run the loop iteration by iteration while every header decision is forced; None when it is not"""
    outs = []
    cur = [(st, prev, None)]
    it = 0
    H = st.copy()
    H.locals.update(ex.eval_phis(F, st, lp.header, prev))
    pend = [(H, prev)]
    while pend:
        it += 1
        if it > limit:
            return None
        nxtp = []
        for (s, pv) in pend:
            res = ex.run_region(F, s, lp.header, pv, lp, True)
            nb = [o for o in res if o[0] == 'back']
            if len(res) != 1:
                # a fork: allowed only if no path goes back (the loop ends here)
                if nb:
                    return None
            for o in res:
                if o[0] == 'back':
                    s2 = o[3]
                    s2.locals.update(ex.eval_phis(F, s2, lp.header, o[2]))
                    nxtp.append((s2, o[2]))
                else:
                    outs.append(o)
        pend = nxtp
    return outs


def full_unroll(ex, F, lp, st, prev, limit, bounded):
    outs = []
    H = st.copy()
    H.locals.update(ex.eval_phis(F, st, lp.header, prev))
    pend = [(H, prev)]
    it = 0
    while pend:
        it += 1
        if it > limit:
            if bounded:
                ex.hit_bound = True
                return outs
            I = F.blocks[lp.header].insts[-1]
            # unwinding assertion
            for s, pv in pend:
                if ex.feasible(s):
                    raise Unsupported('loop needs more than %d iterations' % limit)
            return outs
        nxtp = []
        for (s, pv) in pend:
            for o in ex.run_region(F, s, lp.header, pv, lp, True):
                if o[0] == 'back':
                    s2 = o[3]
                    s2.locals.update(ex.eval_phis(F, s2, lp.header, o[2]))
                    nxtp.append((s2, o[2]))
                else:
                    outs.append(o)
        pend = nxtp
    return outs


def do_loop(ex, F, lp, st, prev):
    if ex.unroll:
        return full_unroll(ex, F, lp, st, prev, ex.unroll, ex.bounded)
    # forced iterations (constant trip counts) need no invariant
    if concrete_header(ex, F, lp, st, prev):
        fl = len(ex.failures)
        ob = (ex.ob_total, ex.ob_discharged, ex.ob_trivial, len(ex.obligations), dict(ex.ob_kinds))
        r = None
        try:
            r = concrete_unroll(ex, F, lp, st.copy(), prev, 300)
        except Unsupported:
            r = None
        if r is not None:
            return r
        del ex.failures[fl:]
        ex.ob_total, ex.ob_discharged, ex.ob_trivial = ob[0], ob[1], ob[2]
        del ex.obligations[ob[3]:]
        ex.ob_kinds = ob[4]
    from . import tree
    r = tree.do_loop(ex, F, lp, st, prev)
    if r is not None:
        return r
    last = None
    banned = set()
    norec = False
    for attempt in range(4):
        A = Analysis(ex, F, lp, st.copy(), prev)
        A.banned = banned
        A.norec = norec
        try:
            r = A.run()
        except LoopAbort as e:
            last = e
            if 'closed form' in str(e):
                continue
            if 'recurrence' in str(e):
                norec = True
                continue
            break
        if r is None:
            H = st.copy()
            H.locals.update(ex.eval_phis(F, st, lp.header, prev))
            outs = ex.run_region(F, H, lp.header, prev, lp, True)
            if any(o[0] == 'back' for o in outs):
                raise Unsupported('loop analysis inconsistent')
            return outs
        return r
    raise Unsupported('no invariant for loop in %s: %s' % (F.dem, last))


def concrete_header(ex, F, lp, st, prev):
    """cheap test whether the first decision of the loop is already determined by constants"""
    vals = ex.eval_phis(F, st, lp.header, prev)
    for v in vals.values():
        k, t, tm = val_term(v)
        if k == 'bv' and isc(t):
            return True
        if k == 'ptr' and isc(t):
            return True
    return False
