"""Build the initial state of a CONTRACT function from its parameter types, run it, check what must hold at its end."""
import re, time, z3, traceback
from . import llir, core, classes
from .terms import *
from .core import *
from .solver import TimeUp, QFact

INTS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
        'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64,
        'wchar_t': 32, 'char16_t': 16, 'char32_t': 32}
ESZ = {'char': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
       'long long': 8, 'unsigned long long': 8, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8}


def split_params(dem):
    m = re.match(r'^[\w:]+\((.*)\)$', dem)
    s = m.group(1)
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Param:
    pass


class Builder:
    """initial states of a contract function"""

    def __init__(self, ex):
        self.ex = ex

    def build(self, F):
        ex = self.ex
        st = State(ex)
        ps = []
        for i, t in enumerate(split_params(F.dem)):
            p = Param()
            p.type = t
            p.name = F.args[i][0] or 'p%d' % i
            self.one(st, p, F.args[i][1])
            ps.append(p)
        return st, ps

    def one(self, st, p, ty):
        ex = self.ex
        t = p.type
        p.kind = None
        p.off = 0
        if t in INTS:
            p.kind = 'int'
            p.term = z3.Bool(p.name) if ty.bits == 1 else z3.BitVec(p.name, ty.bits)
            p.val = p.term
            return
        if t in ('float', 'double'):
            p.kind = 'float'
            w = 32 if t == 'float' else 64
            p.term = z3.BitVec(p.name, w)
            p.val = Flt(w, bits=p.term)
            return
        m = re.match(r'^(nanostl::(?:vector|valarray))<(.*?), nanostl::allocator<.*> ?>( const)?&$', t)
        if not m:
            m = re.match(r'^(nanostl::(?:vector|valarray))<([^<>]*)>( const)?&$', t)
        if m:
            p.kind = 'vec'
            el = m.group(2)
            cls = classes.find_vec_class(ex, re.escape(m.group(1)) + '<' + re.escape(el) + r'(?:, nanostl::allocator<.*> ?)?>', ESZ[el])
            oid = ex.newobj(st, StructObj(cls.size, 'param', name=p.name))
            p.cls = cls
            p.oid = oid
            p.el = el
            p.view = cls.make(ex, st, oid, 0, p.name)
            p.val = Ptr(oid)
            return
        m = re.match(r'^nanostl::basic_string<char>( const)?&$', t)
        if m:
            p.kind = 'str'
            cls = classes.find_vec_class(ex, r'nanostl::vector<char, nanostl::allocator<char> ?>', 1)
            oid = ex.newobj(st, StructObj(cls.size, 'param', name=p.name))
            p.cls = cls
            p.oid = oid
            p.el = 'char'
            p.view = cls.make(ex, st, oid, 0, p.name)
            st.assume(z3.UGE(p.view.len, bv(1)))
            st.assume(p.view.content.sel(simp(p.view.len - 1)) == bv(0, 8))
            p.val = Ptr(oid)
            return
        m = re.match(r'^Arr<(.*)>( const)?&$', t)
        if m:
            p.kind = 'arr'
            p.el = m.group(1).replace(' const', '')
            e = ESZ[p.el]
            n = z3.BitVec(p.name + '.n', 64)
            st.assume(z3.ULE(n, bv(classes.LIM)))
            p.len = n
            p.fn = FBase(e * 8, z3.Function(p.name, BV64, z3.BitVecSort(e * 8)))
            b = ex.newobj(st, ArrayObj(e, n, p.fn, 'input', p.name))
            o = StructObj(16, 'param', {0: (8, Ptr(b)), 8: (8, n)}, p.name)
            p.buf = b
            p.val = Ptr(ex.newobj(st, o))
            return
        if t in ('CStr&', 'CStr const&'):
            p.kind = 'cstr'
            p.el = 'char'
            n = z3.BitVec(p.name + '.n', 64)
            st.assume(z3.ULE(n, bv(classes.LIM)))
            p.len = n
            fn = z3.Function(p.name, BV64, z3.BitVecSort(8))
            p.fn = FBase(8, fn)
            b = ex.newobj(st, ArrayObj(1, simp(n + 1), p.fn, 'input', p.name))
            st.mem[b].ro = True
            st.assume(fn(n) == 0)
            st.facts.append(QFact({fn.name(): (lambda i: i)}, lambda i: Implies(z3.ULT(i, n), fn(i) != 0), 'cstr'))
            o = StructObj(16, 'param', {0: (8, Ptr(b)), 8: (8, n)}, p.name)
            p.buf = b
            p.val = Ptr(ex.newobj(st, o))
            return
        from . import tree
        if tree.param(ex, st, p):
            return
        raise Unsupported('parameter type ' + t)


def finish(ex, st, ps):
    """obligations at the end of every contract: representation invariants of all parameters, no leak"""
    owned = set()
    for p in ps:
        if p.kind in ('vec', 'str'):
            for c, msg in p.cls.wf(ex, st, p.oid, 0):
                ex.oblige(st, c, 'invariant', None, '%s: %s' % (p.name, msg))
            v = p.cls.view(st, p.oid, 0)
            if v is not None and v.buf is not None:
                if v.buf in owned:
                    ex.oblige(st, FALSE, 'ownership', None, 'two objects own the same storage')
                owned.add(v.buf)
            if p.kind == 'str' and v is not None and v.content is not None:
                ex.oblige(st, z3.UGE(v.len, bv(1)), 'invariant', None, p.name + ': a string holds at least its terminator')
                ex.oblige(st, v.content.sel(simp(v.len - 1)) == bv(0, 8), 'invariant', None, p.name + ': NUL-terminated')
        elif p.kind and hasattr(p, 'finish'):
            p.finish(ex, st, owned)
    for oid, o in st.mem.items():
        if o.live and o.kind in ('new', 'new[]', 'malloc', 'tree') and oid not in owned:
            absent = getattr(o, 'absent', None)
            absent = absent if absent is not None else FALSE
            ex.oblige(st, absent, 'leak', None, 'storage obtained during the call is still reachable or released at its end')


def model_params(ex, st, ps, m, extra_terms=()):
    """concrete parameter values of a model, as text tokens for the native replay driver"""
    out = []

    def ev(t):
        v = m.eval(t, model_completion=True)
        if z3.is_bool(v):
            return 1 if z3.is_true(v) else 0
        return v.as_long()
    for p in ps:
        if p.kind in ('int', 'float'):
            out.append((p.name, 'n', ev(p.term)))
        elif p.kind in ('vec', 'str'):
            n, c = ev(p.view.len), ev(p.view.cap)
            vals = [ev(p.view.content.sel(bv(i))) for i in range(min(n, 3000))]
            out.append((p.name, 'v', n, c, vals))
        elif p.kind in ('arr', 'cstr'):
            n = ev(p.len)
            vals = [ev(p.fn.sel(bv(i))) for i in range(min(n, 3000))]
            out.append((p.name, 'v', n, n, vals))
        elif hasattr(p, 'model'):
            out.append(p.model(ev))
    return out


def size_terms(ps):
    out = []
    for p in ps:
        if p.kind in ('vec', 'str'):
            out += [p.view.len, p.view.cap]
        elif p.kind in ('arr', 'cstr'):
            out.append(p.len)
    return out


def run_contract(ex, F, unroll=0, bounded=False, pre=None):
    """verify one CONTRACT function; returns a result dict"""
    t0 = time.time()
    ex.failures = []
    ex.unroll = unroll
    ex.bounded = bounded
    ex.hit_bound = False
    ex.npaths = 0
    ex.harness = F.dem
    base = (ex.ob_total, ex.ob_discharged, ex.ob_trivial)
    res = dict(name=F.dem.split('(')[0], status=None, reason=None, paths=0, failures=[], bounded=bounded)
    try:
        st, ps = Builder(ex).build(F)
        if pre:
            pre(ex, st, ps)
        # vacuity: the precondition built from the types is satisfiable
        if not ex.feasible(st):
            raise Unsupported('contradictory initial state')
        outs = ex.call(F, st, [p.val for p in ps])
        n = 0
        for s, v in outs:
            if s.dead:
                continue
            n += 1
            finish(ex, s, ps)
        live = [s for s, v in outs if not s.dead]
        res['paths'] = n
        if n == 0 and not ex.failures:
            raise Unsupported('no path reaches the end of the contract (vacuous)')
        if live and not any(ex.feasible(s) for s in live) and not ex.failures:
            raise Unsupported('every path is infeasible (vacuous)')
        res['obligations'] = ex.ob_total - base[0]
        if res['obligations'] == 0 and not bounded:
            raise Unsupported('no obligations generated (vacuous)')
        if ex.failures:
            ref = [f for f in ex.failures if f.status == 'refuted']
            res['status'] = 'refuted' if ref else 'undecided'
        else:
            res['status'] = 'proved' if not (bounded and ex.hit_bound) else 'bounded-ok'
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['reason'] = str(e)
        ps = locals().get('ps', [])
    except TimeUp as e:
        res['status'] = 'timeout'
        res['reason'] = str(e)
        ps = locals().get('ps', [])
    except z3.Z3Exception as e:
        res['status'] = 'unsupported'
        res['reason'] = 'z3: %s' % (e,)
        ps = locals().get('ps', [])
    except (AttributeError, KeyError, TypeError, AssertionError, IndexError, ValueError, RecursionError) as e:
        res['status'] = 'unsupported'
        res['reason'] = 'internal: %r %s' % (e, traceback.format_exc().strip().split('\n')[-3:])
        ps = locals().get('ps', [])
    # counterexample values
    for f in ex.failures:
        d = dict(kind=f.kind, fn=f.fn, loc=f.loc, msg=f.msg, status=f.status, abstract=f.abstract)
        if f.status == 'refuted':
            m = f.model
            pc, facts, neg = f.query
            szs = size_terms(ps)
            for lim in (3, 8, 40, 3000):
                if not szs:
                    break
                try:
                    r, mm = ex.sol.check(pc + [neg] + [z3.ULE(t, bv(lim)) for t in szs], facts, timeout=4000, want_model=True)
                except TimeUp:
                    break
                if r == 'sat':
                    m = mm
                    break
            if f.abstract and szs:
                # does the obligation fail only for large inputs?
                d['large_only'] = False
                u64s = [p.term for p in ps if p.kind == 'int' and z3.is_bv(p.term) and p.term.size() == 64]
                for extra in ([], u64s):
                    try:
                        r, _ = ex.sol.check(pc + [neg] + [z3.ULE(t, bv(24)) for t in szs + extra], facts, timeout=8000)
                    except TimeUp:
                        break
                    if r == 'unsat':
                        d['large_only'] = True
                        break
                    if not u64s:
                        break
            try:
                d['input'] = model_params(ex, f.st, ps, m)
            except Exception as e:
                d['input'] = None
                d['input_err'] = repr(e)
        res['failures'].append(d)
    res['time'] = time.time() - t0
    return res
