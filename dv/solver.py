"""Discharging queries: hypothesis instantiation, z3 (primary) and cvc5 (second opinion)."""
import time, z3, os, subprocess, tempfile
from .terms import *


class QFact:
    """forall i. fn(i), instantiated where one of the trigger functions is applied.
    triggers: {uf_name: shift-function mapping the argument term of the application to i}"""
    __slots__ = ('triggers', 'fn', 'note', '_cache')

    def __init__(self, triggers, fn, note=''):
        self.triggers = triggers
        self.fn = fn
        self.note = note
        self._cache = {}

    def at(self, i):
        k = i.get_id()
        r = self._cache.get(k)
        if r is None or not r[0].eq(i):
            r = (i, simp(self.fn(i)))
            self._cache[k] = r
        return r[1]


_fp = {}


def has_fp(t):
    i = t.get_id()
    r = _fp.get(i)
    if r is not None and r[0].eq(t):
        return r[1]
    seen = set()
    st = [t]
    res = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_fp(x):
            res = True
            break
        st.extend(x.children())
    _fp[i] = (t, res)
    return res


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.cvc5_queries = 0
        self.cvc5_time = 0.0
        self.cvc5_agree = 0
        self.slowest = 0.0
        self.z3_unsat = 0
        self.cvc5_unsat = 0
        self.box_queries = 0
        self.box_time = 0.0
        self.box_unsat = 0


def drop_defs(fs):
    """leave out definitions d == t of names (core.name_term) that nothing else mentions: a model extends to them"""
    defs = {}
    rest = []
    for f in fs:
        if z3.is_eq(f) and z3.is_const(f.arg(0)) and f.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                f.arg(0).decl().name().startswith('def!'):
            defs[f.arg(0).decl().name()] = f
        else:
            rest.append(f)
    if not defs:
        return fs
    todo = list(rest)
    while todo:
        for nm in free_syms(todo.pop()):
            d = defs.pop(nm, None)
            if d is not None:
                rest.append(d)
                todo.append(d)
    return rest


class Solver:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.stats = Stats()
        self.cache = {}
        self.deadline = None
        self.last_deadline = None
        self.cross = False          # also ask cvc5 for every valid obligation (thorough tier)
        self.extra_terms = []

    def instantiate(self, forms, facts, rounds=4, limit=400):
        out, ok = self._instantiate(forms, facts, rounds, limit)
        if not fpb_syms:
            return out, ok
        # the definitions of the bit-pattern symbols that occur
        seen = set()
        todo = list(out)
        while todo:
            for nm in free_syms(todo.pop()):
                if nm in fpb_syms and nm not in seen:
                    seen.add(nm)
                    d = fp_bits_def(nm)
                    out += d
                    todo += d
        return out, ok

    def _instantiate(self, forms, facts, rounds=4, limit=400):
        if not facts:
            return list(forms), True
        trig = {}
        for f in facts:
            for nm, sh in f.triggers.items():
                trig.setdefault(nm, []).append((f, sh))
        out = list(forms)
        done = set()
        seen_apps = set()
        todo = list(forms)
        n = 0
        keep = []
        for r in range(rounds):
            new = []
            for g in todo:
                for a in uf_apps(g):
                    nm = a.decl().name()
                    if nm not in trig or a.get_id() in seen_apps:
                        continue
                    seen_apps.add(a.get_id())
                    keep.append(a)
                    for f, sh in trig[nm]:
                        i = simp(sh(a.arg(0)))
                        key = (id(f), i.get_id())
                        if key in done:
                            continue
                        done.add(key)
                        keep.append(i)
                        x = f.at(i)
                        if z3.is_true(x):
                            continue
                        new.append(x)
                        n += 1
                        if n > limit:
                            return out + new, False
            if not new:
                return out, True
            out += new
            todo = new
        return out, True

    def check(self, forms, facts=(), timeout=None, want_model=False):
        """sat-check of the conjunction. returns ('unsat',None) / ('sat',model) / ('unknown',reason)"""
        fs = []
        for f in forms:
            if z3.is_false(f):
                return ('unsat', None)
            if not z3.is_true(f):
                fs.append(f)
        fs = drop_defs(fs)
        fs, _ = self.instantiate(fs, facts)
        key = tuple(sorted(set(f.get_id() for f in fs)))
        if not want_model and key in self.cache:
            return self.cache[key][0]
        t0 = time.time()
        if self.deadline is not None and t0 > self.deadline:
            raise TimeUp('time budget exhausted')
        if self.fbox and any(has_fp(f) for f in fs):
            res = self.intervals(fs, timeout)
            if res is not None:
                self.last = (None, fs)
                self.cache[key] = (res, fs)
                return res
        fp = any(has_fp(f) for f in fs)
        s = z3.Solver() if fp else z3.SimpleSolver()
        tm = timeout or self.timeout
        if self.deadline is not None:
            tm = max(200, min(tm, int((self.deadline - t0) * 1000)))
        split = tm > 1500 and not fp and self.asint_miss < 6
        s.set('timeout', 600 if split else tm)
        for f in fs:
            s.add(f)
        r = s.check()
        if r == z3.unknown and split:
            # offsets and lengths: machine words translated to bounded integers are often easy where bit-blasting is not
            if self.as_int(s, 3):
                self.stats.queries += 1
                self.stats.time += time.time() - t0
                self.last = (None, fs)
                self.cache[key] = (('unsat', None), fs)
                return self.cache[key][0]
            s.set('timeout', tm)
            r = s.check()
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        self.stats.slowest = max(self.stats.slowest, dt)
        if os.environ.get('DV_SLOW') and dt > float(os.environ['DV_SLOW']):
            print('slow query %.1fs -> %s (%d forms)' % (dt, r, len(fs)))
            if os.environ.get('DV_DUMP'):
                open(os.environ['DV_DUMP'], 'w').write(s.to_smt2())
        if r == z3.unsat:
            res = ('unsat', None)
            self.stats.z3_unsat += 1
        elif r == z3.sat:
            res = ('sat', s.model())
        else:
            res = ('unknown', s.reason_unknown())
            self.stats.unknown += 1
        self.last = (s, fs)
        self.cache[key] = (res, fs)
        return res

    fbox = False

    def intervals(self, fs, timeout):
        """ask the interval back end (dv/fbox.py); None: not for it"""
        from . import fbox
        t0 = time.time()
        limit = 25.0 if timeout else 150.0
        if self.deadline is not None:
            limit = max(1.0, min(limit, self.deadline - t0))
        try:
            r = fbox.decide(fs, limit)
        except fbox.Cannot as e:
            if os.environ.get('DV_SLOW'):
                print('intervals:', e)
            return None
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.box_queries += 1
        self.stats.box_time += dt
        self.stats.slowest = max(self.stats.slowest, dt)
        if os.environ.get('DV_SLOW') and dt > float(os.environ['DV_SLOW']):
            print('intervals %.1fs -> %s %s (%d forms)' % (dt, r[0], r[1], len(fs)))
        if r[0] == 'unsat':
            self.stats.box_unsat += 1
            return ('unsat', None)
        if r[0] == 'sat':
            s = z3.Solver()
            for v, x in r[1]:
                s.add(v == (z3.BoolVal(bool(x)) if z3.is_bool(v) else z3.BitVecVal(x, v.size())))
            s.check()
            return ('sat', s.model())
        if 'stuck' in r[1]:
            return None
        self.stats.unknown += 1
        return ('unknown', r[1])

    near = False

    def quick_unsat(self, pc, facts, c, hops=1):
        """is c contradictory to the few hypotheses that share symbols with it?  (only where the numeric path is long)"""
        if not self.near or len(pc) < 12 or self.fbox:
            return False
        syms = set(free_syms(c))
        if not syms:
            return False
        pick = []
        rest = list(pc)
        for _ in range(hops):
            new, keep = [], []
            for f in rest:
                (new if syms & free_syms(f) else keep).append(f)
            pick += new
            rest = keep
            for f in new:
                syms |= free_syms(f)
        if len(pick) > 40:
            return False
        return self.check(pick + [c], (), timeout=300)[0] == 'unsat'

    asint_miss = 0

    def as_int(self, s, timeout):
        """does cvc5 refute the query with bit-vectors translated to integers?"""
        t0 = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write('(set-logic ALL)\n' + s.to_smt2())
            fn = fh.name
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), '--solve-bv-as-int=sum', fn], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=timeout + 5)
            ok = p.stdout.strip().split('\n')[0] == 'unsat'
        except subprocess.TimeoutExpired:
            ok = False
        finally:
            os.unlink(fn)
        self.stats.cvc5_queries += 1
        self.stats.cvc5_time += time.time() - t0
        if ok:
            self.stats.cvc5_unsat += 1
            self.asint_miss = 0
        else:
            self.asint_miss += 1
        return ok

    def cvc5(self, forms, facts=(), timeout=20):
        fs = [f for f in forms if not z3.is_true(f)]
        fs = drop_defs(fs)
        fs, _ = self.instantiate(fs, facts)
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t0 = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(txt)
            fn = fh.name
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), fn], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=timeout + 10)
            o = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except subprocess.TimeoutExpired:
            o = 'unknown'
        finally:
            os.unlink(fn)
        self.stats.cvc5_queries += 1
        self.stats.cvc5_time += time.time() - t0
        return o if o in ('sat', 'unsat') else 'unknown'


class TimeUp(Exception):
    pass
