"""verify one contract: python -m dv.worker BITCODE CONTRACT OUT.json BUDGET_S TIER"""
import sys, json, time, os, resource, importlib


def summary(mod, sym, out, deadline):
    """verify a call-site contract (dv/summaries.py) against the body of the function"""
    from . import core, summaries
    from .solver import TimeUp
    import z3
    t0 = time.time()
    F = [f for f in mod.funcs.values() if f.name == sym][0]
    ex = core.Exec(mod)
    ex.sol.deadline = deadline
    r = dict(name=F.dem, sym=sym, reason=None)
    try:
        summaries.contract_for(ex, F).verify(ex, F)
        r['status'] = 'proved' if not ex.failures else 'failed'
        if ex.failures:
            r['reason'] = repr(ex.failures[0])
    except (core.Unsupported, TimeUp, z3.Z3Exception, AttributeError, KeyError, TypeError, AssertionError, IndexError,
            ValueError, RecursionError) as e:
        r['status'] = 'failed'
        r['reason'] = repr(e)
    s = ex.sol.stats
    r.update(total=ex.ob_total, discharged=ex.ob_discharged, kinds=ex.ob_kinds, time=round(time.time() - t0, 1),
             loops=ex.loop_report, entered=sorted(ex.entered),
             stats=dict(queries=s.queries, z3_time=round(s.time, 2), z3_unknown=s.unknown, cvc5_queries=s.cvc5_queries,
                        cvc5_time=round(s.cvc5_time, 2), cvc5_unsat=s.cvc5_unsat, trivial=ex.ob_trivial))
    json.dump(r, open(out, 'w'), default=str)


def main():
    bc, name, out, budget, tier = sys.argv[1:6]
    syms = set(x for x in (sys.argv[6] if len(sys.argv) > 6 else '').split(',') if x)
    budget = float(budget)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from . import llir, core, contracts
    t0 = time.time()
    mod = llir.load(bc)
    if name.startswith('@'):
        return summary(mod, name[1:], out, t0 + budget)
    F = None
    for f in mod.funcs.values():
        if f.dem.split('(')[0] == name and not f.decl:
            F = f
    if F is None:
        json.dump(dict(name=name, status='missing', reason='contract not compiled', failures=[]), open(out, 'w'))
        return

    def fresh_exec(deadline):
        ex = core.Exec(mod)
        ex.sol.deadline = deadline
        if tier == 'thorough':
            ex.xobs = []
        from . import summaries
        summaries.install(ex, syms)
        return ex

    def pack(ex, r):
        r['used_contracts'] = dict(ex.used_contracts)
        s = ex.sol.stats
        r['stats'] = dict(queries=s.queries, z3_time=round(s.time, 2), slowest=round(s.slowest, 2), z3_unknown=s.unknown,
                          cvc5_queries=s.cvc5_queries, cvc5_time=round(s.cvc5_time, 2), cvc5_unsat=s.cvc5_unsat,
                          trivial=ex.ob_trivial, box_queries=s.box_queries, box_time=round(s.box_time, 2), box_unsat=s.box_unsat)
        r['total'] = ex.ob_total
        r['discharged'] = ex.ob_discharged
        r['kinds'] = ex.ob_kinds
        r['entered'] = sorted(x for x in ex.entered if not x.startswith(name + '('))
        r['loops'] = ex.loop_report[-400:]
        return r

    ex = fresh_exec(t0 + budget * (0.65))
    ex.sol.last_deadline = t0 + budget
    r = contracts.run_contract(ex, F)
    pack(ex, r)
    if r['status'] == 'proved' and tier == 'thorough' and ex.xobs:
        # second opinion on every discharged obligation
        agree = n = 0
        dis = []
        end = t0 + budget
        for forms, facts in (() if ex.sol.fbox else ex.xobs):
            if time.time() > end:
                break
            n += 1
            v = ex.sol.cvc5(forms, facts, timeout=20)
            if v == 'unsat':
                agree += 1
            elif v == 'sat':
                dis.append(str(forms[-1])[:300])
        r['cross'] = dict(asked=n, of=len(ex.xobs), agree=agree, disagree=dis)
    if r['status'] != 'proved' and not ex.sol.fbox:
        left = t0 + budget - time.time()
        ex2 = fresh_exec(time.time() + max(10, left))
        best = None
        for k in (2, 4, 6):
            ex2.sol.deadline = min(t0 + budget, time.time() + max(10, left / 2))
            try:
                b = contracts.run_contract(ex2, F, unroll=k, bounded=True, pre=None)
            except Exception as e:       # bounded search is only a fallback
                b = dict(status='unsupported', reason=repr(e), failures=[])
            b['bound'] = k
            if b['status'] in ('proved', 'bounded-ok') or best is None:
                best = b
            if b['status'] in ('refuted', 'undecided'):
                best = b
                break
            if b['status'] not in ('proved', 'bounded-ok') or time.time() > t0 + budget:
                break
        r['bounded_run'] = pack(ex2, best)
    json.dump(r, open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
