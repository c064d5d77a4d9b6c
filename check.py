#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]   -- decide one property on /repo's current tree (see DESIGN.md)"""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dv import build

PY = sys.executable
JOBS = int(os.environ.get('VP_JOBS', '8'))
NATIVE = ['clang++-18', '-std=c++11', '-w', '-g1', '-O1', '-fsanitize=address,undefined,float-cast-overflow',
          '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-DFASTFLOAT_FAST_FLOAT_H', '-DNANOSTL__NULLPTR',
          '-include', 'stddef.h', '-include', 'time.h']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:allocator_may_return_null=0',
           UBSAN_OPTIONS='print_stacktrace=0')

TRUSTED = [
    'dv/ (this verifier: IR semantics, loop-invariant checking, obligation generation)',
    'clang++-18 -O0 and opt sroa,simplifycfg,instsimplify,loop-simplify as the C++-to-LLVM-IR translation',
    'z3 (and cvc5 where z3 gives up)',
    'operator new/delete, memcpy/memset and LLVM intrinsics by their specification; allocation never fails',
]
TRUSTED_INTERVALS = [
    'dv/fbox.py (interval branch and bound) compiled by gcc -O2 -ffp-contract=off; floating-point hardware rounding to nearest',
    'libm in double precision, taken to be within 8 ulp and (exp, log, erf...) monotone up to that, as the meaning of the mathematical functions',
]


def contracts_of(prop, tier='thorough'):
    """{file: [contract names]} -- CONTRACT(<prop>_...) in harness/*.cc"""
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'harness', '*.cc'))):
        txt = open(f).read()
        names = []
        for m in re.finditer(r'^([A-Z][A-Z_0-9]*)\((%s_\w+)' % prop, txt, re.M):
            if tier == 'thorough' or m.group(1) != 'CONTRACT_THOROUGH':
                names.append(m.group(2))
        if names:
            out[f] = names
    return out


def native_build(src, wd):
    b = os.path.basename(src)[:-3]
    cc = os.path.join(wd, b + '_native.cc')
    open(cc, 'w').write('#include "%s"\n#include "vp_main.inc"\n' % src)
    exe = os.path.join(wd, b + '_native')
    inc = ['-iquote', os.path.join(build.REPO, 'include'), '-idirafter', os.path.join(build.REPO, 'include'),
           '-iquote', os.path.join(HERE, 'harness'), '-iquote', build.REPO]
    try:
        build.run(NATIVE + inc + [cc, '-o', exe])
    except build.BuildError as e:
        if 'undefined reference' not in str(e):
            raise
        # some definitions live in src/: link those that are needed (an archive member is taken only when it is)
        objs = []
        for s in sorted(glob.glob(os.path.join(build.REPO, 'src', '*.cc'))):
            o = os.path.join(wd, b + '_' + os.path.basename(s) + '.o')
            try:
                build.run(NATIVE + inc + ['-c', s, '-o', o])
                objs.append(o)
            except build.BuildError:
                pass
        ar = os.path.join(wd, b + '_src.a')
        build.run(['ar', 'rcs', ar] + objs)
        build.run(NATIVE + inc + [cc, ar, '-o', exe])
    return exe


def list_bitcode(bc):
    from dv import llir
    mod = llir.load(bc)
    names = []
    consts = set()
    for f in mod.funcs.values():
        if f.decl:
            continue
        n = f.dem.split('(')[0]
        names.append(n)
        if 'nanostl' not in f.dem or not f.blocks:
            continue
        for b in f.blocks:
            for i in b.insts:
                for o in i.ops:
                    if o and o[0] in ('int', 'fp') and o[2] >= 8:
                        consts.add(o[1] & ((1 << 64) - 1))
                for k in i.x.get('cases', []) if isinstance(i.x, dict) else []:
                    consts.add(k[0][1] & ((1 << 64) - 1))
    from dv import summaries
    return names, consts, [x[0] for x in summaries.candidates(mod)]


def tok(inp):
    out = []
    for p in inp:
        if p[1] == 'n':
            out.append('n:%d' % p[2])
        else:
            n, c, vals = p[2], p[3], p[4]
            if n > 3000:
                return None
            if c > 1 << 20:
                c = n
            out.append('v:%d:%d:%s' % (n, c, ','.join(str(v) for v in vals)))
    return out


def native_run(exe, name, toks, timeout=90):
    """(failed?, text)"""
    try:
        p = subprocess.run([exe, 'run', name] + toks, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, 'FAILED hang: no answer within %d s' % timeout
    t = p.stdout.decode('utf8', 'replace')
    if p.returncode == 0 or p.returncode == 77 or p.returncode == 2:
        return False, t
    return True, t


def native_search(exe, name, seed, secs, dictf, maxit=None):
    env = dict(ENV, VP_DICT=dictf)
    cmd = [exe, 'search', name, str(seed), str(secs)] + ([str(maxit)] if maxit else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return None, 'native search did not finish', 0
    t = p.stdout.decode('utf8', 'replace')
    m = re.search(r'^INPUT (\w+)(.*)$', t, re.M)
    if p.returncode != 0 and m:
        return m.group(2).split(), t, 0
    m = re.search(r'^CLEAN (\d+) rejected (\d+)', t, re.M)
    if m:
        return None, t, int(m.group(1))
    return None, t, 0


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) contract=(\S+) what=(.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    wall = 780 if tier == 'quick' else 3000
    per = 240.0 if tier == 'quick' else 1500.0
    wd = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return run(prop, tier, seed, t0, wall, per, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(prop, tier, seed, t0, wall, per, wd):
    files = contracts_of(prop, tier)
    if not files:
        print('no contracts for', prop)
        return 2
    rdir = os.path.join(HERE, 'replay', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    pool = ThreadPoolExecutor(JOBS)
    jobs = {}
    for f in files:
        b = os.path.join(wd, os.path.basename(f)[:-3])
        jobs[f] = (pool.submit(build.bitcode, f, b + '.bc'), pool.submit(native_build, f, wd))
    violations = []
    results = {}
    built = {}
    notes = []
    for f, (jb, jn) in jobs.items():
        try:
            bc = jb.result()
            exe = jn.result()
        except build.BuildError as e:
            # do the headers compile at all?
            probe = os.path.join(wd, 'probe.cc')
            inc = re.findall(r'^#include "(?:vp\.h|nano[^"]*|__[^"]*)".*$', open(f).read(), re.M)
            open(probe, 'w').write('\n'.join(inc) + '\nint vp_probe;\n')
            try:
                build.run(['clang++-18', '-std=c++11', '-w', '-DVP_SYM', '-fsyntax-only', probe] +
                          [d for d in build.DEFS if d != '-fpermissive'] +
                          ['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(build.REPO, 'include')])
            except build.BuildError:
                print('BUILD ERROR\n' + str(e))
                return 2
            rp = os.path.join(rdir, os.path.basename(f) + '.build.txt')
            open(rp, 'w').write('the headers compile but this use of their public API no longer does:\n' + str(e))
            print(str(e)[-1500:])
            violations.append((os.path.basename(f), rp, ' no-failing-input-found', 'public API no longer usable'))
            continue
        names, consts, cands = list_bitcode(bc)
        dictf = os.path.join(wd, os.path.basename(f) + '.dict')
        open(dictf, 'w').write('\n'.join(str(c) for c in sorted(consts)))
        built[f] = (bc, exe, dictf, cands)

    # call-site contracts of container members, each verified against its body (in its own process)
    sums = {}

    def summarise(f, sym):
        out = os.path.join(wd, 'sum_%s_%s.json' % (os.path.basename(f), hashlib.md5(sym.encode()).hexdigest()))
        try:
            subprocess.run([PY, '-m', 'dv.worker', built[f][0], '@' + sym, out, '120', tier], cwd=HERE,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
            return f, sym, json.load(open(out))
        except Exception as e:
            return f, sym, dict(name=sym, status='failed', reason=repr(e), total=0, discharged=0)
    for fu in [pool.submit(summarise, f, sym) for f in built for sym in built[f][3]]:
        f, sym, r = fu.result()
        sums.setdefault(f, {})[sym] = r
        print('  callee contract %-60s %s  obligations %s/%s  %.1fs %s' % (
            r['name'][:60], r['status'], r.get('discharged'), r.get('total'), r.get('time') or 0, (r.get('reason') or '')[:150]))

    def prove(f, n):
        bc, exe, dictf, _ = built[f]
        syms = ','.join(k for k, r in sums.get(f, {}).items() if r['status'] == 'proved')
        out = os.path.join(wd, n + '.json')
        left = max(20.0, min(per, wall - (time.time() - t0)))
        err = ''
        try:
            p = subprocess.run([PY, '-m', 'dv.worker', bc, n, out, str(left), tier, syms], cwd=HERE, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=left + 120)
            err = p.stdout.decode('utf8', 'replace')[-1500:]
        except subprocess.TimeoutExpired:
            err = 'worker killed'
        try:
            r = json.load(open(out))
        except Exception:
            r = dict(name=n, status='timeout', reason='no result: ' + err, failures=[], total=0, discharged=0)
        # the same contract evaluated natively on generated inputs (self-check of the verifier, and failing-input search)
        secs = 0.4 if r['status'] == 'proved' else (12 if tier == 'quick' else 60)
        if tier == 'thorough' and r['status'] == 'proved':
            secs = 4
        hit, txt, cnt = native_search(exe, n, seed, secs, dictf)
        r['native_evals'] = cnt
        r['native'] = (hit, txt)
        return f, n, r

    futs = []
    for f, ns in files.items():
        if f in built:
            for n in ns:
                futs.append(pool.submit(prove, f, n))
    known = known_findings(prop)
    for fu in futs:
        f, n, r = fu.result()
        results[n] = r
        exe = built[f][1]
        dictf = built[f][2]
        rp = os.path.join(rdir, n + '.txt')

        def write(kind, toks, text):
            open(rp, 'w').write('property: %s\ncontract: %s (%s)\nkind: %s\n' % (prop, n, os.path.basename(f), kind) +
                                ('input: %s\nreplay: python3-vt %s/replay.py %s %s %s\n' % (
                                    ' '.join(toks), HERE, os.path.basename(f), n, ' '.join(toks)) if toks is not None else '') +
                                '\n' + text)
        st = r['status']
        fails = list(r.get('failures') or [])
        br = r.get('bounded_run') or {}
        bfails = list(br.get('failures') or [])
        vtext = json.dumps(dict(status=st, reason=r.get('reason'), failures=fails, bounded=br.get('status'), bounded_failures=bfails),
                           indent=1, default=str)
        hit, ntxt = r['native']
        done = False
        if st == 'missing':
            print('contract %s was not compiled' % n)
            return 2
        if hit is not None:
            write('failing input (native evaluation of the contract)', hit, ntxt + '\n' + vtext)
            violations.append((n, rp, '', ntxt.split('\n')[0]))
            done = True
        elif st != 'proved':
            for d in fails + bfails:
                if d.get('input') and d['status'] == 'refuted':
                    tk = tok(d['input'])
                    if tk is None:
                        continue
                    bad, txt = native_run(exe, n, tk)
                    if bad:
                        write('failing input (counterexample of the verifier, reproduced)', tk, txt + '\n' + vtext)
                        violations.append((n, rp, '', '%s %s' % (d['kind'], d['msg'])))
                        done = True
                        break
        if not done and st != 'proved':
            hard = [d for d in fails if d['status'] == 'refuted' and (not d.get('abstract') or d.get('large_only'))]
            hard += [d for d in bfails if d['status'] == 'refuted' and not d.get('abstract')]
            if hard:
                write('failed obligation', None, vtext)
                violations.append((n, rp, ' no-failing-input-found', '%s %s at %s' % (hard[0]['kind'], hard[0]['msg'], hard[0]['loc'])))
                done = True
        r['violated'] = done
        label = 'VIOLATED' if done else st if st == 'proved' else \
            'bounded (unrolled %s: %s; %d native evaluations)' % (br.get('bound'), br.get('status'), r.get('native_evals', 0))
        print('  %-30s %-9s obligations %s/%s  %.1fs  native %d  %s' % (
            n, label, r.get('discharged'), r.get('total'), r.get('time') or 0, r.get('native_evals', 0),
            (r.get('reason') or (str(fails[0]['kind'] + ': ' + fails[0]['msg']) if fails else '')) if st != 'proved' else ''))
        sys.stdout.flush()
    pool.shutdown()
    # report
    rc = 0
    nv = 0
    for n, rp, suffix, what in violations:
        k = [w for c, w in known if c == n]
        if k:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, n, k[0]))
            continue
        nv += 1
        rc = 1
        print('  %s: %s' % (n, what))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, suffix))
    evidence(prop, tier, seed, t0, files, results, nv, sums)
    if rc == 0:
        pr = sum(1 for r in results.values() if r['status'] == 'proved')
        print('OK property=%s %d/%d contracts proved (%.0f s)' % (prop, pr, len(results), time.time() - t0))
    return rc


def evidence(prop, tier, seed, t0, files, results, nv, sums):
    proved = {n: r for n, r in results.items() if r['status'] == 'proved'}
    rest = {n: r for n, r in results.items() if r['status'] != 'proved'}
    ent = sorted(set(x for r in proved.values() for x in r.get('entered', []) if 'nanostl' in x))
    kinds = {}
    for r in proved.values():
        for k, v in r.get('kinds', {}).items():
            kinds[k] = kinds.get(k, 0) + v

    def tot(key):
        return sum(r.get('stats', {}).get(key, 0) for r in results.values())
    sm = {}
    for f in sums:
        for r in sums[f].values():
            sm['%s (%s)' % (r['name'], os.path.basename(f))] = dict(
                status=r['status'], obligations=r.get('total'), discharged=r.get('discharged'), seconds=r.get('time'),
                used_at_call_sites=sum(x.get('used_contracts', {}).get(r['name'], 0) for x in proved.values()), reason=r.get('reason'))
    lp = [l for r in proved.values() for l in r.get('loops', [])]
    cov = dict(
        obligations=sum(r.get('total', 0) or 0 for r in list(proved.values()) + [x for f in sums for x in sums[f].values() if x['status'] == 'proved']),
        discharged=sum(r.get('discharged', 0) or 0 for r in list(proved.values()) + [x for f in sums for x in sums[f].values() if x['status'] == 'proved']),
        checker_cmd='python3-vt check.py %s %s' % (prop, tier),
        trusted_base=TRUSTED + (TRUSTED_INTERVALS if tot('box_queries') else []),
        contracts={n: r['status'] for n, r in results.items()},
        callee_contracts=sm,
        functions_verified=ent,
        obligation_kinds=kinds,
        loops_with_checked_invariants=len(lp),
        loop_functions=sorted(set(l['fn'] for l in lp)),
        discharged_syntactically=tot('trivial'),
        z3=dict(queries=tot('queries') - tot('box_queries'), seconds=round(tot('z3_time'), 1), unknown=tot('z3_unknown')),
        intervals=dict(queries=tot('box_queries'), seconds=round(tot('box_time'), 1), unsat=tot('box_unsat')),
        cvc5=dict(queries=tot('cvc5_queries'), seconds=round(tot('cvc5_time'), 1), unsat=tot('cvc5_unsat'),
                  cross=[dict(contract=n, **r['cross']) for n, r in proved.items() if 'cross' in r]),
        bounded_not_proved={n: dict(reason=r.get('reason') or [f['kind'] + ': ' + f['msg'] for f in r.get('failures', [])][:3],
                                    unroll=(r.get('bounded_run') or {}).get('bound'),
                                    bounded_status=(r.get('bounded_run') or {}).get('status'),
                                    native_evaluations=r.get('native_evals', 0)) for n, r in rest.items()},
        evaluations=sum(r.get('native_evals', 0) for r in results.values()),
        rule='native self-check: inputs generated from VERIF_SEED satisfying the precondition of the contract',
        exhaustive=False,
    )
    src = 'dv assumptions: '
    assumptions = [
        'containers and input arrays hold at most 2^40 elements (capacity at most 2^44); allocation succeeds',
        'the templates are verified at the instantiations named in the contracts',
        'code is compiled with -ffp-contract=off, IEEE-754 binary32/binary64, two\'s complement, LP64',
        'parameters that are references to containers refer to distinct, well-formed objects unless a contract passes one object twice',
    ]
    lvl = 'proof'
    json.dump(dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=assumptions,
                   wall_s=round(time.time() - t0, 1), violations=nv),
              open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
