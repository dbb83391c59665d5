#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: verify all contracts of the property against /repo's current sources.

exit 0: every obligation of every function under contract is proved (or the function is labelled bounded, see
evidence) and the run-time contracts hold on all inputs tried; exit 1: VIOLATION; exit 2: the check could not run."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'ipv'), os.path.join(HERE, 'contracts')]
T0 = time.time()
import ir, engine, verify, native
from props import PROPS


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[pid]
    thorough = tier == 'thorough'
    if thorough:
        engine.TIMEOUT = 12000
    # ---- 1. deductive verification
    exe = None
    mods = [importlib.import_module(m) for m in P['modules']]
    srcs = []
    for m in mods:
        for s in m.SRCS:
            if s not in srcs:
                srcs.append(s)
    if P.get('harness'):
        try:
            exe = native.build(P['harness'])
        except native.BuildError as e:
            print('build of the run-time monitor failed: %s' % e)
            exe = None
            if not isinstance(e, native.HarnessError):
                return 2
    tb = time.time() - T0
    mod = ir.load_sources(srcs)
    tc = time.time() - T0 - tb
    jobs = []
    for m in mods:
        for j in m.jobs():
            if j.models is None:
                j.models = getattr(m, 'MODELS', None)
            j.rep = getattr(m, 'REP', {})
            if thorough:
                j.budget *= 3
            jobs.append(j)
    import models
    res = verify.run_jobs(mod, {}, models.BASE, jobs, procs=8, verbose=bool(os.environ.get('IPV_VERBOSE')), total=None if thorough else 470 - (time.time() - T0))
    for n, r in enumerate(res):
        if r is None:
            res[n] = {'job': jobs[n].name, 'fn': None, 'error': 'unsupported: time budget of the check exceeded', 'obls': [], 'inlined': [], 'models': [], 'wall': 0, 'queries': 0, 'solver_s': 0, 'outs': 0, 'loops': 0, 'lemmas': 0}
    # ---- 2. run-time contracts on the real code (witness search, bounded stand-in)
    hst, htxt, ev, cover = ('not built' if P.get('harness') and not exe else None), '', 0, {}
    th0 = time.time()
    if P.get('harness') and exe:
        try:
            hst, htxt = native.run(exe, seed, tier, timeout=800 if thorough else 260)
        finally:
            try:
                os.unlink(exe)
            except OSError:
                pass
        for l in htxt.splitlines():
            if l.startswith('EVALS '):
                ev = int(l.split()[1])
            if l.startswith('COVER '):
                a = l.rsplit(' ', 1)
                cover[a[0][6:]] = int(a[1])
        if hst == 'ok' and not ev:
            hst, htxt = 'crash', 'monitor ended without a report\n' + htxt
    th = time.time() - th0
    # second opinion with more time for everything that did not go through
    again = [n for n, r in enumerate(res) if r['error'] or any(o['status'] != 'proved' for o in r['obls'])]
    if again and len(again) <= 24 and hst not in ('fail', 'crash', 'hang'):
        engine.TIMEOUT *= 4
        for n in again:
            jobs[n].budget = min(jobs[n].budget * 2, 240)
        left = 720 - (time.time() - T0)
        if left > 60:
            r2 = verify.run_jobs(mod, {}, models.BASE, [jobs[n] for n in again], procs=8, verbose=bool(os.environ.get('IPV_VERBOSE')), total=left)
            for n, r in zip(again, r2):
                if r is not None and not (r['error'] and 'budget' in r['error'] and not res[n]['error']):
                    res[n] = r
    tv = time.time() - T0 - tb - tc - th
    failed, bounded = [], []
    nob = dis = 0
    fns, inl, mods_used = set(), set(), set()
    kinds, backs = {}, {}
    for r in res:
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        if r['error']:
            bounded.append({'function': r['fn'] or r['job'], 'contract': r['job'], 'reason': r['error'], 'undischarged': len(bad)})
            continue
        nob += len(r['obls'])
        dis += len(r['obls']) - len(bad)
        fns.add(r['fn'])
        inl.update(r['inlined'])
        mods_used.update(r['models'])
        for o in r['obls']:
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
            if o['status'] == 'proved':
                backs[o['backend']] = backs.get(o['backend'], 0) + 1
        if bad:
            failed.append((r, bad))
    kn = known(pid)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    viol = 0
    rdir = os.path.join(ir.BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.json')
    rep = {'property': pid, 'rerun': 'VERIF_SEED=%d VERIF_TIER=%s ./check.py %s' % (seed, tier, pid),
           'failed_obligations': [{'contract': r['job'], 'function': r['fn'], 'obligation': o['label'], 'kind': o['kind'], 'line': o['line'], 'solver': o['status'], 'goal': o.get('goal'), 'facts': o.get('facts'), 'countermodel': o.get('model')} for r, bad in failed for o in bad][:40],
           'undecided_functions': bounded, 'monitor': {'status': hst, 'output': htxt[-12000:], 'how': 'replay/%s linked against /repo/src' % P.get('harness')}}
    for r, bad in failed[:8]:
        for o in bad[:3]:
            print('obligation not discharged (%s): %s: %s  [%s:%s]' % (o['status'], r['job'], o['label'], *(o['line'] or ('?', '?'))))
    for b in bounded:
        print('not decided by the verifier, bounded check only: %s (%s)' % (b['contract'], b['reason'][:300]))
    if hst in ('fail', 'crash', 'hang'):
        viol += 1
        json.dump(rep, open(rp, 'w'), indent=1)
        tail = [l for l in htxt.splitlines() if 'FAIL' in l or 'in case' in l][:4] or htxt.splitlines()[-6:]
        print('\n'.join(tail)[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    elif failed:
        viol += len(failed)
        json.dump(rep, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    ev_ = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': dis,
            'checker_cmd': './check.py %s' % pid,
            'trusted_base': sorted(mods_used),
            'functions_under_contract': sorted(x for x in fns if x),
            'contracts': len(jobs), 'contracts_proved': len(jobs) - len(failed) - len(bounded),
            'functions_verified_inline': sorted(inl)[:400],
            'obligations_by_kind': kinds, 'discharged_by_backend': backs,
            'solver_queries': sum(r['queries'] for r in res), 'solver_seconds': round(sum(r['solver_s'] for r in res), 2),
            'loops_summarised': sum(r.get('loops') or 0 for r in res), 'inductive_lemmas_proved': sum(r.get('lemmas') or 0 for r in res),
            'functions_bounded_only': bounded + P.get('bounded', []),
            'evaluations': ev, 'monitor_groups': cover, 'monitor_status': hst,
            'rule': 'evaluations are run-time contract checks of the real functions on boundary and seeded random inputs; they are not counted as proof',
            'source_files': srcs,
        },
        'assumptions': P['assumptions'],
        'wall_s': round(time.time() - T0, 2), 'violations': viol,
    }
    ep = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ep), exist_ok=True)
    json.dump(ev_, open(ep, 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d contracts, %d bounded only, monitor %s (%d evaluations); build %.0fs extract %.0fs verify %.0fs monitor %.0fs' % (pid, dis, nob, len(jobs), len(bounded), hst, ev, tb, tc, tv, th))
    if viol:
        return 1
    if (nob == 0 and not exe) or (not failed and len(bounded) == len(jobs) and not P.get('harness')):
        print('nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
