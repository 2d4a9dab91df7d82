"""Entry point: python sim/main.py <PROPERTY> [--replay FILE | --digest i,j,.. | --one I]"""
import os, sys, json, time, subprocess, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core


def load_check(prop):
    for f in sorted(os.listdir(os.path.join(core.VERIF, 'checks'))):
        if f.startswith(prop.lower()) and f.endswith('.py'):
            mod = importlib.import_module('checks.' + f[:-3])
            return mod.CHECK
    raise SystemExit('no check for ' + prop)


def fmt_replay(scn, res, extra):
    return dict(property=scn['property'], violation=dict(kind=res['kind'], detail=res['detail'], key=res['key']),
                digest=res['snap']['hash'] if res.get('snap') else None,
                trace=res['snap']['events'] if res.get('snap') else None, scenario=scn, **extra)


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = load_check(prop)
    t_start = time.monotonic()
    opts = {}
    it = iter(args[1:])
    for a in it:
        opts[a] = next(it, None)
    check.setup()
    try:
        if '--replay' in opts:
            return replay(check, opts['--replay'])
        if '--digest' in opts:
            for i in opts['--digest'].split(','):
                scn = core.make_scenario(check, seed, int(i), tier)
                r = core.run_isolated(check, scn, check.timeout)
                print(i, r['status'], r['snap']['hash'] if r.get('snap') else None)
            return 0
        if '--one' in opts:
            scn = core.make_scenario(check, seed, int(opts['--one']), tier)
            print(json.dumps(scn, indent=1))
            r = core.run_isolated(check, scn, check.timeout)
            print(r['status'], r.get('kind'), r.get('detail'), r.get('key'))
            for e in (r['snap'] or {}).get('events') or []: print('   ', e)
            print({k: (r['snap'] or {}).get(k) for k in ('faults', 'probes')})
            return 0
        return batch(check, seed, tier, t_start)
    finally:
        core.drop_scratch()


def replay(check, path):
    with open(path) as f:
        d = json.load(f)
    r = core.run_isolated(check, d['scenario'], check.timeout * 2)
    if r['status'] == 'hang': r['status'] = 'violation'
    if r['status'] == 'violation':
        same = r.get('snap') and r['snap']['hash'] == d.get('digest')
        print('%s: %s' % (r['kind'], r['detail']))
        print('replay %s' % ('reproduces the recorded run exactly' if same else 'violates again, with a different event log'))
        print('VIOLATION property=%s replay=%s' % (check.prop, path))
        return 1
    if r['status'] == 'ok':
        print('no violation')
        return 0
    print('HARNESS ERROR', r.get('detail'))
    return 3


def batch(check, seed, tier, t_start):
    known = core.load_known(check.prop)
    n = int(os.environ.get('VSIM_N') or (check.n_quick if tier == 'quick' else check.n_thorough))
    budget = float(os.environ.get('VSIM_BUDGET') or (check.budget_quick if tier == 'quick' else check.budget_thorough))
    workers = int(os.environ.get('VSIM_WORKERS') or min(8, os.cpu_count() or 1))
    results, bad, wall = core.run_batch(check, seed, tier, n, budget, workers, known)
    viol = [(i, s, r) for i, s, r in results if r['status'] == 'violation' and r['key'] not in known]
    seen_known = {}
    for i, s, r in results:
        if r['status'] == 'violation' and r['key'] in known:
            seen_known.setdefault(r['key'], i)
    harness = [(i, s, r) for i, s, r in results if r['status'] in ('harness', 'hang')]
    if os.environ.get('VSIM_ALL'):                        # survey: every distinct violation, no minimisation
        seen = set()
        for i, s, r in viol:
            if r['key'] in seen: continue
            seen.add(r['key'])
            print('run %d [%s] %s' % (i, r['key'], r['detail'][:600]))
        print('%d runs, %d violations of %d kinds, %d harness %s' % (len(results), len(viol), len(seen), len(harness), [(i, str(r.get('detail'))[-300:]) for i, s, r in harness[:3]]))
        return 0
    ok = [(i, s, r) for i, s, r in results if r['status'] == 'ok']

    # determinism self-check: another interpreter, another hash seed
    mismatch, compared = [], 0
    if ok and not viol and not os.environ.get('VSIM_NODET'):
        pick = [t[0] for t in ok]
        k = check.self_runs if tier == 'quick' else 40
        step = max(1, len(pick) // k)
        pick = pick[::step][:k]
        env = dict(os.environ, PYTHONHASHSEED=str(1 + seed % 1000), VERIF_TIER=tier)
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), check.prop, '--digest', ','.join(map(str, pick[j::3]))],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for j in range(min(3, len(pick)))]
        dig = {}
        for p in ps:
            for line in p.communicate()[0].splitlines():
                f = line.split()
                if len(f) == 3 and f[0].isdigit(): dig[int(f[0])] = f[2]
        ref = {t[0]: t[2]['snap']['hash'] for t in ok}
        for i in pick:
            compared += 1
            if dig.get(i) != ref[i]: mismatch.append(i)

    faults, probes, states = {}, {}, set()
    sim_time = steps = 0
    digests, nontriv = set(), set()
    samples = []
    for i, s, r in results:
        snap = r.get('snap')
        if not snap: continue
        for k, v in snap['faults'].items(): faults[k] = faults.get(k, 0) + v
        for k, v in snap['probes'].items(): probes[k] = probes.get(k, 0) + v
        states |= snap['states']
        sim_time += snap['sim_time']; steps += snap['steps']
        digests.add(snap['hash'])
        if r.get('nontrivial'): nontriv.add(snap['hash'])
        if r['status'] == 'ok' and len(samples) < 3 and r.get('nontrivial'):
            samples.append(dict(index=i, scenario=s, first_events=r.get('events_head')))
    for p in getattr(check, 'expected_probes', []): probes.setdefault(p, 0)
    cov = dict(evaluations=len(results), distinct_nontrivial=len(nontriv), rule=check.rule, samples=samples,
               runs_per_hour=round(3600.0 * len(results) / max(wall, 1e-9)),
               seeds_per_hour=round(3600.0 * len(results) / max(wall, 1e-9)),
               planned_runs=n, simulated_seconds=round(sim_time, 3), events=steps,
               faults_injected=dict(sorted(faults.items())), probes_hit=dict(sorted(probes.items())),
               distinct_states=len(states), distinct_event_logs=len(digests),
               state_measure=getattr(check, 'state_measure', 'abstract states recorded by the check'),
               real_components=check.real, stubbed_components=check.stub,
               determinism=dict(rerun_in_fresh_interpreter_with_other_hash_seed=compared, mismatches=len(mismatch)),
               workers=workers, known_findings_seen=sorted(seen_known))
    ev = dict(property=check.prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=check.assumptions, wall_s=round(time.monotonic() - t_start, 2), violations=len(viol))
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)

    def write_ev():
        ev['wall_s'] = round(time.monotonic() - t_start, 2)
        with open(os.path.join(core.VERIF, 'evidence', check.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    write_ev()
    print('%s seed=%d tier=%s runs=%d/%d ok=%d faults=%s states=%d wall=%.1fs' % (
        check.prop, seed, tier, len(results), n, len(ok), sum(faults.values()), len(states), wall))
    for k, w in sorted(known.items()):
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (check.prop, w))
    if mismatch:
        print('WARNING: %d of %d re-executed runs had a different event log: %s' % (len(mismatch), compared, mismatch))
    if viol:
        i, scn, r = viol[0]
        print('violation in run %d: %s: %s' % (i, r['kind'], r['detail']))
        small, tried = core.minimise(check, scn, r['kind'])
        r2 = core.run_isolated(check, small, check.timeout * 2)
        if r2['status'] == 'hang': r2['status'] = 'violation'
        if r2['status'] != 'violation':
            small, r2 = scn, r
        out = os.path.join(core.VERIF, 'replays')
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, '%s-%d-%d.json' % (check.prop, seed, i))
        rep = fmt_replay(small, r2, dict(verif_seed=seed, index=i, original_ops=len(scn.get('ops') or []),
                                         minimised_ops=len(small.get('ops') or []), minimiser_runs=tried))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, default=str)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), check.prop, '--replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if p.returncode == 1:
            print('replayed in a fresh process: ' + ('same event log' if 'exactly' in p.stdout else 'violates again'))
        else:
            print('NOTE: the minimised file did not fail again in a fresh process')
        print('%s: %s' % (r2['kind'], r2['detail']))
        write_ev()
        print('VIOLATION property=%s replay=%s' % (check.prop, path))
        return 1
    if harness or bad:
        for i, s, r in harness[:3]:
            print('HARNESS ERROR in run %d: %s' % (i, r.get('detail')))
        print('%d harness errors, %d dead workers' % (len(harness), bad))
        return 3
    if not ok:
        print('no run completed')
        return 3
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
