#!/usr/bin/env python3-vt
"""Decides one property on /repo's current working tree.

usage: check.py <property id>          (tier from VERIF_TIER, seed from VERIF_SEED)

1. extracts LLVM IR from every library source of /repo (fresh, in a scratch directory)
2. discharges every obligation of the property's contracts on it
3. if an obligation fails: looks for a concrete failing input on the real code (native replay), reports VIOLATION
"""
import sys, os, time, json, tempfile, shutil, subprocess, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'irv'), os.path.join(HERE, 'spec')]
T0 = time.time()

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = float(os.environ.get('VERIF_LIMIT', '760' if tier == 'quick' else '7200'))
    import build, llir, run, registry
    P = registry.PROPS[pid]
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        try:
            ll = build.build_ir(work)
        except build.BuildError as e:
            print('BUILD-ERROR: /repo does not compile to the verification input: %s' % e)
            return 2
        mod = llir.parse(open(ll).read())
        ctx = registry.Ctx(work=work, tier=tier, seed=seed, deadline=T0 + limit, mod=mod, ll=ll)
        tasks = P['tasks'](ctx)
        res = run.run_all(mod, tasks, jobs=int(os.environ.get('VERIF_JOBS', '8')), deadline=T0 + limit, stop_on_violation=True, ll=ll)
        bad = []; undone = []
        known = set()
        st = run.Stats()
        backends = {}
        extra_ob = extra_dis = 0
        bounded = []
        ev_extra = {}
        for t, r in zip(tasks, res):
            if r is None:
                undone.append((t, dict(status='not run', detail='time limit or stopped after an earlier violation'))); continue
            st.merge(r['stats'])
            b = r.get('backend', 'irv+z3')
            backends[b] = backends.get(b, 0) + 1
            extra_ob += r.get('obligations', 0); extra_dis += r.get('discharged', 0)
            if r.get('bounded'): bounded.append('%s: %s' % (t.name, r['bounded']))
            for k in r['stats'].covers:
                if str(k).startswith('KNOWN-FINDING:'): known.add(k.split(':', 1)[1])
            if r['status'] == 'violation': bad.append((t, r))
            elif r['status'] != 'proved': undone.append((t, r))
        nproved = sum(1 for r in res if r and r['status'] == 'proved')
        total_ob = st.safety + st.post + extra_ob
        failed = len(bad) + len(undone)
        ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'),
                  coverage=dict(obligations=total_ob + failed, discharged=total_ob if not extra_ob else st.safety + st.post + extra_dis,
                                checker_cmd='check.py %s (irv: contract verifier over the LLVM IR of /repo, z3 %s; %s)' % (pid, _z3v(), ', '.join('%s: %d tasks' % kv for kv in sorted(backends.items()))),
                                trusted_base=P.get('trusted', []) + registry.TRUSTED,
                                function_proofs=len(tasks), function_proofs_discharged=nproved,
                                functions_under_contract=sorted(set(t.func for t in tasks)),
                                functions_executed=sorted(st.funcs), callee_contracts_used=sorted(st.contracts),
                                paths=st.paths, safety_obligations=st.safety, postconditions=st.post, by_rewriting=st.structural,
                                smt_queries=st.smt, solver_seconds=round(st.smt_time, 2), reachability_covers=sorted(map(str, st.covers)),
                                bounded_stand_ins=bounded),
                  assumptions=P.get('assumptions', []) + registry.ASSUMPTIONS,
                  wall_s=0.0, violations=[])
        rc = 0
        KF = registry.known_findings(pid)
        for k in sorted(known):
            if k in KF:
                print('KNOWN-FINDING: property=%s %s' % (pid, KF[k]))
            else:
                bad.append((None, dict(status='violation', label=k, detail='finding not listed in known-findings.txt', model=None)))
        if not bad and not undone and any(r and r.get('fellback') for r in res):
            # a bounded stand-in took over on this text: the concrete search looks at the lengths it leaves out (a failing input is a violation; none says nothing)
            found, nout = native(P, pid, work, seed, [], tier)
            if found: bad.append((None, dict(status='violation', label='concrete failing input (the unbounded proof did not go through on this text)', detail='; '.join(bounded)[:500], model=None)))
        if not tasks or (not bad and not undone and total_ob == 0):
            print('CHECK-ERROR: no obligations were generated'); rc = 2
        if bad or undone:
            rc = 1
            rp = os.path.join(HERE, 'evidence', pid + '.replay.txt')
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            found, nout = native(P, pid, work, seed, bad + undone, tier)
            with open(rp, 'w') as f:
                f.write('property %s on %s\n\n' % (pid, build.REPO))
                for t, r in (bad + [u for u in undone if u[1]['status'] != 'not run'] or undone)[:20]:
                    f.write('failed obligation: %s\n  function: %s\n  status: %s\n  obligation: %s\n  detail: %s\n' % (t.name if t else '-', t.func if t else '-', r['status'], r.get('label', ''), r.get('detail', '')))
                    if r.get('model'):
                        f.write('  verifier counterexample:\n')
                        for k, v in sorted(r['model'].items(), key=lambda kv: str(kv[0]))[:4000]:
                            f.write('    %s = %s\n' % (k, v))
                f.write('\nnative replay against the real code (%s):\n%s\n' % ('failing input found' if found else 'no failing input found', nout))
            ev['violations'] = [dict(task=t.name if t else '-', status=r['status'], label=r.get('label', ''), detail=str(r.get('detail', ''))[:2000]) for t, r in (bad + undone)[:50]]
            for t, r in (bad + [u for u in undone if u[1]['status'] != 'not run'] or undone)[:5]:
                print('failed obligation: %s [%s] %s %s' % (t.name if t else '-', r['status'], r.get('label', ''), str(r.get('detail', ''))[:400]))
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
        ev['wall_s'] = round(time.time() - T0, 2)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        if rc == 0:
            print('%s: %d function proofs, %d obligations discharged (%d paths, %d SMT queries) in %.1fs' % (pid, nproved, ev['coverage']['discharged'], st.paths, st.smt, ev['wall_s']))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return '?'

def native(P, pid, work, seed, fails, tier):
    """search for a concrete failing input on the natively compiled real code; returns (found, text)"""
    script = P.get('native')
    if not script: return False, 'no native replay driver for this property'
    if isinstance(script, tuple): script = [script]
    text = ''
    for sc in script:
        found, out = _native1(sc, work, seed, fails)
        text += '-- %s\n%s\n' % (' '.join(sc), out)
        if found: return True, text
    return False, text

def _native1(script, work, seed, fails):
    try:
        models = [dict(task=t.name if t else '', label=r.get('label', ''), model={str(k): v for k, v in (r.get('model') or {}).items()}) for t, r in fails[:8]]
        with open(os.path.join(work, 'models.json'), 'w') as f: json.dump(models, f, default=str)
        w = tempfile.mkdtemp(dir=work)
        cmd = ['python3-vt', os.path.join(HERE, 'native', script[0])] + list(script[1:]) + [w]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=max(20, min(110, 880 - (time.time() - T0))), env=dict(os.environ, VERIF_SEED=str(seed)))
        out = (p.stdout + p.stderr)[-6000:]
        return ('FAILING-INPUT' in p.stdout), out
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b'')
        o = o.decode(errors='replace') if isinstance(o, bytes) else o
        return ('FAILING-INPUT' in o), o[-6000:] + '\n(native search timed out)'
    except Exception as e:
        return False, 'native search failed: %r' % e

if __name__ == '__main__':
    sys.exit(main())
