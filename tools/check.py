#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.

1. every unit of the property is regenerated from /repo/src and handed to Verus; all obligations must be discharged;
2. the real library is run on generated inputs against independent oracles: this is the search for a failing input when an
   obligation fails, and the bounded stand-in for the functions of the property that are not under contract.

exit 0: held (see the evidence file for what was proved and what was only searched)
exit 1: VIOLATION line; with `no-failing-input-found` at its end when only an obligation failed
exit 2: the check could not run (e.g. /repo does not compile)."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools')); sys.path.insert(0, os.path.join(VERIF, 'vspec'))
import vgen, units
from plan import PLAN

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
WORK = vgen.WORK
NPROC = max(2, (os.cpu_count() or 4) - 2)

def hbuild(hook):
    e = vgen.env()
    tgt = os.path.join(WORK, 'harness-target' + ('' if hook else '-nohook'))
    e.update(RUSTUP_TOOLCHAIN='1.85.1', CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER='', RUSTFLAGS='-W invalid_reference_casting' + (' --cfg ledger_verif' if hook else ''))
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, 'harness'), env=e, capture_output=True, text=True)
    return (os.path.join(tgt, 'debug', 'harness') if r.returncode == 0 else None), r.stderr

def harness():
    exe, err = hbuild(True)
    if exe: return exe, True
    exe, err2 = hbuild(False)
    if exe: return exe, False
    raise vgen.ToolError('the library or the harness does not compile:\n' + err2[-3000:])

def search(exe, prop, secs, n, seed=SEED):
    """n processes; -> list of results, first violation or None"""
    procs = [subprocess.Popen([exe, prop, str(seed), str(secs), str(k), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for k in range(n)]
    out, viol = [], None
    for k, p in enumerate(procs):
        try: so, se = p.communicate(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); continue
        try: d = json.loads(so.strip().splitlines()[-1])
        except Exception:
            d = None
        if d is None or p.returncode not in (0, 1):
            # it crashed: find the case
            tr = os.path.join(WORK, 'trace_%s_%d_%d' % (prop, os.getpid(), k))
            try: q = subprocess.run([exe, prop, str(seed), str(secs), str(k), str(n), '--trace', tr], capture_output=True, text=True, timeout=secs + 120)
            except subprocess.TimeoutExpired: continue
            if q.returncode not in (0, 1) and os.path.exists(tr):
                last = open(tr, errors='replace').read().strip().splitlines()[-1]
                i, t = last.split(' ', 1)
                try: t = json.loads(t)
                except Exception: pass
                d = dict(evaluations=0, nontrivial=0, samples=[], violation=dict(index=int(i), input=t, what='the process ended with status %s (crash)' % q.returncode))
            elif q.returncode == 1: d = json.loads(q.stdout.strip().splitlines()[-1])
            if os.path.exists(tr): os.remove(tr)
        if d:
            out.append(d)
            if d['violation'] and (viol is None or d['violation']['index'] < viol['index']): viol = d['violation']
    return out, viol

def main():
    t0 = time.time()
    prop = sys.argv[1]
    pl = PLAN[prop]
    vgen.Stop.at = t0 + (420 if TIER == 'quick' else 560)
    os.makedirs(WORK, exist_ok=True)
    rdir = os.path.join(VERIF, 'replays'); os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, prop + '.json')
    if os.path.exists(replay): os.remove(replay)
    with cf.ThreadPoolExecutor(8) as ex:
        fh = ex.submit(harness)
        exe = vgen.extractor()
        futs = {u: ex.submit(vgen.verify_unit, units.UNITS[u], exe, canary=True) for u in pl['units']}
        hexe, hook = fh.result()
        secs = pl.get('secs', 12) if TIER == 'quick' else 90
        runs, viol = search(hexe, prop, secs, NPROC)
        if viol: vgen.Stop.at = min(vgen.Stop.at, time.time() + 60)
        res = {}
        for u, f in futs.items():
            try: res[u] = f.result()
            except vgen.ToolError as e: res[u] = dict(unit=u, ok=False, tool_error=str(e), missing=[], wall=0)
            except Exception as e: res[u] = dict(unit=u, ok=False, tool_error=traceback.format_exc()[-800:], missing=[], wall=0)
    failed = [dict(unit=u, **f) for u, r in res.items() if r['ok'] for f in r['failed']]
    undecided = {}
    for u, r in res.items():
        if not r['ok']: undecided['unit ' + u] = r['tool_error'][:600]
        else:
            for i, (s, why) in r['status'].items():
                if s == 'undecided': undecided[i] = why[:400]
            for i in r.get('vacuous', []): undecided[i] = 'the contract holds vacuously'
    extra = 0
    if viol is None and (failed or undecided):
        # the proof did not go through: search longer, with other inputs
        extra = 60 if TIER == 'quick' else 240
        r2, viol = search(hexe, prop, extra, NPROC + 2, SEED + 1000)
        runs += r2
    ev = sum(r['evaluations'] for r in runs); nt = sum(r['nontrivial'] for r in runs)
    samples = [s[:1500] for r in runs[:3] for s in r['samples'][:3]]
    obligations = sum(r['verified'] + r['errors'] for r in res.values() if r['ok'])
    discharged = sum(r['verified'] for r in res.values() if r['ok'])
    contracts = sorted({c for r in res.values() if r['ok'] for c in r['contracts']})
    assumed = sorted({c for r in res.values() if r['ok'] for c in r['assumed']} - set(contracts))
    trusted = sorted({t for r in res.values() if r['ok'] for t in r['trusted']})
    vgen_cmd = 'python3 tools/vgen.py ' + ' '.join(pl['units']) + '  (verus --output-json --rlimit .. build/gen/<unit>.rs)'
    cov = dict(
        obligations=obligations, discharged=discharged, checker_cmd=vgen_cmd if pl['units'] else 'none',
        trusted_base=trusted + ['contract of a function verified in another unit: ' + a for a in assumed] + pl.get('trusted', []) + units.TRUST_COMMON,
        functions_under_contract=contracts, undecided=undecided,
        failed_obligations=[dict(unit=f['unit'], function=f['fn'], message=f['message']) for f in failed],
        back_end='Verus 0.2026.09.13 / Z3', smt_ms={u: r.get('smt_ms') for u, r in res.items()}, verifier_wall_s={u: round(r.get('wall', 0), 1) for u, r in res.items()},
        vacuity_check='every contract was also run with an unprovable conjunct added to its postcondition; it must then fail (%d functions)' % len(contracts),
        theorems=pl.get('theorems', []),
        extraction={u: dict(rewrites={k: v for k, v in r.get('rules', {}).items()}, inlined=r.get('inlined', {}), demoted=r.get('demoted', {})) for u, r in res.items() if r['ok']},
        bounded=pl.get('bounded', ''),
        evaluations=ev, distinct_nontrivial=nt, rule=pl['rule'], samples=samples, hook=hook, search_seconds=secs, extra_search_seconds=extra, search_processes=NPROC)
    if pl['level'] == 'other': cov['explanation'] = pl['note']
    nviol = 1 if viol else (1 if failed else 0)
    evd = dict(property=prop, tier=TIER, seed=SEED, level=pl['level'], coverage=cov, assumptions=pl.get('assumptions', []) + units.ASSUME_COMMON, wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(evd, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s: %d/%d obligations discharged over %d functions, %d undecided; %d inputs run (%d distinct)%s; %.0f s' % (prop, discharged, obligations, len(contracts), len(undecided), ev, nt, '' if hook else ' [without hook]', time.time() - t0))
    for i, w in undecided.items(): print('  undecided: %s: %s' % (i, w[:200]))
    for f in failed: print('  failed obligation: %s: %s' % (f['fn'], f['message']))
    kf = os.path.join(VERIF, 'known-findings.txt')
    if viol or failed:
        json.dump(dict(property=prop, kind='failing input' if viol else 'failed obligation', failing_input=viol, seed=SEED,
                       reproduce=('%s %s %d 60 0 1 --only %d' % (hexe, prop, SEED if not extra else SEED + 1000, viol['index'])) if viol else vgen_cmd,
                       failed_obligations=[dict(unit=f['unit'], function=f['fn'], message=f['message'], verifier_output=f['rendered'], source=res[f['unit']].get('path')) for f in failed]),
                  open(replay, 'w'), indent=1, ensure_ascii=False)
        if viol: print('failing input: %s\n  %s' % (viol['input'][:3000], viol['what'][:1500]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if viol else ' no-failing-input-found'))
        return 1
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except vgen.ToolError as e:
        print('check could not run: ' + str(e)); sys.exit(2)
