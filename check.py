#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]    run the monitors of one property against /repo's current tree
   check.py --replay FILE                                   re-run one recorded violation
Exit 0: held on everything explored; 1: a line VIOLATION property=<id> replay=<path>; 2: the check could not answer."""
import os, re, sys, json, time, subprocess, shutil, argparse
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build
from plans import PLANS, RULES
def known():
    out = []
    p = V + '/known_findings.txt'
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith('finding:'): out.append(dict(re.findall(r'(\w+)="([^"]*)"', l)))
    return out
def is_known(kf, prop, d):
    for k in kf:
        if k.get('property') == prop and k.get('scn') in (None, d['scn']) and k.get('kind') == d['kind'] and re.search(k['key'], d['key']) and re.search(k.get('env', ''), ' '.join(d.get('env', []))) and re.search(k.get('desc', ''), d.get('desc', '')): return k
    return None
def run_harness(exe, variant, scn, seed, cases, thorough, out, jobs, limit):
    cmd = [exe, '--scn', scn, '--seed', str(seed), '--cases', str(cases), '--variant', variant, '--out', out, '--jobs', str(jobs), '--maxfail', '4', '--time', str(limit)] + (['--thorough'] if thorough else [])
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=limit + 240)
    except subprocess.TimeoutExpired: return None, [], 'runner did not finish'
    fails, summ, samp = [], None, []
    for l in open(out, errors='replace') if os.path.exists(out) else []:
        try: d = json.loads(l)
        except ValueError: continue
        if 'summary' in d: summ = d
        elif 'sample' in d: samp.append({k: x for k, x in d.items() if k != 'sample'})
        else: fails.append(d)
    if summ is not None: summ['cases_shown'] = samp
    return summ, fails, p.stderr[-2000:]
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--scale', type=float, default=1.0); ap.add_argument('--replay'); ap.add_argument('--out', default=V + '/evidence')
    a = ap.parse_args(); t0 = time.time()
    if a.replay:
        d = json.load(open(a.replay)); exe = build.build([d['variant']])[d['variant']]
        sys.exit(subprocess.run([exe, '--scn', d['scn'], '--seed', str(d['seed']), '--case', str(d['case']), '--variant', d['variant']] + (['--thorough'] if d.get('thorough') else [])).returncode)
    prop = a.prop; thorough = a.tier == 'thorough'; plan = PLANS[prop]; kf = known()
    os.makedirs(a.out, exist_ok=True)
    work = V + '/build/run.%d' % os.getpid(); os.makedirs(work, exist_ok=True)
    variants = sorted({v for v, s, q, t in plan if (t if thorough else q)})
    try: exes = build.build(variants)
    except Exception as e:
        # the plain library links but not with its profiling layer: the profiling interface itself is broken
        if prop == 'C29' and re.search(r'undefined (reference|symbol)|multiple definition|duplicate symbol', str(e)) and re.search(r'-prof/harness|-tool/harness', str(e)):
            try: build.build(['ompi4'])
            except Exception: print('BUILD FAILED: %s' % e); sys.exit(2)
            os.makedirs(a.out + '/replay', exist_ok=True); rp = '%s/replay/C29-link.txt' % a.out; open(rp, 'w').write(str(e))
            json.dump(dict(property=prop, tier=a.tier, seed=a.seed, level='exploration', coverage=dict(evaluations=1, distinct_nontrivial=1, rule='link of the library with its profiling layer', samples=[str(e)[-800:]]), assumptions=[], wall_s=round(time.time() - t0, 1), violations=1), open('%s/C29.json' % a.out, 'w'))
            print('LINK with the profiling layer fails:\n%s\nVIOLATION property=C29 replay=%s' % (str(e)[-1500:], rp)); sys.exit(1)
        print('BUILD FAILED: %s' % e); sys.exit(2)
    tb = time.time() - t0
    fails, sums, errors, knownhit = [], [], [], []
    for v, s, q, t in plan:
        cases = int((t if thorough else q) * a.scale)
        if not cases: continue
        out = '%s/%s.%s.json' % (work, v, s)
        summ, fl, err = run_harness(exes[v], v, s, a.seed, cases, thorough, out, 8, 3000 if thorough else 420)
        if summ is None or summ.get('workers_lost') or summ['cases'] == 0: errors.append('%s/%s: %s' % (v, s, err or 'no summary'))
        elif summ['inconclusive'] * 5 > summ['cases']: errors.append('%s/%s: %d of %d cases inconclusive: %s' % (v, s, summ['inconclusive'], summ['cases'], err))
        elif not fl and summ['cases'] < cases * 0.05: errors.append('%s/%s: only %d of %d cases ran' % (v, s, summ['cases'], cases))
        if summ: sums.append(summ)
        for d in fl:
            d.update(variant=v, seed=a.seed, thorough=thorough); k = is_known(kf, prop, d)
            (knownhit if k else fails).append((d, k))
        if fails and not thorough: break
    shutil.rmtree(work, ignore_errors=True)
    tot = {}
    for s in sums:
        for k, x in s.items():
            if isinstance(x, int) and k not in ('seed', 'summary', 'edges_total', 'edges'): tot[k] = tot.get(k, 0) + x
    seen = set(); rep = []
    for d, k in fails:
        key = (d['scn'], d['kind'], d['key'])
        if key in seen: continue
        seen.add(key); rep.append(d)
    samples = [dict(scenario=s['scn'], variant=s['variant'], cases=s['cases'], distinct_schedules=s['distinct_schedules'], distinct_situations=s['distinct_situations'], library_edges='%d/%d' % (s['edges'], s['edges_total']), oracle_checks=s.get('oracle_evaluations', 0), mpi_calls=s.get('mpi_calls', 0), actual_cases=s.get('cases_shown', [])) for s in sums]
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=a.seed, level='exploration',
              coverage=dict(evaluations=tot.get('cases', 0), distinct_nontrivial=min(tot.get('distinct_schedules', 0), tot.get('cases', 0)), rule=RULES, samples=samples, observed={k: x for k, x in tot.items() if k not in ('cases', 'fails')}, build_s=round(tb, 1), known_findings_hit=len(knownhit)),
              assumptions=['The simulated MPI (sim/) implements MPI-3.1 semantics; behaviour is explored on generated programs and schedules, not enumerated.'], wall_s=round(time.time() - t0, 1), violations=len(rep))
    json.dump(ev, open('%s/%s.json' % (a.out, prop), 'w'), indent=1)
    done = set()
    for d, k in knownhit:
        if k['key'] + d['scn'] in done: continue
        done.add(k['key'] + d['scn']); print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', d['key'])))
    for i, d in enumerate(rep):
        os.makedirs(a.out + '/replay', exist_ok=True); p = '%s/replay/%s-%d.json' % (a.out, prop, i); json.dump(d, open(p, 'w'), indent=1)
        print('%s %s [%s, %s case %d, %d ranks]: %s\n  env: %s\n  program: %s' % (d['kind'], d['key'], d['variant'], d['scn'], d['case'], d['n'], d['msg'][:1500], ' '.join(d['env']), d['desc']))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    print('%s %s: %d cases, %d schedules, %d oracle evaluations, %d MPI calls, %.1f s (build %.1f s)' % (prop, ev['tier'], tot.get('cases', 0), tot.get('distinct_schedules', 0), tot.get('oracle_evaluations', 0), tot.get('mpi_calls', 0), ev['wall_s'], tb))
    if rep: sys.exit(1)
    if errors: print('NO ANSWER: ' + '\n'.join(errors)); sys.exit(2)
    sys.exit(0)
main()
