#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--time S] [--seed N]   or   check.py --replay FILE

Rebuilds the simulator and its guests from /repo's working tree, explores, writes evidence/<property>.json.
Exit 0: no unlisted violation. 1: violation, with a VIOLATION line naming the minimised replay file. Other: error."""
import argparse, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild, props
VERIF = simbuild.VERIF
KF = os.path.join(VERIF, 'known-findings.txt')

def findings():
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if not l.startswith('finding:'): continue
            d = dict((k.strip(), v.strip()) for k, v in (x.split('=', 1) for x in l[8:].split('|')[:-1])); d['text'] = l.split('|')[-1].strip(); out.append(d)
    return out

def build(group):
    g = props.GROUPS[group]
    if g['kind'] == 'go':
        import gobuild
        return gobuild.build(group, g)
    b = simbuild.Builder(group, g['programs'], g.get('grayc', False), g.get('drivers', ()))
    return b.build(), b.notes

def runner(group, d):
    return [os.path.join(d, 'simrun')] + (['--mods', d] if props.GROUPS[group]['kind'] == 'c' else ['--dir', d])

def merge(a, b):
    # two statistics records of the same property, from different groups
    out = dict(a)
    for k, v in b.items():
        if k not in a: out[k] = v
        elif k == 'max_sim_ns': out[k] = max(a[k], v)
        elif k == 'samples': out[k] = (a[k][:4] + v[:4])
        elif isinstance(v, dict): out[k] = merge(a[k], v) if isinstance(a[k], dict) else v
        elif isinstance(v, list): out[k] = a[k] + v
        elif isinstance(v, bool): out[k] = a[k] or v
        elif isinstance(v, (int, float)): out[k] = a[k] + v
        else: out[k] = v
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--time', type=float); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('-v', action='store_true'); ap.add_argument('--workers', type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        p, sc = [[l.split()[1] for l in open(a.replay) if l.startswith(k)][0] for k in ('property ', 'scenario ')]
        grp = ([g for g, pat, _ in props.PROPS[p].get('more', []) if re.search(pat, sc)] + [props.PROPS[p]['group']])[0]; d, _ = build(grp)
        sys.exit(subprocess.run(runner(grp, d) + ['--replay', os.path.abspath(a.replay)] + (['-v'] if a.v else [])).returncode)
    P = props.PROPS[a.prop]; G = props.GROUPS[P['group']]; t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    budget = a.time if a.time else P[tier]
    more = P.get('more', []); parts = [(P['group'], 1 - sum(m[2] for m in more))] + [(m[0], m[2]) for m in more] # groups and their shares of the time
    built = [(g, share) + tuple(build(g)) for g, share in parts]; notes = [n for b in built for n in b[3]]; tb = time.time() - t0
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True); rp = os.path.join(VERIF, '.build', 'replays'); os.makedirs(rp, exist_ok=True)
    fl = [f for f in findings() if f['property'] == a.prop]
    tsv = os.path.join(VERIF, '.build', 'known-%s-%d.tsv' % (a.prop, os.getpid()))
    with open(tsv, 'w') as f:
        for x in fl: f.write('\t'.join([a.prop, x.get('scenario', '*'), x['class'], x.get('match', '*'), x['text']]) + '\n')
    s = None
    for grp, share, d, _ in built:
        out = os.path.join(VERIF, '.build', 'stats-%s-%d.json' % (a.prop, os.getpid()))
        cmd = runner(grp, d) + ['--prop', a.prop, '--seed', str(a.seed), '--time', '%.1f' % (budget * share), '--workers', str(a.workers), '--out', out, '--replays', rp, '--known', tsv, '--det', '24' if tier == 'quick' else '200']
        r = subprocess.run(cmd, timeout=budget * share + 400)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print('ERROR: simulation of %s ended with status %d' % (a.prop, r.returncode)); sys.exit(2)
        one = json.load(open(out)); os.unlink(out); s = merge(s, one) if s else one
        if s.get('violation'): break
    os.unlink(tsv)
    for f in fl: print('KNOWN-FINDING: property=%s %s' % (a.prop, f['text']))
    w = max(s['wall_s'], 0.001)
    cov = {
        'evaluations': s['runs'], 'distinct_nontrivial': s['distinct_nontrivial'], 'rule': P['rule'], 'samples': s['samples'] or ['(no run sampled)'],
        'distinct_executions': s['distinct_executions'], 'distinct_interleavings': s['distinct_schedules'], 'interleaving_measure': P.get('measure', 'hash of the sequence of (thread switched to, decision point at which)'),
        'runs_per_hour': round(s['runs'] / w * 3600), 'seeds_per_hour': round(s['runs'] / w * 3600), 'simulated_seconds': s['sim_ns'] / 1e9, 'longest_run_simulated_seconds': s['max_sim_ns'] / 1e9,
        'scheduler_steps': s['steps'], 'thread_switches': s['switches'], 'decision_points': s['points'], 'memory_access_points': s['mem_points'], 'events_recorded': s['events'],
        'faults': s['faults'], 'reached': s['probes'], 'scenarios': s['scenarios'], 'known_findings': s['known'],
        'determinism': {'runs_repeated': s['determinism_checked'], 'mismatches': s['determinism_mismatch']},
        'real_code': P.get('real', G.get('real', [props.REAL_RT])), 'stubs': P.get('stubs', G.get('stubs', [props.STUB_RT])), 'build_notes': notes, 'build_s': round(tb, 1), 'exploration_s': round(w, 1), 'oracle': P['oracle'],
    }
    viol = 1 if s.get('violation') else 0
    if viol: cov['violation'] = s['violation']
    json.dump({'property': a.prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration', 'coverage': cov, 'assumptions': P.get('assumptions', G.get('assumptions', [props.A_SIM, props.A_SAMP])), 'wall_s': round(time.time() - t0, 2), 'violations': viol}, open(os.path.join(ev, a.prop + '.json'), 'w'), indent=1)
    if viol:
        v = s['violation']
        print('%s: %s\n  seed %d, %d decisions after minimisation (of %d)' % (v['class'], v['message'], v['seed'], v['choices'], v['original_choices']))
        print('VIOLATION property=%s replay=%s' % (a.prop, v['replay'])); sys.exit(1)
    print('%s: %d simulated runs, %d distinct, no unlisted violation' % (a.prop, s['runs'], s['distinct_executions'])); sys.exit(0)

if __name__ == '__main__':
    try: main()
    except simbuild.BuildError as e: print('BUILD ERROR: %s' % e); sys.exit(2)
    except subprocess.TimeoutExpired: print('ERROR: the simulation did not end'); sys.exit(2)
