#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  - builds the simulator for one property and searches for a violation.
Exit 0 held, 1 VIOLATION, 2 error of the check."""
import glob, json, os, re, subprocess, sys, time, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim')); sys.path.insert(0, os.path.join(V, 'harness'))
import build
from checks import CHECKS

def load_known(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k['status'] == 'open']

def symbolise(exe, msg):
    pcs = sorted(set(re.findall(r'0x[0-9a-f]{6,}', msg)))
    for pc in pcs:
        a = hex(int(pc, 16) - 1)
        r = subprocess.run(['addr2line', '-Cfpe', exe, a], capture_output=True, text=True).stdout.strip()
        r = re.sub(r'/repo/|/verif/', '', r)
        if r and '??' not in r[:3]: msg = msg.replace(pc, r[:300])
    return msg

def last_json(out):
    for l in reversed(out.strip().splitlines()):
        if l.startswith('{'):
            try: return json.loads(l)
            except ValueError: pass
    return None

def replay(exe, plan):
    r = subprocess.run([exe, 'replay', '--plan', plan], capture_output=True, text=True)
    return last_json(r.stdout) or {'done': 0, 'kind': 'no-answer', 'msg': (r.stdout + r.stderr)[-400:]}

def search(pid, name, exe, cfg, tier, seed, rdir, total, maxsec):
    """explores with one worker per core; returns (results, violation, error)"""
    W = int(os.environ.get('VERIF_JOBS', '8')); res = []; err = None; viol = None
    procs = []
    for w in range(W):
        out = os.path.join(rdir, '%s%d.plan' % (name + '-' if name else 'w', w))
        cmd = [exe, 'explore', '--seed', str(seed), '--first', str(w), '--stride', str(W), '--count', str(total // W), '--maxsec', str(maxsec), '--thorough', str(int(tier == 'thorough')), '--out', out, '--twice', str(cfg.get('twice', 40)), '--minsec', '40']
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = [None] * W
    def rd(i): o, e = procs[i].communicate(); outs[i] = (procs[i].returncode, o, e)
    th = [threading.Thread(target=rd, args=(i,)) for i in range(W)]
    for t in th: t.start()
    # once one worker has a violation the others get a short grace period
    first = None
    while any(t.is_alive() for t in th):
        time.sleep(0.1)
        if first is None and any(p.poll() == 1 for p in procs): first = time.time()
        if first and time.time() - first > 1: [p.kill() for p in procs if p.poll() is None]
    for t in th: t.join()
    for i, (rc, o, e) in enumerate(outs):
        j = last_json(o)
        if rc == 0 and j: res.append(j)
        elif rc == 1 and j:
            # fresh-process replay gate
            a = replay(exe, j['path'])
            if a['done'] != 2 or a['kind'] != j['kind'] or a['hash'] != j['hash']: err = 'violation does not replay: %s / %s' % (j, a); continue
            if viol is None: viol = j
        elif rc in (-9,) and first: pass
        else: err = 'worker %d: rc %s %s %s' % (i, rc, o[-600:], e[-600:])
    return res, viol, err

def main():
    pid = sys.argv[1]; cfg = CHECKS[pid]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    parts = cfg.get('parts') or [cfg]; named = 'parts' in cfg; only = os.environ.get('VERIF_PART')
    if only: parts = [p for p in parts if p['name'] == only]
    exes = [build.build(pid + (p['name'] if named else ''), p['harness'], p.get('defs', ()), p.get('narrow', False)) for p in parts]
    tb = time.time() - t0
    known = load_known(pid)
    rdir = os.path.join(V, 'replays', pid); os.makedirs(rdir, exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == 'replay':
        plan = sys.argv[3]; k = next((i for i, p in enumerate(parts) if named and os.path.basename(plan).startswith(p['name'] + '-')), 0)
        o = replay(exes[k], plan); print(json.dumps(dict(o, msg=symbolise(exes[k], o.get('msg', ''))))); return 1 if o['done'] == 2 else 0
    for f in glob.glob(os.path.join(rdir, '*')): os.unlink(f)
    viol = None; ncorpus = 0; res = []; vexe = None; we = 0.0
    # 1. the replays of violations found before
    for k, part in enumerate(parts):
        for plan in sorted(glob.glob(os.path.join(V, 'corpus', pid, (part['name'] + '-' if named else '') + '*.plan'))):
            o = replay(exes[k], plan); ncorpus += 1
            if o['done'] == 1: continue
            if o['done'] != 2: print('ERROR: corpus replay gave no answer:', plan, o); return 2
            o2 = replay(exes[k], plan)
            if o2.get('hash') != o['hash']: print('ERROR: corpus replay is not repeatable:', plan); return 2
            kf = [x for x in known if x['plan'] == os.path.relpath(plan, V) and x['kind'] == o['kind'] and re.search(x['match'], o['msg'])]
            if kf: print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what'])); continue
            viol = dict(kind=o['kind'], msg=o['msg'], path=plan, runs=ncorpus); vexe = exes[k]; break
        if viol: break
    # 2. seeded search
    perpart = {}
    for k, part in enumerate(parts):
        if viol: break
        total = part['quick' if tier == 'quick' else 'thorough']; maxsec = float(os.environ.get('VERIF_MAXSEC', part.get('maxsec', 40) if tier == 'quick' else part.get('tmaxsec', 600)))
        te = time.time(); r, v, err = search(pid, part['name'] if named else '', exes[k], part, tier, seed, rdir, total, maxsec); we += time.time() - te
        if v: viol = v; vexe = exes[k]
        elif err: print('ERROR:', err); return 2
        if named: perpart[part['name']] = sum(x['runs'] for x in r)
        res += r
        nd = [x['nondet_index'] for x in r if x['nondet']]
        if not viol and nd: print('ERROR: runs were not repeatable', part.get('name', ''), nd); return 2
    nondet = sum(r['nondet'] for r in res)
    # evidence
    cnt = {}; rw = {}; sigs = set()
    for r in res:
        for k, v in r['counts'].items(): cnt[k] = cnt.get(k, 0) + v
        for k, v in r['runs_with'].items(): rw[k] = rw.get(k, 0) + v
        sigs |= set(r['sigs'])
    runs = sum(r['runs'] for r in res)
    cov = dict(evaluations=runs + ncorpus, distinct_nontrivial=len(sigs), rule=cfg['rule'], samples=[r['sample'] for r in res[::max(1, len(res) // 2)][:3]],
            runs=runs, corpus_replays=ncorpus, instrumented_steps=sum(r['steps'] for r in res), preemptions=sum(r['preemptions'] for r in res),
            simulated_seconds=round(sum(r['simtime_s'] for r in res), 3), runs_per_hour=int(runs / max(we, 1e-9) * 3600), seeds_per_hour=int(runs / max(we, 1e-9) * 3600),
            faults_injected={k[6:]: v for k, v in sorted(cnt.items()) if k.startswith('fault.')}, probes={k: v for k, v in sorted(cnt.items()) if not k.startswith('fault.')},
            runs_with={k: v for k, v in sorted(rw.items())}, distinct_event_histories=sum(r['hashes'] for r in res),
            repeated_runs=sum(r['twice'] for r in res), repeated_runs_differing=nondet, rollhash='%016x' % __import__('functools').reduce(lambda a, r: a ^ int(r['rollhash'], 16), res, 0),
            build_s=round(tb, 1), search_s=round(we, 1), workers=int(os.environ.get('VERIF_JOBS', '8')),
            real_components=cfg['real'], stubbed_components=cfg.get('stub', 'allocator, thread scheduler and locks, clocks, stdio of the simulated process'))
    if named: cov['runs_per_part'] = perpart
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
        assumptions=cfg.get('assumptions', []) + ['a clean batch is evidence from the runs made, not proof'], coverage=cov)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if viol:
        print('violation of %s: %s: %s' % (pid, viol['kind'], symbolise(vexe, viol['msg'])))
        print('VIOLATION property=%s replay=%s' % (pid, viol['path']))
        return 1
    # reach: a probe this check relies on must have fired
    dead = [p for p in cfg.get('must', []) if not cnt.get(p)]
    if dead and tier == 'quick': print('WARNING: probes never reached: ' + ', '.join(dead))
    print('%s held: %d runs, %d distinct signatures, %d steps, build %.0fs search %.0fs; faults %s' % (pid, runs, len(sigs), cov['instrumented_steps'], tb, we, cov['faults_injected']))
    return 0

if __name__ == '__main__': sys.exit(main())
