#!/usr/bin/env python3
"""Runs the Kani harnesses of one property, confirms every failure natively, writes the evidence."""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
K = V + '/kani'
t0 = time.time()
env = dict(os.environ)
env.pop('RUSTUP_TOOLCHAIN', None)
env['CARGO_NET_OFFLINE'] = 'true'
env['CARGO_TARGET_DIR'] = K + '/target'
if TIER != 'quick':
    env['C28_DEEP'] = '1'
else:
    env.pop('C28_DEEP', None)
MOST = 15 if TIER == 'quick' else 63
nat = dict(env, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=K + '/target/native')
WORK = V + '/work/kani_' + ID
os.makedirs(WORK, exist_ok=True)
os.makedirs(V + '/evidence', exist_ok=True)
PREFIX = {'C27': 'nan::', 'C28': 'rec::'}[ID]


def run(cmd, log, e, timeout, cwd=K):
    with open(log, 'w') as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = 'timeout'
    return rc, open(log, errors='replace').read()


def fail(msg):
    print('error:', msg)
    sys.exit(3)


rc, out = run(['cargo', 'build', '--offline'], WORK + '/native.log', nat, 600)
if rc != 0:
    print(out[-3000:])
    fail('the native comparison does not build against /repo')
REPLAY = K + '/target/native/debug/kreplay'

jobs = max(1, min(8, os.cpu_count() or 1))
cap = 240 if TIER == 'quick' else 3000
cmd = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--no-assertion-reach-checks', '--lib',
       '--harness', PREFIX, '--output-format', 'terse', '--harness-timeout', f'{cap}s', '-j', str(jobs)]
rc, out = run(cmd, WORK + '/kani.log', env, 700 if TIER == 'quick' else 7000)
if 'error: could not compile' in out or re.search(r'^error(\[|:).*(failed to resolve|could not)', out, re.M):
    print(out[-3000:])
    fail('the harnesses do not build against /repo')

# results are interleaved: "Thread k: Checking harness x..." then "Thread k:" followed by its result
res, cur, who = {}, {}, None
for line in out.splitlines():
    m = re.match(r'(?:Thread (\d+):\s*)?Checking harness (\S+?)\.\.\.', line)
    if m:
        who = m.group(1) or '0'
        cur[who] = m.group(2)
        res.setdefault(m.group(2), {'status': 'no answer', 'covers': None, 'time': 0.0, 'failed': []})
        continue
    m = re.match(r'Thread (\d+):', line)
    if m:
        who = m.group(1)
        continue
    if who not in cur:
        continue
    r = res[cur[who]]
    if m := re.search(r'(\d+) of (\d+) failed', line):
        r['checks'] = int(m.group(2))
    elif m := re.search(r'(\d+) of \d+ cover properties satisfied', line):
        r['covers'] = int(m.group(1))
    elif m := re.match(r'Failed Checks: (.*)', line):
        r['failed'].append(m.group(1))
    elif 'VERIFICATION:- SUCCESSFUL' in line:
        r['status'] = 'holds'
    elif 'VERIFICATION:- FAILED' in line:
        r['status'] = 'fails'
    elif m := re.match(r'Verification Time: ([\d.]+)s', line):
        r['time'] = float(m.group(1))
    elif 'CBMC timed out' in line or 'out of memory' in line:
        r['status'] = 'no answer'
if not res:
    print(out[-3000:])
    fail('no harness ran')


def words(h):
    """the inputs Kani's counterexamples (and witnesses) for a harness print, as lists of 64-bit words"""
    c = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '-Z', 'concrete-playback', '--no-assertion-reach-checks',
         '--lib', '--exact', '--harness', h, '--concrete-playback', 'print', '--harness-timeout', '100s']
    _, o = run(c, WORK + '/playback.log', env, 150)
    r = []
    for test in o.split('fn kani_concrete_playback')[1:]:
        vals = [[int(x) for x in m.split(',') if x.strip()] for m in re.findall(r'^\s*vec!\[([\d, ]*)\],?\s*$', test, re.M)]
        b = bytes(x for v in vals for x in v)
        w = [int.from_bytes(b[i:i + 8].ljust(8, b'\0'), 'little') for i in range(0, len(b), 8)]
        if w and w not in r:
            r.append(w)
    return r


def native(args, timeout=120):
    try:
        p = subprocess.run([REPLAY] + args, capture_output=True, text=True, timeout=timeout)
        return p.stdout
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')


names = native(['names']).split()
FAM = {'graham_single': r'::single_precision::graham', 'graham_double': r'::double_precision::graham',
       'jarvis_single': r'::single_precision::jarvis', 'jarvis_double': r'::double_precision::jarvis',
       'lines_2d_single': r'::single_precision::plot_2d', 'lines_3d_single': r'::single_precision::plot_3d',
       'lines_2d_double': r'::double_precision::plot_2d', 'lines_3d_double': r'::double_precision::plot_3d',
       'pip_ones': r'is_single_point', 'pip_manys': r'are_multiple', 'distances': r'haversine', 'bearings': r'bearing',
       'icps_2d': r'icp_2d', 'icps_3d': r'icp_3d'}


def functions(h):
    m = re.match(r'rec::pre_(\w+)_(\d+)$', h)
    fam, i = m.group(1), int(m.group(2))
    return [n for n in names if re.search(FAM[fam], n)][i:i + 2]


notes, violation = [], None
layout = 'ok'
if ID == 'C28':
    layout = native(['layout']).strip()
    if layout != 'ok':
        notes.append('the ICP configuration no longer has the mirrored fields: its contents are compared natively only')
unsettled = 0
for h, r in sorted(res.items()):
    if r['status'] == 'holds':
        want = 1 if ID == 'C27' else len(functions(h))
        if (r['covers'] or 0) < want:
            unsettled += 1
            r['status'] = 'vacuous'
            notes.append(f'{h}: the final assertion is not reached for every function')
        continue
    if r['status'] == 'no answer':
        unsettled += 1
        notes.append(f'{h}: no answer within {cap} s')
    # confirm natively
    lines = []
    if ID == 'C27':
        ty = h.split('nan_')[-1]
        for w in words(h):
            if not lines and 'MISMATCH' in native(['nan', ty] + [str(x) for x in w[:2]]):
                r['input'] = w
                lines = [f'IsNan for {ty} is wrong for the value with bits {" ".join(hex(x) for x in reversed(w[:2]))}']
    else:
        for f in functions(h):
            o = native(['diff', f, '4000' if TIER == 'quick' else '40000'])
            lines += [l for l in o.splitlines() if l.startswith('MISMATCH ' + f + ' ')]
        if not lines and r['status'] == 'fails' and time.time() - t0 < 500:
            for w in words(h):
                for f in functions(h) if len(w) >= 16 else []:
                    o = native(['diff', f, '0'] + [str(x) for x in w[:16]], 20)
                    lines += [l for l in o.splitlines() if l.startswith('MISMATCH ' + f + ' ')]
    if lines:
        r['confirmed'] = lines
        if violation is None:
            violation = (h, lines)
    elif r['status'] == 'fails':
        unsettled += 1
        r['status'] = 'not reproduced'
        notes.append(f'{h}: a counterexample of the recorder model does not show in native runs (the function reaches its '
                     'result in another way than one call of the generic function); not decided')

solver = sum(r['time'] for r in res.values())
checks = sum(r.get('checks', 0) for r in res.values())
if ID == 'C27':
    bounds = 'all bit patterns of f32 and f64, all values of the twelve integer types; no loop, no bound'
    funcs = ['IsNan::is_nan for u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64']
    assume = ['Kani/CBMC models machine integers and IEEE floats bit-precisely']
else:
    bounds = (f'clouds of 0 to {MOST} points of arbitrary bit patterns, arbitrary flags, voxel sizes, radii, configurations; '
              f'arbitrary results of 0 to {MOST} points (compared in length, memory, the first two and one arbitrary element); '
              'every loop unwound 8 times with unwinding assertions')
    funcs = names
    assume = ['the generic functions are replaced by recorders returning an arbitrary result: what they compute is the subject of the other properties',
              'ICP configurations are read through a struct with the same definition (layout checked natively on every run: ' + layout + ')',
              f'nothing is claimed for what a pregenerated function might do only for clouds of more than {MOST} points']
ev = {
    'property': ID, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
    'coverage': {
        'states': checks, 'transitions': len(res), 'traces_validated_against_impl': sum(len(r.get('confirmed', [])) for r in res.values()),
        'explanation': 'states = verification conditions CBMC decided, transitions = harnesses (symbolic executions of the compiled MIR); traces = counterexamples confirmed natively',
        'functions_encoded': funcs, 'bounds': bounds,
        'queries': len(res), 'queries_unsat': sum(r['status'] == 'holds' for r in res.values()),
        'harnesses_undecided': unsettled, 'solver_s': round(solver, 2),
        'reached_assertions': sum(r['covers'] or 0 for r in res.values()),
        'samples': [f'{h}: {r["status"]}, {r.get("checks", 0)} conditions, {r["time"]:.2f} s' for h, r in sorted(res.items())][:60],
        'notes': notes,
    },
    'assumptions': assume, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
}
json.dump(ev, open(f'{V}/evidence/{ID}.json', 'w'), indent=1)
for n in notes:
    print('note:', n)
if violation:
    h, lines = violation
    path = f'{V}/evidence/{ID}.replay.txt'
    with open(path, 'w') as f:
        f.write(f'harness {h}\nreplay: {REPLAY} diff <function> 4000\n' + '\n'.join(lines) + '\n')
    print(lines[0][:600])
    print(f'VIOLATION property={ID} replay={path}')
    sys.exit(1)
print(f'{ID}: {len(res)} harnesses, {sum(r["status"] == "holds" for r in res.values())} hold, {unsettled} undecided, {checks} conditions, {time.time() - t0:.0f} s')
