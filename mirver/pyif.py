"""C18 companion: the Python module built from /repo is called and compared with what the library computes."""
import json
import os
import shutil
import subprocess
import sys
import time

CALLER = r'''
import json, sys
sys.path.insert(0, sys.argv[1])
import crystsymm
res = []
for c in json.load(open(sys.argv[2])):
    try:
        r = getattr(crystsymm, c['fn'])(c['l'], c['sp'], c['x'], c['cart'], *c['tol'])
        res.append(['ok', r])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        res.append(['panic', type(e).__name__ + ': ' + str(e)])
json.dump(res, sys.stdout)
'''


def parse(text):
    n, s = {}, {}
    for l in text.splitlines():
        p = l.split()
        if l.startswith('n '):
            n[p[1]] = [float(x) for x in p[2:]]
        elif l.startswith('s '):
            s[p[1]] = p[2:]
    calls = []
    for k in range(int(n['calls'][0])):
        x = n.get(f'x{k}', [])
        calls.append({'fn': s[f'fn{k}'][0], 'l': n[f'l{k}'], 'sp': s.get(f'sp{k}', []), 'x': [x[3 * j:3 * j + 3] for j in range(len(x) // 3)],
                      'cart': bool(n[f'cart{k}'][0]), 'tol': n[f'tol{k}']})
    return calls


def text_of(c, k=0):
    f = lambda v: ' '.join(repr(float(x)) for x in v)
    return '\n'.join(['s kind calls', f's fn{k} {c["fn"]}', f's sp{k} ' + ' '.join(c['sp']), f'n calls {k + 1}.0', f'n l{k} ' + f(c['l']),
                      f'n x{k} ' + f([y for x in c['x'] for y in x]), f'n cart{k} {1.0 if c["cart"] else 0.0}', f'n tol{k} ' + f(c['tol'])]) + '\n'


def close(a, b, tol=1e-7):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * (1 + abs(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def close_mod(a, b, tol=1e-6):
    return all(abs((x - y) - round(x - y)) <= tol for x, y in zip(a, b))


def differ(fn, py, lib):
    """What the interface returned against what the library computes; None if they agree."""
    if isinstance(lib, dict) and 'panic' in lib:
        return None if py[0] == 'panic' else f'{fn}: the library panics ({lib["panic"][:80]}), the interface returns'
    if py[0] == 'panic':
        return f'{fn}: the interface raises {py[1][:120]}, the library does not'
    r = py[1]
    if fn == 'get_space_group_info':
        if r[0] != lib[0] or r[1] != lib[1]:
            return f'{fn}: ({r[0]}, {r[1]}) instead of ({lib[0]}, {lib[1]})'
        if len(r[2]) != len(lib[2]):
            return f'{fn}: {len(r[2])} operations instead of {len(lib[2])}'
        left = list(lib[2])                       # the order of operations is a hash order
        for op in r[2]:
            if len(op[0]) != 9 or len(op[1]) != 3:
                return f'{fn}: operation with {len(op[0])} rotation entries and {len(op[1])} translation components'
            m = [x for x in left if list(op[0]) == x[0] and close_mod(op[1], x[1])]
            if not m:
                return f'{fn}: operation {op} is not one of the library'
            left.remove(m[0])
        return None
    for nm, a, b in zip(('lattice', 'species', 'coordinates'), r, lib):
        if not close(list(a), b):
            return f'{fn}: {nm} {json.dumps(a)[:160]} instead of {json.dumps(b)[:160]}'
    return None


def build_module(repo, build):
    tgt = os.path.join(build, 'py')
    from check_build import drop_fingerprints
    drop_fingerprints(tgt)
    p = subprocess.run(['cargo', 'build', '--release', '--lib', '--offline', '--target-dir', tgt], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, PYO3_PYTHON='/usr/bin/python3', RUSTC_WRAPPER=''))
    if p.returncode:
        raise RuntimeError('building the Python module failed:\n' + p.stdout[-2000:])
    mod = os.path.join(build, 'pymod')
    os.makedirs(mod, exist_ok=True)
    shutil.copyfile(os.path.join(tgt, 'release', 'libcrystsymm.so'), os.path.join(mod, 'crystsymm.so'))
    return mod


def run(verif, repo, build, binary, seed, n, secs, out):
    t0 = time.time()
    mod = build_module(repo, build)
    f = os.path.join(mod, 'calls.txt')
    subprocess.run([binary, 'calls', '--seed', str(seed), '--max', str(n), '--out', f], check=True)
    return compare(mod, binary, f, out, t0)


def compare(mod, binary, f, out, t0):
    calls = parse(open(f).read())
    lib = json.loads(subprocess.run([binary, 'lib', '--input', f], stdout=subprocess.PIPE, text=True, check=True, timeout=600).stdout)
    cj = os.path.join(mod, 'calls.json')
    json.dump(calls, open(cj, 'w'))
    q = subprocess.run(['/usr/bin/python3', '-c', CALLER, mod, cj], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    labels, fail, known = {}, None, {}
    if q.returncode:
        fail = {'iteration': 0, 'message': 'the Python module cannot be called: ' + q.stderr.strip().splitlines()[-1][:200] if q.stderr.strip() else 'the interpreter died'}
        open(out, 'w').write('# property C18\n' + text_of(calls[0]))
        res = []
    else:
        res = json.loads(q.stdout)
    seen = set()
    for k, (c, py, lb) in enumerate(zip(calls, res, lib)):
        d = differ(c['fn'], py, lb)
        if d and fail is None:
            fail = {'iteration': k, 'message': d}
            open(out, 'w').write(f'# property C18\n# {d}\n' + text_of(c))
        key = c['fn'] + (', Cartesian' if c['cart'] else ', fractional') + (', refused' if isinstance(lb, dict) else '')
        labels[key] = labels.get(key, 0) + 1
        seen.add(json.dumps(c))
    return {'evaluations': len(res), 'distinct_nontrivial': len(seen), 'skipped': 0, 'labels': labels, 'skips': {}, 'known': known,
            'samples': [text_of(c) for c in calls[:2]], 'wall_s': time.time() - t0, 'fail': fail}
