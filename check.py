#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py <ID>

1. extracts the MIR of the crate in /repo (working tree) with tools/mirdump,
2. generates and discharges the proof obligations of the property's contracts (mirver/props),
3. runs the property's oracle on the compiled crate (replay/), a bounded search that supplies concrete failing
   inputs and stands in where an obligation cannot be decided.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself could not run."""
import fcntl
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, VERIF)
from check_build import sh, drop_fingerprints  # noqa: E402

# Companion search: inputs per run (quick, thorough) and time cap in seconds.
SEARCH = {
    'default': (20000, 400000, 40, 300),
    'C12': (4000, 40000, 40, 300), 'C14': (289, 289, 40, 300), 'C16': (1200, 12000, 90, 400), 'C19': (4000, 60000, 60, 400),
    'C18': (200, 2000, 60, 300),
}


class CheckError(Exception):
    pass


def nightly_lib():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise CheckError('nightly toolchain not available: ' + out)
    return os.path.join(out.strip(), 'lib')


def build_mirdump():
    src = os.path.join(VERIF, 'tools', 'mirdump')
    tgt = os.path.join(BUILD, 'mirdump')
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', tgt], cwd=src, env={'RUSTC_WRAPPER': ''})
    if rc:
        raise CheckError('building mirdump failed:\n' + out[-3000:])
    return os.path.join(tgt, 'release', 'mirdump')


def extract():
    """MIR of the crate as it is in the working tree."""
    drv = build_mirdump()
    lib = nightly_lib()
    tgt = os.path.join(BUILD, 'mir')
    os.makedirs(tgt, exist_ok=True)
    out_file = os.path.join(tgt, f'mir-{os.getpid()}.json')
    drop_fingerprints(tgt)
    env = {'RUSTUP_TOOLCHAIN': 'nightly', 'LD_LIBRARY_PATH': lib, 'MIRDUMP_OUT': out_file, 'RUSTC_WRAPPER': '', 'RUSTC_WORKSPACE_WRAPPER': drv,
           'PYO3_PYTHON': '/usr/bin/python3', 'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0'}
    rc, out = sh(['cargo', 'rustc', '--offline', '--lib', '--crate-type', 'lib', '--', '-Zmir-opt-level=0', '-Zmir-enable-passes=-GVN',
                  '-Coverflow-checks=yes', '-Cdebug-assertions=no', '--cfg', f'verif_run="{time.time_ns()}"'], cwd=REPO, env=env)
    if rc or not os.path.exists(out_file):
        raise CheckError('MIR extraction failed:\n' + out[-3000:])
    return out_file


def build_replay():
    tgt = os.path.join(BUILD, 'replay')
    drop_fingerprints(tgt)
    src = os.path.join(VERIF, 'replay')
    if REPO != '/repo':
        # scratch copies: same sources, other path dependency
        src2 = os.path.join(BUILD, 'replay-src')
        shutil.rmtree(src2, ignore_errors=True)
        shutil.copytree(src, src2, ignore=shutil.ignore_patterns('target'))
        f = os.path.join(src2, 'Cargo.toml')
        t = open(f).read().replace('"/repo"', f'"{REPO}"')
        open(f, 'w').write(t)
        src = src2
    rc, out = sh(['cargo', 'build', '--release', '--offline', '--target-dir', tgt], cwd=src, env={'PYO3_PYTHON': '/usr/bin/python3', 'RUSTC_WRAPPER': ''})
    if rc:
        raise CheckError('building the replay oracles failed:\n' + out[-3000:])
    return os.path.join(tgt, 'release', 'replay')


def build_all(need_mir=True):
    os.makedirs(BUILD, exist_ok=True)
    res = {}

    def run(k, f):
        try:
            res[k] = f()
        except Exception as e:
            res[k] = e
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ts = [threading.Thread(target=run, args=('replay', build_replay))]
        if need_mir:
            ts.append(threading.Thread(target=run, args=('mir', extract)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for v in res.values():
        if isinstance(v, Exception):
            raise v if isinstance(v, CheckError) else CheckError(f'{type(v).__name__}: {v}')
    return res


def companion(binary, pid, seed, n, secs, out):
    if pid == 'C18':
        from mirver import pyif
        return pyif.run(VERIF, REPO, BUILD, binary, seed, n, secs, out)
    return companion_input(binary, pid, ['--seed', str(seed), '--max', str(n), '--secs', str(secs), '--out', out], secs + 60)


def companion_input(binary, pid, args, timeout):
    try:
        p = subprocess.run([binary, pid] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('the oracle did not end in time')
    if p.returncode not in (0, 1):
        # a crash (abort, stack overflow) of the code under check ends the oracle process
        return {'evaluations': 0, 'distinct_nontrivial': 0, 'labels': {}, 'skips': {}, 'known': {}, 'samples': [], 'fail': None,
                'crash': f'oracle process ended with status {p.returncode}: {p.stderr[-500:]}'}
    try:
        return json.loads(p.stdout)
    except ValueError:
        raise CheckError('oracle output not understood: ' + p.stdout[-500:])


def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        if l.startswith(f'known: property={pid} '):
            out.append(l.strip()[len(f'known: property={pid} '):])
    return out


def describe(o, r):
    t = [f'obligation: {o.name}', f'kind: {o.kind}', f'function: {o.fn} (line {o.line})', f'result: {r.status} by {r.backend} in {r.time:.2f} s']
    if r.detail:
        t.append('detail: ' + str(r.detail)[-500:])
    if r.model:
        t.append('verifier counterexample:')
        for k, v in sorted(r.model.items())[:200]:
            if '!!' not in k:
                t.append(f'  {k} = {json.dumps(v)[:300]}')
    return '\n'.join(t)


def model_inputs(mod, failed):
    """Concrete oracle inputs from the verifier's counterexamples."""
    f = getattr(mod, 'replay', None)
    out = []
    if f is None:
        return out
    for o, ob, r in failed:
        if r.model:
            try:
                out += [(ob, t) for t in f(o, ob, r.model)]
            except Exception:
                pass
    return out[:40]


PROOF_S = 620       # seconds after the start at which obligations not yet decided count as undecided
STOP_S = 700        # the same if the engine itself does not come back


def stop(pid, fail_msg, out_file, ev_file, rp_dir, tier, seed, t0, comp):
    """The proofs did not come back in time: the bounded companion alone decides."""
    for c in multiprocessing.active_children():
        c.kill()
    violation = os.path.join(rp_dir, f'{pid}.txt')
    cov = {'explanation': 'the proof engine did not end in time; the bounded companion stands in', 'evaluations': comp['evaluations'],
           'distinct_nontrivial': comp['distinct_nontrivial'], 'obligations': 0, 'discharged': 0}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'assumptions': [],
          'violations': 1 if fail_msg else 0}
    with open(ev_file, 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: the proof engine did not end in time, {comp["evaluations"]} inputs evaluated on the real code')
    if fail_msg:
        with open(violation, 'w') as f:
            f.write(f'property {pid}\nfailing input on the real code: {fail_msg}\n' + (open(out_file).read() if os.path.exists(out_file) else ''))
        print(f'VIOLATION property={pid} replay={violation}')
    sys.stdout.flush()
    os._exit(1 if fail_msg else 0)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    if pid == 'setup':
        b = build_all()
        os.remove(b['mir'])
        from mirver import pyif
        pyif.build_module(REPO, BUILD)
        print(f'built in {time.time() - t0:.0f} s')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ev_dir = os.path.join(VERIF, 'evidence')
    rp_dir = os.path.join(ev_dir, 'replay')
    os.makedirs(rp_dir, exist_ok=True)
    ev_file = os.path.join(ev_dir, pid + '.json')
    try:
        mod = importlib.import_module('mirver.props.' + pid.lower())
    except ModuleNotFoundError as e:
        if e.name and not e.name.endswith(pid.lower()):
            raise
        mod = None
    b = build_all(need_mir=mod is not None)
    n_q, n_t, s_q, s_t = SEARCH.get(pid, SEARCH['default'])
    n, secs = (n_t, s_t) if tier == 'thorough' else (n_q, s_q)
    out_file = os.path.join(rp_dir, f'{pid}-input.txt')
    if os.path.exists(out_file):
        os.remove(out_file)

    # --- bounded companion on the real code (in parallel with the proofs' start-up it would only compete for cores)
    comp = companion(b['replay'], pid, seed, n, secs, out_file)
    fail_msg = comp['fail']['message'] if comp.get('fail') else None

    # --- contracts
    outs, theory = [], {}
    if mod is not None:
        from mirver.mir import Program
        from mirver.verify import Verifier
        mir = b['mir']
        try:
            prog = Program(mir)
        finally:
            os.remove(mir)
        tp = time.time()
        # a failing input is already a verdict: the proofs then only tell which obligations fail
        V = Verifier(prog, deadline=min(tp + 150, t0 + PROOF_S) if fail_msg or comp.get('crash') else t0 + PROOF_S)
        watch = threading.Timer(t0 + STOP_S - tp, stop, (pid, fail_msg or comp.get('crash'), out_file, ev_file, rp_dir, tier, seed, t0, comp))
        watch.daemon = True
        watch.start()
        mod.build(V)
        V.discharge(8)
        watch.cancel()
        theory['wall_s'] = round(time.time() - tp, 2)
        outs = V.out
    failed = [(o, ob, r) for o in outs for ob, r in o.failed]
    opened = [(o, ob, r) for o in outs for ob, r in o.open]
    errors = [o for o in outs if o.error]
    vacuous = [(o, v) for o in outs for v in o.vacuous]
    total = sum(len(o.obls) for o in outs)
    proved = sum(1 for o in outs for r in o.res if r.status == 'proved')
    all_proved = bool(outs) and total > 0 and proved == total and not errors and not vacuous

    # --- refuted or undecided: look for a concrete failing input
    searched = []
    if fail_msg is None and mod is not None and not all_proved:
        for k, (ob, text) in enumerate(model_inputs(mod, failed)):
            f = os.path.join(rp_dir, f'{pid}-model{k}.txt')
            open(f, 'w').write(text)
            r = companion_input(b['replay'], pid, ['--input', f], 60)
            searched.append(f'counterexample of "{ob.name}"')
            if r.get('fail') or r.get('crash'):
                fail_msg = (r.get('fail') or {}).get('message') or r['crash']
                os.replace(f, out_file)
                comp['fail'] = r.get('fail')
                break
            os.remove(f)
        if fail_msg is None:
            more = companion(b['replay'], pid, seed + 7919, n * 4, min(120, max(60, secs)), out_file)
            searched.append(f'{more["evaluations"]} further inputs')
            comp['evaluations'] += more['evaluations']
            comp['distinct_nontrivial'] += more['distinct_nontrivial']
            if more.get('fail') or more.get('crash'):
                fail_msg = (more.get('fail') or {}).get('message') or more['crash']
    if fail_msg is None and comp.get('crash'):
        fail_msg = comp['crash']

    # --- verdict
    violation, noinput = None, False
    hard = [(o, ob, r) for o, ob, r in failed if o.alarm and ob.kind in ('ensures', 'requires', 'panic-free', 'panic-explicit', 'panic-allowed')]
    if fail_msg is not None:
        violation = os.path.join(rp_dir, f'{pid}.txt')
        with open(violation, 'w') as f:
            f.write(f'property {pid}\nfailing input on the real code: {fail_msg}\n')
            if os.path.exists(out_file):
                f.write(f'reproduce: build/replay/release/replay {pid} --input <this input>\n\n' + open(out_file).read() + '\n')
            for o, ob, r in failed:
                f.write('\n' + describe(ob, r) + '\n')
    elif hard:
        violation = os.path.join(rp_dir, f'{pid}.txt')
        noinput = True
        with open(violation, 'w') as f:
            f.write(f'property {pid}\nfailed proof obligations (no failing input found; searched: {", ".join(searched)})\n')
            for o, ob, r in hard:
                f.write('\n' + describe(ob, r) + '\n')

    # --- evidence
    backends, solver = {}, 0.0
    for o in outs:
        for r in o.res:
            backends[r.backend] = backends.get(r.backend, 0) + 1
            solver += r.time
    undecided = [f'{o.label}: {o.error}' for o in errors] + [f'{o.label}: {ob.name} ({ob.kind})' for o, ob, r in opened] + [f'{o.label}: {v}' for o, v in vacuous] \
        + [f'{o.label}: {ob.name} ({ob.kind}, not established)' for o, ob, r in failed if (o, ob, r) not in hard]
    assumptions = sorted(set(a for o in outs for a in o.assumptions))
    models = sorted(set(m for o in outs for m in o.models))
    info = getattr(mod, 'INFO', {}) if mod else {}
    level = info.get('level', 'exploration') if (all_proved and mod is not None) else ('exploration' if not outs or not info or info.get('level') != 'proof' else 'other')
    bounded = {'evaluations': comp['evaluations'], 'distinct_nontrivial': comp['distinct_nontrivial'], 'skipped': comp.get('skipped', 0),
               'labels': comp.get('labels', {}), 'skips': comp.get('skips', {}), 'known': comp.get('known', {}), 'seed': seed,
               'rule': 'directed random inputs to the public API, checked by independent oracles (replay/src); bounded, never counted as proof'}
    cov = {
        'obligations': total, 'discharged': proved, 'checker_cmd': f'python3-vt check.py {pid}',
        'trusted_base': ['rustc nightly MIR construction, tools/mirdump and the mirver engine', 'z3 and cvc5',
                         'meaning given to library functions (see library_models) by mirver/models.py', 'f64 arithmetic treated as real arithmetic'] + info.get('trusted', []),
        'contracts': [{'contract': o.label, 'function': o.fn, 'obligations': len(o.obls), 'discharged': sum(1 for r in o.res if r.status == 'proved'),
                       'undecided': o.error or '', 'symbolic_execution_s': round(o.exec_s, 2)} for o in outs],
        'functions_executed': sorted(set(f for o in outs for f in o.functions)),
        'library_models': models, 'back_ends': backends, 'solver_s': round(solver, 2), 'proof_wall_s': theory.get('wall_s', 0.0),
        'not_proved': info.get('bounded', []), 'undecided': undecided,
        'evaluations': comp['evaluations'], 'distinct_nontrivial': comp['distinct_nontrivial'], 'rule': bounded['rule'], 'samples': comp.get('samples', [])[:3],
        'bounded_companion': bounded,
        'explanation': info.get('note', '') + ('' if all_proved or not outs else ' On this run some obligations were not decided; the bounded companion stands in for them.'),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': assumptions + info.get('assumptions', []), 'violations': 1 if violation else 0}
    with open(ev_file, 'w') as f:
        json.dump(ev, f, indent=1)

    print(f'{pid}: {proved}/{total} obligations discharged in {len(outs)} contracts, {comp["evaluations"]} inputs evaluated on the real code')
    for u in undecided:
        print(f'  undecided: {u[:300]}')
    kf = known_findings(pid)
    if comp.get('known') and kf:
        for k in kf:
            print(f'KNOWN-FINDING: property={pid} {k}')
    if violation:
        print(f'  {fail_msg}' if fail_msg else '  failed: ' + '; '.join(ob.name for _, ob, _ in hard[:5]))
        print(f'VIOLATION property={pid} replay={violation}' + (' no-failing-input-found' if noinput else ''))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except CheckError as e:
        print(f'check error: {e}', file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
