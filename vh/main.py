"""Run the check of one property.

usage: ./check PROP [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error
"""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

import vh.boot as boot
from vh import core, known, priv


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    prop_id = args.prop.upper()
    t0 = boot.real_time()

    prop = importlib.import_module('vh.props.' + prop_id.lower())
    tmp = tempfile.mkdtemp(prefix='vhm_', dir=core.scratch_base())
    priv.hand_over(tmp)
    try:
        env = worker_env(prop, tmp)
        if args.replay:
            return replay(prop_id, args.replay, tmp, env)
        return search(prop_id, prop, args, tmp, env, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(prop_id, path, tmp, env):
    out = os.path.join(tmp, 'out.json')
    env['VH_SCRATCH'] = tmp
    subprocess.run([sys.executable, '-m', 'vh.worker', prop_id, 'replay', os.path.abspath(path), out], env=env, cwd=core.VERIF, check=False)
    with open(out) as f:
        res = json.load(f)
    if res['status'] == 'error':
        print('ERROR: ' + res['error'], file=sys.stderr)
        return 2
    if res['message'] is None:
        print('replay: property %s holds on this plan' % prop_id)
        return 0
    print('replay: ' + res['message'])
    print('VIOLATION property=%s replay=%s' % (prop_id, path))
    return 1


def search(prop_id, prop, args, tmp, env, t0):
    env['VH_SCRATCH'] = tmp
    n = args.workers
    deadline = getattr(prop, 'DEADLINE', {'quick': 300, 'thorough': 3000})[args.tier]
    procs, outs = [], []
    try:
        for i in range(n):
            out = os.path.join(tmp, 'w%d.json' % i)
            outs.append(out)
            log = open(out + '.log', 'wb')
            procs.append(subprocess.Popen(
                [sys.executable, '-m', 'vh.worker', prop_id, args.tier, str(args.seed), str(i), str(n), out, str(deadline)],
                env=env, cwd=core.VERIF, stdout=log, stderr=log, start_new_session=True))
        results, pending = {}, set(range(n))
        hard = t0 + deadline + 260
        while pending:
            for i in sorted(pending):
                if procs[i].poll() is not None:
                    pending.discard(i)
                    try:
                        with open(outs[i]) as f:
                            results[i] = json.load(f)
                    except (OSError, ValueError):
                        with open(outs[i] + '.log', 'rb') as f:
                            tail = f.read()[-3000:].decode('utf8', 'replace')
                        results[i] = {'status': 'error', 'error': 'worker %d ended with %s\n%s' % (i, procs[i].returncode, tail)}
                    if results[i]['status'] == 'violation':
                        stop(procs, pending)
                        pending = set()
                        break
            if pending and boot.real_time() > hard:
                stop(procs, pending)
                for i in pending:
                    results[i] = {'status': 'error', 'error': 'worker %d did not finish' % i}
                pending = set()
            time.sleep(0.02)
    finally:
        stop(procs, range(n))

    # ------------------------------------------------------------- verdict
    violations = [r for _, r in sorted(results.items()) if r['status'] == 'violation']
    errors     = [r for _, r in sorted(results.items()) if r['status'] == 'error']
    stats = merge(results)
    coverage = {
        'unprivileged': all(r.get('unprivileged', True) for r in results.values()),
        'evaluations': stats['evaluations'], 'distinct_nontrivial': len(stats['nontrivial']),
        'rule': prop.RULE, 'samples': stats['samples'][:4], 'cases': stats['cases'],
        'labels': dict(sorted(stats['labels'].items())), 'abandoned_other_property': stats['offtopic'],
        'rejected_plans': stats['rejected'], 'workers': n, 'stopped_by_time': stats['stopped']}
    if stats['offtopic_samples']:
        coverage['abandoned_samples'] = stats['offtopic_samples'][:5]

    kf_lines = confirm_known(prop_id, prop)
    coverage['known_findings_confirmed'] = len(kf_lines)

    evidence = {'property': prop_id, 'tier': args.tier, 'seed': args.seed, 'level': prop.LEVEL,
                'coverage': coverage, 'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])),
                'wall_s': round(boot.real_time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(core.VERIF, 'evidence', prop_id + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + '.tmp', path)

    for line in kf_lines:
        print(line)
    print('%s%s: %d evaluations in %d cases, %d distinct non-trivial, %.1f s' % (
        prop_id, '' if coverage['unprivileged'] else ' (privileged!)', stats['evaluations'], stats['cases'], len(stats['nontrivial']), boot.real_time() - t0))
    if violations:
        v = min(violations, key=lambda r: len(core.canon(r['plan'])))
        os.makedirs(os.path.join(core.VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(core.VERIF, 'replays', '%s-%s.json' % (prop_id, core.plan_hash(v['plan'])))
        with open(rp, 'w') as f:
            json.dump({'property': prop_id, 'message': v['message'], 'plan': v['plan']}, f, indent=1)
        print(v['message'])
        print('VIOLATION property=%s replay=%s' % (prop_id, rp))
        return 1
    if errors:
        for r in errors:
            print('ERROR: ' + r['error'], file=sys.stderr)
            if r.get('plan') is not None:
                print('PLAN: ' + json.dumps(r['plan'])[:3000], file=sys.stderr)
        return 2
    if stats['cases'] == 0:
        print('ERROR: nothing was explored', file=sys.stderr)
        return 2
    return 0


def confirm_known(prop_id, prop):
    """The recorded findings of this property that still exist (tried out in an unprivileged child)."""
    entries = known.load(prop_id)
    confirm = getattr(prop, 'known_finding', None)
    if not entries or confirm is None:
        return []
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        still = []
        try:
            priv.drop()
            os.environ.pop('VH_SCRATCH', None)
            scratch = core.Scratch()
            try:
                with core.quiet():
                    still = [k for k, e in enumerate(entries) if confirm(e, core.Ctx(scratch))]
            finally:
                scratch.close()
        finally:
            os.write(wr, json.dumps(still).encode())
            os._exit(0)
    os.close(wr)
    data = b''
    while True:
        d = os.read(rd, 65536)
        if not d: break
        data += d
    os.waitpid(pid, 0)
    return ['KNOWN-FINDING: property=%s %s' % (prop_id, entries[k]['what']) for k in json.loads(data or b'[]')]


def worker_env(prop, tmp):
    env = dict(os.environ)
    env.update({'PYTHONPATH': core.VERIF, 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC',
                'LANG': 'C.UTF-8', 'AWS_EC2_METADATA_DISABLED': 'true'})
    env.pop('ANSI_COLORS_DISABLED', None)
    if getattr(prop, 'NEEDS_CRASH', False):
        from vh import crash
        env['LD_PRELOAD'] = crash.build(tmp)
    return env


def stop(procs, idx):
    for i in idx:
        p = procs[i] if i < len(procs) else None
        if p is not None and p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def merge(results):
    out = {'evaluations': 0, 'cases': 0, 'nontrivial': set(), 'labels': {}, 'offtopic': 0, 'offtopic_samples': [],
           'rejected': 0, 'samples': [], 'stopped': False}
    for _, r in sorted(results.items()):
        out['stopped'] = out['stopped'] or r.get('stopped', False)
        s = r.get('stats')
        if not s:
            continue
        for k in ('evaluations', 'cases', 'offtopic', 'rejected'):
            out[k] += s[k]
        out['nontrivial'] |= set(s['nontrivial'])
        out['samples'] += s['samples']
        out['offtopic_samples'] += s['offtopic_samples']
        for k, v in s['labels'].items():
            out['labels'][k] = out['labels'].get(k, 0) + v
    out['samples'].sort(key=lambda p: -len(core.canon(p)))
    out['samples'] = [p for p in out['samples'] if len(core.canon(p)) < 3000][:3] or out['samples'][-1:]
    return out


if __name__ == '__main__':
    sys.exit(main())
