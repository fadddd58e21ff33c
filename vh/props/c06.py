"""Generated repositories, verified as they are and after generated damage to objects some version needs."""
import contextlib, io, json, os, signal, sys

import vh.boot as boot
from vh import core, repo_machine as rm
from hypothesis import strategies as st

from bversion import repo_manager
from bversion.storage.versioned_storage import versioned_storage

boot.check_module_location(repo_manager)

LEVEL = 'exploration'
TAGS = ('C06',)
RULE = ('a repository with at least two versions and three needed objects, verified as it is and after at least one damage to an '
        'object that is needed by a version (distinct: repository history and damages)')
BUDGET = {'quick': 3000, 'thorough': 25000}
ASSUMPTIONS = ['damage is confined to object files; the pointer to the newest version is intact',
               'files under the object directories that are no objects (not named by their hash) are not generated']

KINDS = ['flip', 'truncate', 'append', 'empty', 'remove', 'replace', 'swap', 'reencode', 'rewrite', 'remove', 'cut history', 'drop entry', 'pair',
         'move', 'dir gone']


def strategy(tier):
    n = 10 if tier == 'quick' else 18
    return st.fixed_dictionaries({
        'history': rm.plans({'full': 14, 'session': 6, 'check': 0, 'other': 0, 'many': 2, 'bulk': 1}, min_ops=2, max_ops=n, repos=2),
        'damage': st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 400), st.integers(0, 2000)).map(list), min_size=1, max_size=8)})


def fresh_verify(m, repo):
    """The verdict of versioned_storage.verify_fs: True, or False, or None if it stopped with an error."""
    with time_limit():
        return versioned_storage(m.sim.path(repo), path_override=m.sim.config['repositories'][repo]['transient_db_path_override']).verify_fs()


class Endless(BaseException):
    pass

@contextlib.contextmanager
def time_limit(seconds=60):
    """Verifying these repositories takes milliseconds."""
    def on_alarm(signum, frame):
        raise Endless()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(seconds)
    try:
        yield
    except Endless:
        raise core.Violation('verification does not come to an end') from None
    finally:
        signal.alarm(core.CASE_SECONDS)
        signal.signal(signal.SIGALRM, old)


def run_tool(m):
    """bvn_repo verify: the lines printed under each repository."""
    cfg = {'repositories': {r: dict(m.sim.config['repositories'][r]) for r in m.repos}}
    repo_manager.init(cfg)
    out, argv = io.StringIO(), sys.argv
    sys.argv = ['bvn_repo', 'verify']
    try:
        with contextlib.redirect_stdout(out), time_limit():
            repo_manager.run()
    finally:
        sys.argv = argv
    verdict, cur = {}, None
    for line in out.getvalue().split('\n'):
        if line.startswith('Results for: '):
            cur = line[len('Results for: '):]
            verdict[cur] = False
        elif cur is not None and line.strip() == 'No issues':
            verdict[cur] = True
    return verdict


def read(p):
    with open(p, 'rb') as f:
        return f.read()

def write(p, d):
    with open(p, 'wb') as f:
        f.write(d)


def apply(kind, targets, files, a, b):
    """Damage objects in place.  Returns a description, or None if this damage means nothing here."""
    name = targets[a % len(targets)]
    path = files[name]
    data = read(path)
    other = targets[b % len(targets)]
    if kind == 'flip':
        if not data: return None
        d = bytearray(data); d[b % len(d)] ^= 1 << (a % 8); new = bytes(d)
    elif kind == 'truncate':
        if not data: return None
        new = data[:b % len(data)]
    elif kind == 'append':
        new = data + [b'\0', b'\n', b' ', b'x' * 70000, data][b % 5]
    elif kind == 'empty':
        new = b''
    elif kind == 'rewrite':
        new = bytes((x + 1) % 256 for x in data) or b'x'
    elif kind == 'replace':
        new = read(files[other])
    elif kind == 'swap':
        d2 = read(files[other])
        if d2 == data: return None
        write(files[other], data); write(path, d2)
        return 'contents of two objects swapped'
    elif kind == 'remove':
        os.remove(path)
        return 'object removed'
    elif kind == 'dir gone':
        d = os.path.dirname(path)
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        os.rmdir(d)
        return 'object directory removed'
    elif kind == 'move':
        d = os.path.join(os.path.dirname(os.path.dirname(path)), '%02x' % (b % 256))
        dst = os.path.join(d, os.path.basename(path))
        if os.path.exists(dst): return None
        os.makedirs(d, exist_ok=True)
        os.rename(path, dst)
        return 'object moved to another directory'
    elif kind == 'pair':
        if other == name: return None
        os.remove(path)
        d2 = bytearray(read(files[other]))
        if d2: d2[0] ^= 1
        write(files[other], bytes(d2))
        return 'one object removed and another altered'
    else:                       # damage that keeps an index object readable
        if not name.startswith('index/'):
            idx = [t for t in targets if t.startswith('index/')]
            name = idx[a % len(idx)]; path = files[name]; data = read(path)
        o = json.loads(data)
        if kind == 'reencode':
            new = json.dumps(o, indent=b % 3 or None, sort_keys=True).encode()
        elif kind == 'cut history' and o['type'] == 'commit':
            o['parent'] = 'root' if o['parent'] != 'root' else '0' * 64
            new = json.dumps(o).encode()
        elif kind == 'drop entry' and o['type'] == 'tree':
            for part in ('dirs', 'files') if b % 2 else ('files', 'dirs'):
                if o[part]:
                    del o[part][sorted(o[part])[b % len(o[part])]]
                    break
            new = json.dumps(o).encode()
        elif o['type'] == 'commit':
            o['commit_message'] = o['commit_message'] + '!'
            new = json.dumps(o).encode()
        else:
            return None
    if new == data:
        return None
    write(path, new)
    return 'object altered (%s)' % kind


def snapshot(base):
    return {p: read(p) for p in rm.objects(base).values()}

def restore(base, snap):
    for p in rm.objects(base).values():
        if p not in snap: os.remove(p)
    for p, d in snap.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write(p, d)


def execute(plan, ctx):
    m = rm.Machine(plan['history'], ctx)
    for op in plan['history']['ops']:
        m.step(op)
    # ------------------------------------------------ nothing damaged
    for r in m.repos:
        valid, issues = fresh_verify(m, r)
        ctx.check(valid is True, 'a sound repository is reported damaged: %r' % issues[:3], 'C06')
    v = run_tool(m)
    ctx.check(v == {r: True for r in m.repos}, 'bvn_repo verify on sound repositories says %r' % v, 'C06')
    big = False
    # ------------------------------------------------ one damage at a time
    for k, (kind, a, b) in enumerate(plan['damage']):
        r = m.repos[(a + b) % len(m.repos)]
        if not m.model[r].versions:
            r = [x for x in m.repos if m.model[x].versions][:1]
            if not r: break
            r = r[0]
        base = m.sim.path(r)
        files = rm.objects(base)
        targets = sorted(rm.reachable(base))
        snap = snapshot(base)
        what = apply(kind, targets, files, a, b)
        if what is None:
            restore(base, snap)
            continue
        ctx.evals += 1
        ctx.label('damage ' + kind)
        try:
            valid, _ = fresh_verify(m, r)
        except Exception as e:      # stopping with an error is no acceptance
            if isinstance(e, core.Violation) or not core.from_sut(e): raise
            ctx.label('verification stopped with an error')
            valid = False
        ctx.check(valid is not True, 'verification accepts a repository after this damage: %s' % what, 'C06')
        if k % 2 == 0:
            try:
                v = run_tool(m)
                ctx.check(v.get(r) is not True, 'bvn_repo verify accepts a repository after this damage: %s' % what, 'C06')
            except Exception as e:
                if isinstance(e, core.Violation) or not core.from_sut(e): raise
        restore(base, snap)
        if len(m.model[r].versions) >= 2 and len(targets) >= 3:
            big = True
    for r in m.repos:
        valid, issues = fresh_verify(m, r)
        ctx.check(valid is True, 'a repository put right again is reported damaged: %r' % issues[:3], 'C06')
    if big:
        ctx.nontrivial()
