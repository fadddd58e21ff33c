"""Operations on tracked files (store, move, delete) with failing downloads, failing system calls and crashes.

Model: contents of every file and the manifest record of every tracked one."""
import os, shutil

import vh.boot as boot
from vh import core, crash, repo_machine as rm
from vh.props import c24
from hypothesis import strategies as st

from bversion.storage.client_db import client_db
from bversion.storage.journaling_filesystem import journaling_filesystem
from bversion.storage import client_filesystem_interface as cfi
from bversion.common import get_single_file_info

boot.check_module_location(cfi)

LEVEL = 'exploration'
NEEDS_CRASH = True
TAGS = ('C25',)
RULE = ('a sequence of operations with at least one that replaces, moves or deletes a tracked file, and a failure (of the operation, '
        'of a system call) or a crash in it')
BUDGET = {'quick': 3600, 'thorough': 30000}
ASSUMPTIONS = c24.ASSUMPTIONS[:2]

CONF = '.bvn'
PATHS = ['a', 'b', 'd/a', 'd/b', 'd/sub/c', 'u', 'new', 'd/new', 'caf\u00e9']
ODD = ['d', 'missing/x', 'gone']


def op():
    path = st.sampled_from(PATHS * 5 + ODD)
    src = st.sampled_from(PATHS[:6] * 4 + PATHS + ODD)
    how = st.sampled_from(['bytes', 'call', 'call', 'call', 'fail start', 'fail mid', 'no file'])
    return st.one_of(
        st.tuples(st.just('put'), path, rm.CONTENTS, how).map(list),
        st.tuples(st.just('put'), path, rm.CONTENTS, how).map(list),
        st.tuples(st.just('move'), src, path).map(list),
        st.tuples(st.just('delete'), src).map(list))


def strategy(tier):
    return st.fixed_dictionaries({
        'files': st.dictionaries(st.sampled_from(PATHS[:6]), st.tuples(rm.CONTENTS, st.sampled_from(['sync', 'sync', 'sync', 'local', 'untracked', 'gone'])).map(list),
                                 min_size=2, max_size=6),
        'ops': st.lists(op(), min_size=1, max_size=4),
        'fault': st.lists(st.tuples(st.sampled_from(['kill', 'kill', 'torn', 'fail']), st.integers(0, 9999)).map(list), min_size=0, max_size=3),
        'recovery': st.lists(st.integers(0, 999), max_size=1)})


def fixed_plans(tier):
    files = {'a': [1, 'sync'], 'b': [2, 'sync'], 'd/a': [3, 'untracked'], 'd/b': [4, 'gone']}
    step = 2 if tier == 'quick' else 1
    out = []
    for ops in ([['put', 'a', 4, 'call']], [['put', 'new', 4, 'call']], [['move', 'a', 'b']], [['delete', 'a'], ['put', 'b', 5, 'bytes']],
                [['put', 'a', 4, 'fail mid'], ['delete', 'b']]):
        for k in range(0, 90, step):
            out.append({'files': files, 'ops': ops, 'fault': [['kill', k], ['torn', k], ['fail', k]], 'recovery': [k] if k % 4 == 0 else []})
    return out


# ------------------------------------------------------------------ model: tree {path: bytes}, man {path: (hash, in sync)}
def model_op(tree, man, o):
    dirs = {'', 'd', 'd/sub'}
    def place(p):
        if p in dirs or os.path.dirname(p) not in dirs: raise c24.Fails()
    if o[0] == 'put':
        place(o[1])
        if o[3] not in ('bytes', 'call'): raise c24.Fails()
        tree[o[1]] = rm.content(o[2])
        man[o[1]] = (server_hash(o), True)
    elif o[0] == 'move':
        if o[1] not in tree or o[1] not in man: raise c24.Fails()
        place(o[2])
        tree[o[2]] = tree.pop(o[1])
        h, sync = man.pop(o[1])
        man[o[2]] = (h, sync or None)      # what a move does to a local modification is not specified
    else:
        if o[1] not in tree: raise c24.Fails()
        del tree[o[1]]
        man.pop(o[1], None)


def server_hash(o):
    return 'hash-of-%s' % o[2]


def open_store(d):
    cdb = client_db(os.path.join(d, CONF, 'manifest.db'))
    return cfi.client_filesystem_interface(cdb, journaling_filesystem(cdb, d, CONF)), cdb


def do_op(s, o):
    if o[0] == 'put':
        data = rm.content(o[2])
        def writer(path):
            if o[3] == 'fail start': raise OSError('download failed')
            if o[3] == 'no file': return
            with open(path, 'wb') as f:
                f.write(data[:len(data) // 2])
                f.flush()
                if o[3] == 'fail mid': raise OSError('download failed')
                f.write(data[len(data) // 2:])
        s.fs_put(o[1], data if o[3] == 'bytes' else writer, additional_manifest_data={'server_file_hash': server_hash(o)})
    elif o[0] == 'move':   s.fs_move(o[1], o[2])
    else:                  s.fs_delete(o[1])


def run_ops(d, ops, point=(0, crash.COUNT, 0)):
    s, cdb = open_store(d)
    crash.arm(*point)
    marks, ends = [], []
    for o in ops:
        n0 = crash.count()
        try:
            do_op(s, o)
            ends.append(None)
        except Exception as e:      # pylint: disable=broad-except
            ends.append(core.describe(e))
        marks.append((n0, crash.count()))
        if point[1] == crash.FAIL and crash.count() >= point[0]:
            break
    crash.off()
    return marks, ends, crash.count()


def state_of(d):
    """(contents, manifest) as the files and a fresh database connection have it."""
    def job():
        cdb = client_db(os.path.join(d, CONF, 'manifest.db'))
        return cdb.get_manifest()
    return c24.tree_of(d), crash.child(job).unwrap()


def compare(d, start_man, state):
    """None, or what is wrong."""
    tree, man = state_of(d)
    want_tree, want_man = state
    if tree != want_tree:
        return 'files (found, expected): %r' % c24.diff(tree, want_tree)
    if set(man) != set(want_man):
        return 'records of %r, expected %r' % (sorted(man), sorted(want_man))
    for p, (h, sync) in want_man.items():
        if man[p]['server_file_hash'] != h:
            return 'the record of %r is of %r, expected %r' % (p, man[p]['server_file_hash'], h)
        if sync and p in tree and man[p]['last_mod'] != os.path.getmtime(os.path.join(d, p)):
            return 'the record of %r does not match the file' % p
        if sync is False and p in start_man and man[p]['last_mod'] != start_man[p]['last_mod']:
            return 'the record of %r, which was not named, was changed' % p
    return None


def execute(plan, ctx):
    # restored exactly by copytree: files, times, database
    base = os.path.join(ctx.newdir(), 'base')
    d = os.path.join(ctx.newdir(), 'w')
    for sub in ('d/sub', CONF):
        os.makedirs(os.path.join(base, sub))
    start, start_man = {}, {}
    def setup():
        cdb = client_db(os.path.join(base, CONF, 'manifest.db'))
        for k, (p, (c, how)) in enumerate(sorted(plan['files'].items())):
            full = os.path.join(base, p)
            with open(full, 'wb') as f:
                f.write(rm.content(c))
            os.utime(full, (1500000000 + k, 1500000000.25 + k))
            if how != 'untracked':
                cdb.add_file_to_manifest(dict(get_single_file_info(full, p), server_file_hash='start-%d' % k))
            if how == 'local':
                os.utime(full, (1600000000 + k, 1600000000.5 + k))
            if how == 'gone':
                os.remove(full)
        cdb.commit()
    crash.child(setup).unwrap()
    for k, (p, (c, how)) in enumerate(sorted(plan['files'].items())):
        if how != 'gone': start[p] = rm.content(c)
        if how != 'untracked': start_man[p] = ('start-%d' % k, how == 'sync')
    rows = crash.child(lambda: client_db(os.path.join(base, CONF, 'manifest.db')).get_manifest()).unwrap()

    def reset():
        if os.path.isdir(d): shutil.rmtree(d)
        shutil.copytree(base, d)

    states, fails = [(start, start_man)], []
    for o in plan['ops']:
        t, m = dict(states[-1][0]), dict(states[-1][1])
        try:
            model_op(t, m, o)
            fails.append(False)
        except c24.Fails:
            t, m = states[-1]
            fails.append(True)
        states.append((t, m))

    touches = any(o[1] in start_man for o in plan['ops'])
    # ------------------------------------------------ undisturbed
    reset()
    marks, ends, total = crash.child(lambda: run_ops(d, plan['ops'])).unwrap()
    for k, o in enumerate(plan['ops']):
        ctx.check((ends[k] is not None) == fails[k], '%s was expected to %s: %r' % (o, 'fail' if fails[k] else 'work', ends[k]), 'C25')
    bad = compare(d, rows, states[-1])
    ctx.check(bad is None, 'after %r: %s' % (plan['ops'], bad), 'C25')
    if touches and any(fails):
        ctx.nontrivial()

    for kind, v in plan['fault']:
        if total == 0: break
        k = 1 + v % total
        reset()
        t = next(x for x, m in enumerate(marks) if k <= m[1])
        ctx.evals += 1
        ctx.label('fault ' + kind)
        if kind == 'fail':
            if fails[t]: continue       # the failing call might fall into the rollback
            err = crash.ERRNOS[v % len(crash.ERRNOS)]
            _, e2, _ = crash.child(lambda: run_ops(d, plan['ops'], (k, crash.FAIL, err))).unwrap()
            allowed = [states[t]] if e2[t] is not None else [states[t + 1]]
            what = 'after %r in which a system call failed (errno %d, reported: %r)' % (plan['ops'][t], err, e2[t])
        else:
            out = crash.child(lambda: run_ops(d, plan['ops'], (k, crash.TORN if kind == 'torn' else crash.KILL, 0)))
            if not out.killed:
                out.unwrap()
                raise RuntimeError('the crash point was not reached')
            allowed = [states[t], states[t + 1]]
            what = 'after a crash (%s) in %r' % (kind, plan['ops'][t])
        for r in plan['recovery']:
            probe = os.path.join(ctx.newdir(), 'w')
            shutil.copytree(d, probe)
            n = crash.child(lambda: c24.recover(d)).unwrap()
            shutil.rmtree(d)
            shutil.copytree(probe, d)
            if n:
                crash.child(lambda: c24.recover(d, (1 + r % n, crash.KILL if r % 3 else crash.TORN, 0)))
                ctx.label('recovery interrupted')
        crash.child(lambda: c24.recover(d)).unwrap()
        bads = [compare(d, rows, s) for s in allowed]
        ctx.check(any(b is None for b in bads), what + ': ' + str(bads[0]), 'C25')
        if touches: ctx.nontrivial()
