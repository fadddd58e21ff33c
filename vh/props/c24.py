"""Generated file transactions with explicit rollback, failing operations, failing system calls and crashes.

A model (a dictionary of contents) says what each transaction does.  All code under test runs in forked children."""
import os, shutil

import vh.boot as boot
from vh import core, crash, repo_machine as rm
from hypothesis import strategies as st

from bversion.storage.client_db import client_db
from bversion.storage import journaling_filesystem as jfs_module

boot.check_module_location(jfs_module)

LEVEL = 'exploration'
NEEDS_CRASH = True
TAGS = ('C24',)
RULE = ('a transaction with at least two effective operations, of which one replaces, moves or deletes an existing file, that was '
        'rolled back, failed, or was killed part way and recovered (distinct: files, transactions and fault)')
BUDGET = {'quick': 4000, 'thorough': 30000}
ASSUMPTIONS = ['a crash is the death of the process before, or half way through, a system call that changes a file (no power loss)',
               'at most one injected failing system call per run, not inside the rollback itself',
               'one transaction is open at a time, as the code documents']

LONG = 'n' * 254
PATHS = ['a', 'b', 'd/a', 'd/b', 'd/sub/c', LONG, 'new', 'd/new', 'caf\u00e9']
ODD = ['d', 'empty', 'missing/x', 'a/below']       # a directory, an empty directory, no such directory, below a file
CONF = '.bvn'


def op():
    path = st.sampled_from(PATHS * 6 + ODD)
    src = st.sampled_from(PATHS[:6] * 5 + PATHS + ODD)
    return st.one_of(
        st.tuples(st.just('put'), path, rm.CONTENTS).map(list),
        st.tuples(st.just('call'), path, rm.CONTENTS, st.sampled_from([0, 0, 1])).map(list),
        st.tuples(st.just('move'), src, path).map(list),
        st.tuples(st.just('move'), src, path).map(list),
        st.tuples(st.just('delete'), src).map(list))


def strategy(tier):
    tx = st.fixed_dictionaries({'ops': st.lists(op(), min_size=1, max_size=5), 'end': st.sampled_from(['commit', 'commit', 'commit', 'rollback'])})
    return st.fixed_dictionaries({
        'files': st.dictionaries(st.sampled_from(PATHS[:6]), rm.CONTENTS, min_size=3, max_size=6),
        'txs': st.lists(tx, min_size=1, max_size=3),
        'fault': st.lists(st.tuples(st.sampled_from(['kill', 'kill', 'torn', 'fail']), st.integers(0, 9999)).map(list), min_size=0, max_size=3),
        'recovery': st.lists(st.integers(0, 999), max_size=2)})


def fixed_plans(tier):
    """A transaction over every kind of operation, killed at every call."""
    files = {'a': 1, 'b': 2, 'd/a': 3}
    txs = [{'ops': [['put', 'a', 4], ['move', 'b', 'd/a'], ['put', 'new', 5], ['move', 'new', 'b'], ['delete', 'd/a']], 'end': 'commit'}]
    step = 1 if tier != 'quick' else 3
    out = []
    for k in range(0, 120, step):
        out.append({'files': files, 'txs': txs, 'fault': [['kill', k], ['torn', k + step - 1]], 'recovery': []})
    # each operation alone, and then the same again over what an interrupted commit may have left behind
    for ops in ([['put', 'a', 4]], [['delete', 'a']], [['move', 'a', 'b']], [['move', 'a', 'new']], [['delete', 'missing/x']], [['move', 'new', 'a']]):
        for end in ('commit', 'rollback'):
            for k in range(0, 40, step * 2):
                out.append({'files': files, 'txs': [{'ops': [['delete', 'd/a'], ['put', 'b', 3]], 'end': 'commit'}, {'ops': ops, 'end': end}],
                            'fault': [['kill', 10 + k], ['torn', 11 + k], ['fail', k]], 'recovery': [k]})
    return out


# ------------------------------------------------------------------ model
class Fails(Exception):
    pass

def dirs_of(tree):
    out = {'', 'd', 'd/sub', 'empty'}
    return out

def model_op(tree, o):
    dirs = dirs_of(tree)
    def place(p):
        if p in dirs or os.path.dirname(p) not in dirs: raise Fails()
    if o[0] == 'put':
        place(o[1]); tree[o[1]] = rm.content(o[2])
    elif o[0] == 'call':
        place(o[1])
        if o[3]: raise Fails()
        tree[o[1]] = rm.content(o[2])
    elif o[0] == 'move':
        if o[1] not in tree: raise Fails()
        place(o[2])
        tree[o[2]] = tree.pop(o[1])
    elif o[0] == 'delete':
        if o[1] not in tree: raise Fails()
        del tree[o[1]]


def model_tx(tree, tx):
    """(tree afterwards, number of the failing operation or None)"""
    new = dict(tree)
    for k, o in enumerate(tx['ops']):
        try:
            model_op(new, o)
        except Fails:
            return dict(tree), k
    return (new if tx['end'] == 'commit' else dict(tree)), None


# ------------------------------------------------------------------ the code under test
def open_jfs(d):
    return jfs_module.journaling_filesystem(client_db(os.path.join(d, CONF, 'manifest.db')), d, CONF)


def do_op(j, o):
    if o[0] == 'put':
        j.file_put_contents(o[1], rm.content(o[2]))
    elif o[0] == 'call':
        data = rm.content(o[2])
        def writer(path):
            with open(path, 'wb') as f:
                f.write(data[:len(data) // 2])
                f.flush()
                if o[3]: raise OSError('download failed')
                f.write(data[len(data) // 2:])
        j.file_put_contents(o[1], writer)
    elif o[0] == 'move':
        j.move_file(o[1], o[2])
    elif o[0] == 'delete':
        j.delete_file(o[1])


def run_txs(d, txs, point=(0, crash.COUNT, 0)):
    """In a child: all transactions; counts before, after the operations, and at the end of each; and how each ended."""
    j = open_jfs(d)
    crash.arm(*point)
    marks, ends = [], []
    for tx in txs:
        n0 = crash.count()
        failed = None
        try:
            j.begin()
            for k, o in enumerate(tx['ops']):
                try:
                    do_op(j, o)
                except BaseException:
                    failed = k
                    raise
            n1 = crash.count()
            if tx['end'] == 'commit':
                j.commit()
            n2 = crash.count()
            if tx['end'] == 'rollback':
                j.rollback()
            ends.append(['ok', None])
        except Exception as e:          # as client_filesystem_interface does  # pylint: disable=broad-except
            n1 = n2 = crash.count()
            if point[1] == crash.FAIL: crash.off()
            j.rollback()
            ends.append(['failed', failed, core.describe(e)])
        marks.append([n0, n1, n2, crash.count()])
        if point[1] == crash.FAIL and ends[-1][0] == 'failed' and n2 >= point[0]:
            break
    return marks, ends, crash.count()


def recover(d, point=(0, crash.COUNT, 0), finish=False):
    """In a child: what the next process does before its first transaction."""
    j = open_jfs(d)
    crash.arm(*point)
    j.begin()
    n = crash.count()
    crash.off()
    if finish:      # the next transaction itself
        j.file_put_contents('after', b'after')
        j.commit()
    return n


def tree_of(d):
    out = {}
    for base, dirs, files in os.walk(d):
        if base == d and CONF in dirs: dirs.remove(CONF)
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def diff(got, want):
    show = lambda t, p: 'missing' if p not in t else 'len %d %r' % (len(t[p]), t[p][:20])
    return {p[:20]: (show(got, p), show(want, p)) for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p)}


def expect(ctx, d, states, what):
    got = tree_of(d)
    if any(got == s for s in states):
        return
    ctx.check(False, '%s: files (found, expected): %r' % (what, diff(got, states[0])), 'C24')


def execute(plan, ctx):
    base = ctx.newdir()
    for sub in ('d/sub', 'empty', CONF):
        os.makedirs(os.path.join(base, sub))
    start = {p: rm.content(c) for p, c in plan['files'].items()}
    for p, data in start.items():
        with open(os.path.join(base, p), 'wb') as f:
            f.write(data)

    states, fails = [start], []
    for tx in plan['txs']:
        new, k = model_tx(states[-1], tx)
        states.append(new)
        fails.append(k)

    # ------------------------------------------------ undisturbed
    d = os.path.join(ctx.newdir(), 'w')
    shutil.copytree(base, d)
    marks, ends, total = crash.child(lambda: run_txs(d, plan['txs'])).unwrap()
    for k, tx in enumerate(plan['txs']):
        if fails[k] is None:
            ctx.check(ends[k][0] == 'ok', 'transaction %d failed: %r' % (k, ends[k][1:]), 'C24')
        else:
            ctx.check(ends[k][0] == 'failed' and ends[k][1] == fails[k], 'operation %r should fail (%r)' % (tx['ops'][fails[k]], ends[k]), 'C24')
            ctx.label('failing operation')
    expect(ctx, d, [states[-1]], 'after %d transactions' % len(plan['txs']))
    effective = any(len(tx['ops']) >= 2 and any(o[0] in ('move', 'delete') or o[1] in start for o in tx['ops']) for tx in plan['txs'])
    if effective and any(f for f in fails): ctx.nontrivial()
    if effective and any(tx['end'] == 'rollback' and f is None for tx, f in zip(plan['txs'], fails)): ctx.nontrivial()

    for kind, v in plan['fault']:
        if total == 0: break
        k = 1 + v % total
        d = os.path.join(ctx.newdir(), 'w')
        shutil.copytree(base, d)
        t = next(x for x, m in enumerate(marks) if k <= m[3])
        tx = plan['txs'][t]
        allowed = [states[t]]
        if tx['end'] == 'commit' and fails[t] is None and k > marks[t][1]: allowed.append(states[t + 1])
        ctx.evals += 1
        ctx.label('fault ' + kind)
        if kind == 'fail':
            if k > marks[t][2] or (fails[t] is not None and k > marks[t][1]): continue       # inside a rollback
            err = crash.ERRNOS[v % len(crash.ERRNOS)]
            m2, e2, _ = crash.child(lambda: run_txs(d, plan['txs'], (k, crash.FAIL, err))).unwrap()
            if e2[t][0] == 'ok':        # tolerated
                allowed, what = [states[-1]], 'after a tolerated failure (errno %d)' % err
                if fails[t] is not None and t == len(e2) - 1: allowed = [states[t]]
            elif len(e2) == t + 1:
                allowed, what = [states[t]], 'after a failed transaction (errno %d)' % err
            else:
                allowed, what = [states[-1]], 'after transactions'
            expect(ctx, d, allowed, what)
        else:
            out = crash.child(lambda: run_txs(d, plan['txs'], (k, crash.TORN if kind == 'torn' else crash.KILL, 0)))
            if not out.killed:
                out.unwrap()
                raise RuntimeError('the crash point was not reached')
            what = 'after a crash at call %d of %d (%s)' % (k, total, kind)
        # ------------------------------------------------ recovery, itself interrupted
        for r in plan['recovery']:
            probe = os.path.join(ctx.newdir(), 'w')     # the journal names absolute paths: count in place, then put back
            shutil.copytree(d, probe)
            n = crash.child(lambda: recover(d)).unwrap()
            shutil.rmtree(d)
            shutil.copytree(probe, d)
            if n:
                crash.child(lambda: recover(d, (1 + r % n, crash.KILL if r % 3 else crash.TORN, 0)))
                ctx.label('recovery interrupted')
        crash.child(lambda: recover(d)).unwrap()
        expect(ctx, d, allowed, what + ' and recovery')
        crash.child(lambda: recover(d, finish=True)).unwrap()
        expect(ctx, d, [dict(s, after=b'after') for s in allowed], what + ', recovery and another transaction')
        if effective: ctx.nontrivial()
