"""C19: an interrupted commit can be redone with an exact result."""
import glob
from hypothesis import strategies as st
from vh import client_machine as cm, crash

LEVEL = 'faults at sampled requests, chunks and system calls of generated commits, against a model'
RULE = 'a commit was stopped after its first change on the server and a later commit resumed or replaced it'
BUDGET = {'quick': 1500, 'thorough': 24000}
NEEDS_CRASH = True

HOWS = ['before-kill', 'before-drop', 'after-kill', 'after-drop', 'fail', 'cut', 'upcut', 'chunk', 'head']
ROUTES = ['begin_commit', 'delete_files', 'push_file', 'push_file', 'push_file', 'commit', 'commit']


def strategy(tier):
    n = 5 if tier == 'quick' else 9
    edits = st.lists(cm.edit_ops({'restore': 3, 'bulk': 1}), min_size=1, max_size=4)
    rules = st.tuples(st.just('rules'), st.integers(0, 9), st.integers(0, 9), st.integers(0, 3)).map(list)
    edits = st.one_of(edits, edits, edits, st.tuples(edits, rules).map(lambda t: [t[1]] + t[0]))
    none = st.one_of(edits, edits, edits, st.just([]))
    fault = st.one_of(st.tuples(st.just('req'), st.integers(0, len(ROUTES) - 1), st.integers(0, 3), st.integers(0, len(HOWS) - 1), st.integers(0, 99)),
                      st.tuples(st.just('req'), st.integers(0, len(ROUTES) - 1), st.integers(0, 3), st.integers(0, len(HOWS) - 1), st.integers(0, 99)),
                      st.tuples(st.just('sys'), st.integers(0, 9999), st.just(0), st.integers(0, 2), st.integers(0, 9))).map(list)
    step = st.one_of(
        st.tuples(st.just('stop'), st.integers(0, 2), st.lists(cm.edit_ops(), min_size=1, max_size=4), fault),
        st.tuples(st.just('stop'), st.integers(0, 1), st.lists(cm.edit_ops(), min_size=1, max_size=4), fault),
        st.tuples(st.just('go'), st.integers(0, 2), none, st.integers(0, 3)),
        st.tuples(st.just('go'), st.integers(0, 1), none, st.integers(0, 3)),
        st.tuples(st.just('restart'), st.just(0), st.just([]), st.just(0))).map(list)
    return st.fixed_dictionaries({
        'wcs': st.sampled_from([[[0, 0], [0, 0], [1, 1]], [[0, 0], [0, 0], [1, 0]], [[0, 0], [0, 1], [1, 1]]]),
        'paths': cm.pools(min_size=4),
        'start': st.lists(st.tuples(st.just('write'), st.integers(0, 9), cm.CONTENTS, st.just(0)).map(list), min_size=2, max_size=6),
        'first': st.tuples(st.integers(0, 1), st.lists(cm.edit_ops(), min_size=1, max_size=5), fault).map(list),
        'steps': st.lists(step, min_size=1, max_size=n),
        'end': st.integers(0, 2)})


def make_fault(fault, loc):
    if fault[0] == 'sys':
        _, k, _, mode, x = fault
        return None, (1 + k % 400 if x else 1 + k % 60, [crash.KILL, crash.KILL, crash.FAIL][mode], crash.ERRNOS[x % len(crash.ERRNOS)])
    _, ri, nth, hi, x = fault
    route, how = ROUTES[ri], HOWS[hi]
    pushes, deletes = sum(s != 'deleted' for s in loc.values()), sum(s == 'deleted' for s in loc.values())
    if route == 'push_file' and not pushes or route == 'delete_files' and not deletes:
        route = 'delete_files' if deletes else 'push_file'
    nth = nth % max(1, pushes) if route == 'push_file' else 0
    if how in ('chunk', 'head', 'upcut') and route != 'push_file':
        how = 'after-drop'
    seen = [-1]
    nums = {}

    def hook(when, n, name, headers, body):
        if name != route:
            return None
        if n not in nums:
            seen[0] += 1
            nums[n] = seen[0]
        if nums[n] != nth:
            return None
        if how in ('chunk', 'head'):
            return 'kill' if when == how else None
        if how == 'fail':
            return 'fail' if when == 'before' else None
        if how == 'cut':
            return ('cut', x) if when == 'after' else None
        if how == 'upcut':
            return ('cut', x) if when == 'before' and name == 'push_file' and body else None
        at, act = how.split('-')
        return act if when == at else None
    return hook, None


def stopped_commit(m, w, fault, ctx):
    """A commit with a fault; the model afterwards.  True if it stopped after a change on the server."""
    loc = w.status()
    before = cm.contents_of(w.files)
    stale = w.rev != len(m.versions) - 1
    hook, armed = make_fault(fault, loc)
    r = m.bvn(w, ['commit', '-m', 'm'], hook=hook, armed=armed)
    got = cm.contents_of(w.scan())
    ctx.check(got == before, 'commit changed the working copy: %s' % cm.differences(got, before))
    if r.how == 'raised' and not r.lost and armed is None:
        ctx.check(False, 'commit fails without a fault: %r' % r)
    ids, known = m.server_versions(), [v['id'] for v in m.versions[1:]]
    ctx.check(ids[:len(known)] == known and len(ids) <= len(known) + 1, 'history after an interrupted commit: %s, before %s' % (ids, known))
    if ids == known:
        ctx.check('Commit ok' not in r.out, 'commit reports success, but there is no version')
        if loc and not stale:
            m.pending |= set(loc)
        return any(name in ('push_file', 'delete_files') for name, _ in r.requests)
    ctx.check(loc and not stale, 'a version appeared')
    files = dict(m.versions[-1]['files'])
    for p, s in loc.items():
        if s == 'deleted':
            files.pop(p, None)
        else:
            files[p] = before[p]
    tree = m.server_tree(ids[-1])
    ctx.check(tree == files, 'the committed version is wrong: %s' % cm.differences(tree, files))
    m.record_commit(w, ids[-1], files, set(loc) | m.pending, None)
    m.pending = set()
    if m.recorded(w) == ids[-1]:
        for p, s in loc.items():
            if s == 'deleted':
                w.base.pop(p, None)
            else:
                w.base[p] = w.files[p]
        w.rev = len(m.versions) - 1
        m.check_status(w, 'after a commit')
        m.check_head_is_working_copy(w)
        return False
    ctx.label('response lost')
    return True


def edit(m, w, e):
    """An edit, or an additional rule: a file that was never committed (but perhaps uploaded) is ignored from now on."""
    if e[0] != 'rules':
        m.edit(w, *e)
        return
    _, a, b, c = e
    never = [p for p in sorted(m.pending) + m.paths if not any(p in v['files'] for v in m.versions) and not any(p in o.base for o in m.wcs)
             and not p.startswith('/.bvn')]
    if not never or len(m.paths) < 3:
        return
    p = never[a % len(never)]
    name = '/.bvn_pull_ignore' if c == 3 else '/.bvn_ignore'
    for o in m.wcs:
        if o is not w and p in o.files:
            m.remove(o, p)
    if p in m.paths:
        m.paths.remove(p)
    m.pending.discard(p)
    for v in m.versions:
        v['touched'].discard(p)
    old = w.files[name][0] if name in w.files else b''
    m.put(w, name, old + glob.escape(p).encode() + b'\n')


def execute(plan, ctx):
    m = cm.Machine(ctx, dict(plan, paths=list(plan['paths'])))
    ws = m.wcs
    for e in plan['start']:
        edit(m, ws[0], e)
    m.commit(ws[0])
    for w in ws[1:]:
        if m.update(w) is None:
            return
    dirty = False
    i, edits, fault = plan['first']
    for kind, i, edits, arg in [['stop', i, edits, fault]] + plan['steps'] + [['go', plan['end'], [['write', 0, 7, 0]], 0], ['go', 0, [], 0]]:
        w = ws[i]
        if kind == 'restart':
            m.sim.restart()
            ctx.label('server restarted')
            continue
        for e in edits:
            edit(m, w, e)
        if kind == 'stop':
            if w.rev != len(m.versions) - 1 and m.update(w) is None:
                return
            ctx.evals += 1
            dirty |= stopped_commit(m, w, arg, ctx)
            continue
        if arg != 1 or w.rev != len(m.versions) - 1:
            if m.update(w, ['client', 'client', 'client', 'server'][arg]) is None:
                return
        n = m.commits
        m.commit(w)
        if m.commits > n and dirty:
            ctx.nontrivial()
            dirty = False
        m.check_status(w, 'after a commit')
    for w in ws:
        if m.update(w) is None:
            return
        m.check_disk(w, 'at the end')
