"""C31: old-format working copies migrate without losing their state."""
import base64, glob, json, os
from hypothesis import strategies as st
from vh import client_machine as cm, crash
from vh.props.c21 import pattern
from vh.srv import js

LEVEL = 'generated old working copies, local edits and interruptions against a model'
RULE = 'an old working copy with at least one tracked file and one local change was converted and used for an update or commit'
BUDGET = {'quick': 1400, 'thorough': 20000}
NEEDS_CRASH = True


def strategy(tier):
    edits = st.lists(cm.edit_ops({'restore': 1}), max_size=4)
    some = st.lists(cm.edit_ops(), min_size=1, max_size=4)
    write = st.tuples(st.just('write'), st.integers(0, 9), cm.CONTENTS, st.just(0)).map(list)
    rule = st.tuples(st.integers(0, 6), st.integers(0, 9), st.integers(0, 9)).map(list)
    fault = st.tuples(st.sampled_from(['before-kill', 'before-drop', 'after-kill', 'after-drop', 'fail', 'cut', 'sys', 'sys', 'sys', 'err', 'unreachable', 'noanswer']),
                      st.integers(0, 999), st.integers(0, 9)).map(list)
    use = st.one_of(st.tuples(st.just('update'), st.integers(0, 1), st.booleans()), st.tuples(st.just('status'), st.just(0), st.just(0)),
                    st.tuples(st.just('commit'), st.just(0), st.just(0)), st.tuples(st.just('edit'), some, st.just(0)),
                    st.tuples(st.just('a'), some, st.just(0)), st.tuples(st.just('oldignore'), st.integers(0, 3), st.just(0))).map(list)
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0]]),
        'paths': cm.pools(min_size=3),
        'first': st.lists(cm.CONTENTS, min_size=2, max_size=6),
        'versions': st.lists(st.lists(st.one_of(write, cm.edit_ops({'bulk': 1})), min_size=1, max_size=4), min_size=0, max_size=2),
        'ignore': st.integers(0, 3),             # of the old ignore file: none, committed first, committed last, local only
        'rev': st.integers(0, 9),
        'pull': st.lists(rule, max_size=2),
        'late': st.booleans(),                   # the rule was added by hand, after the files were pulled
        'lacks': st.lists(st.integers(0, 9), max_size=1),
        'edits': edits,
        'cwd': st.booleans(),
        'faults': st.lists(fault, max_size=3),
        'uses': st.lists(use, min_size=1, max_size=4)})


IGNORES = ['*.junk\n', '/a/*\n*.junk\n', '\n', '*~\n/dir/*\n']
OLD_IGNORE, OLD_PULL = '/.shttpfs_ignore', '/.shttpfs_pull_ignore'


def raw_commit(m, changes):
    """A commit by somebody who still has an old client: {path: contents or None}."""
    c = m.sim.connect('10.8.8.8')
    tok = m.sim.login(c, m.users[0], cm.REPO)
    h = {'session_token': tok, 'repository': cm.REPO, 'user': m.users[0]}
    r = c.request('begin_commit', dict(h, previous_revision=m.versions[-1]['id']), b'{}')
    assert r.ok, r
    for p, data in changes.items():
        if data is None:
            r = c.request('delete_files', h, js({'files': json.dumps([{'path': p}])}))
        else:
            r = c.request('push_file', dict(h, path=p), data)
        assert r.ok, r
    r = c.request('commit', dict(h, commit_message='old', mode='commit'), b'{}')
    assert r.ok, r
    files = dict(m.versions[-1]['files'])
    for p, data in changes.items():
        files.pop(p, None)
        if data is not None:
            files[p] = data
    m.record_commit(None, r.headers['head'], files, set(changes), None)
    c.close()
    m.sim.conns.remove(c)


def renamed(w):
    """What opening an old working copy does to its ignore files."""
    for old, new in ((OLD_IGNORE, '/.bvn_ignore'), (OLD_PULL, '/.bvn_pull_ignore')):
        if old in w.files and new not in w.files:
            w.files[new] = w.files.pop(old)


def names(tree):
    out = {}
    for p, c in tree.items():
        p = {OLD_IGNORE: '/.bvn_ignore', OLD_PULL: '/.bvn_pull_ignore'}.get(p, p)
        out.setdefault(p, []).append(c)
    return {p: sorted(c) for p, c in out.items()}


def scan(w):
    return {p: v for p, v in w.scan().items() if not p.startswith('/.shttpfs/')}


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    a = m.wcs[0]
    for i, c in enumerate(plan['first']):
        m.edit(a, 'write', i, c, 0)
    m.commit(a)
    if plan['ignore'] == 1:
        raw_commit(m, {OLD_IGNORE: IGNORES[plan['rev'] % 4].encode()})
    # from here on nobody uses a
    for es in plan['versions']:
        w0 = cm.WC(9, 'user0', '10.8.8.8', os.path.join(ctx.newdir(), 'tmp'))
        os.makedirs(w0.path)
        for p, c in m.versions[-1]['files'].items():
            m.put(w0, p, c)
        for e in es:
            m.edit(w0, *e)
        now, then = cm.contents_of(w0.files), m.versions[-1]['files']
        ch = {p: now.get(p) for p in set(now) | set(then) if now.get(p) != then.get(p)}
        if ch:
            raw_commit(m, ch)
    if plan['ignore'] == 2:
        raw_commit(m, {OLD_IGNORE: IGNORES[plan['rev'] % 4].encode()})
    # the old working copy
    rev = plan['rev'] % len(m.versions)
    path = os.path.join(ctx.newdir(), 'old')
    b = cm.WC(1, 'user1', '10.0.0.9', path)
    os.makedirs(os.path.join(path, '.shttpfs'))
    m.wcs.append(b)
    b.rev = rev
    tree = m.versions[rev]['files']
    rules = [pattern(m, b, r)[1] for r in plan['pull']]
    rules = [r for r in rules if not cm.matches(OLD_IGNORE, [r])]
    lacks = {sorted(tree)[i % len(tree)] for i in plan['lacks'] if tree} - {OLD_IGNORE}
    manifest = {}
    for p, c in tree.items():
        if cm.matches(p, rules) and not plan['late'] or p in lacks:
            continue
        m.put(b, p, c)
        manifest[p] = {'path': p, 'last_mod': b.files[p][1], 'created': b.files[p][1]}
        b.base[p] = b.files[p]
    b.omitted = set(lacks) | {p for p in tree if cm.matches(p, rules)}
    if rules:
        m.put(b, OLD_PULL, ''.join(r + '\n' for r in rules).encode())
    with open(os.path.join(path, '.shttpfs', 'manifest.json'), 'w') as f:
        json.dump({'have_revision': m.versions[rev]['id'], 'format_version': 2, 'files': manifest}, f)
    with open(os.path.join(path, '.shttpfs', 'client_configuration.json'), 'w') as f:
        json.dump({'server_domain': 'http://%s:8090' % cm.HOST, 'user': 'user1', 'repository': cm.REPO, 'private_key': m.key('user1')}, f)
    if plan['ignore'] == 3:
        m.put(b, OLD_IGNORE, IGNORES[plan['rev'] % 4].encode())
    for e in plan['edits']:
        m.edit(b, *e)
    if OLD_PULL in b.files:
        for p in [p for p in b.base if cm.matches(p, rules)]:
            del b.base[p]
    cwd = b.path
    dirs = sorted({x for p in b.files for x in cm.below(p)})
    if plan['cwd'] and dirs:
        cwd = b.full(dirs[0])
    before = names(cm.contents_of(b.files))
    tracked = len(b.base)

    # opening it, perhaps not successfully
    for how, k, x in plan['faults']:
        hook = armed = answer = None
        reach = how != 'unreachable'
        if how in ('sys', 'err'):
            armed = (1 + k % 150, crash.KILL if how == 'sys' else crash.FAIL, crash.ERRNOS[x % len(crash.ERRNOS)])
        else:
            def hook(when, n, route, headers, body, how=how, k=k):
                if how == 'noanswer':
                    return 'drop' if when == 'before' and n == k % 3 else None
                if route != 'list_files':
                    return None
                if how == 'fail':
                    return 'fail' if when == 'before' else None
                if how == 'cut':
                    return ('cut', k) if when == 'after' else None
                return how.split('-')[1] if when == how.split('-')[0] else None
        r = m.server.run(['status'], cwd, ip=b.ip, hook=hook, armed=armed, reach=reach)
        got = names({p: v[0] for p, v in scan(b).items()})
        ctx.check(got == before, 'a failed conversion changed the working copy: %s, before %s' % (sorted(got.items())[:5], sorted(before.items())[:5]))
        ctx.label('conversion failed' if not r.ok else 'conversion survived')
        ctx.evals += 1
        if not os.path.isdir(cwd):
            cwd = b.path
    first = True
    changed = False
    for kind, x, y in [['status', 0, 0]] * (plan['rev'] % 2) + plan['uses']:
        if kind == 'edit':
            if first:
                continue
            for e in x:
                m.edit(b, *e)
            continue
        if kind == 'a':
            w0 = cm.WC(9, 'user0', '10.8.8.8', os.path.join(ctx.newdir(), 'tmp'))
            os.makedirs(w0.path)
            for p, c in m.versions[-1]['files'].items():
                m.put(w0, p, c)
            for e in x:
                m.edit(w0, *e)
            now, then = cm.contents_of(w0.files), m.versions[-1]['files']
            ch = {p: now.get(p) for p in set(now) | set(then) if now.get(p) != then.get(p)}
            if ch:
                raw_commit(m, ch)
            continue
        if kind == 'oldignore':
            raw_commit(m, {OLD_IGNORE: (IGNORES[x] + '#\n').encode()})
            continue
        renamed(b)
        loc = b.status()
        if kind == 'status':
            m.check_status(b, 'an old working copy')
        elif kind == 'update':
            if m.update(b, ['client', 'server'][x], full=y) is None:
                return
            if y:
                b.omitted = set()
        else:
            m.commit(b)
        if kind != 'status' and tracked and loc:
            changed = True
        left = [p for p in ('.shttpfs', '.bvn/manifest.json') if os.path.exists(os.path.join(path, p))]
        ctx.check(not left, '%s is left after the conversion' % left)
        m.check_disk(b, kind)
        if m.recorded(b) == 'root':
            ctx.check(b.rev == 0 or len(m.versions) == 1, 'the revision was forgotten')
        else:
            ctx.check(m.recorded(b) == m.versions[b.rev]['id'], 'the working copy says it has another revision')
        first = False
    if first:
        return
    renamed(b)
    r = m.bvn(b, ['update'], answer=lambda k, t: 'client')
    ctx.check(not any(name == 'list_files' for name, _ in r.requests), 'converted again')
    if changed:
        ctx.nontrivial()
