"""C32: one client at a time works on a working copy, found from any directory inside it."""
import os
from hypothesis import strategies as st
from vh import client_machine as cm

LEVEL = 'generated pairs of overlapping commands and starting directories against a model'
RULE = 'a command was tried while another one was at work on the same working copy, and again after that ended'
BUDGET = {'quick': 1200, 'thorough': 20000}

SECOND = ['status', 'update', 'full', 'commit', 'revert', 'pull-ignore', 'list-files', 'list-versions', 'list-ignored-files', 'list-changes', 'revert-all']
DIRS = ['', '/d', '/d/e', '/ ', '/a b/c ', '/*', '/.hidden', '/é/ü', '/d/d/d/d/d/d/d/d', '/~', '/%41', '/d\te']
NEAR = ['x', ' ', '.', '2', '.bvn', '~']


def strategy(tier):
    edits = st.lists(cm.edit_ops(), min_size=1, max_size=4)
    write = st.tuples(st.just('write'), st.integers(0, 9), cm.CONTENTS, st.just(0)).map(list)
    overlap = st.fixed_dictionaries({
        'server': st.one_of(st.just([]), edits), 'local': edits,
        'first': st.sampled_from(['update', 'update', 'update', 'commit', 'commit', 'revert', 'list-files', 'pull-ignore', 'pull-ignore', 'checkout']),
        'at': st.integers(0, 30), 'second': st.lists(st.tuples(st.integers(0, len(SECOND) - 1), st.integers(0, len(DIRS) - 1)).map(list), min_size=1, max_size=3),
        'fate': st.sampled_from(['go', 'go', 'kill', 'drop', 'fail']),
        'other': st.booleans()})
    where = st.fixed_dictionaries({
        'dirs': st.lists(st.tuples(st.integers(0, 5), st.integers(0, len(DIRS) - 1), st.integers(0, 3)).map(list), min_size=1, max_size=5),
        'near': st.integers(0, len(NEAR) - 1), 'nested': st.integers(0, len(DIRS) - 1), 'file': st.integers(0, 2)})
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0], [1, 1], [1, 1]]),
        'paths': cm.pools(min_size=3),
        'start': st.lists(write, min_size=2, max_size=6),
        'what': st.one_of(st.lists(overlap, min_size=1, max_size=3), st.lists(overlap, min_size=1, max_size=3), where)})


def snapshot(d):
    out = {}
    for base, dirs, names in os.walk(d):
        out[base] = None
        for n in names:
            p = os.path.join(base, n)
            if not p.endswith('/.bvn/lock_file'):
                s = os.lstat(p)
                with open(p, 'rb') as f:
                    out[p] = (f.read(), s.st_mtime, s.st_ino)
    return out


def changed(x, y):
    return sorted(p for p in set(x) | set(y) if x.get(p, 0) != y.get(p, 0))[:5]


def command(name, first=False):
    return {'full': ['update', '-f'], 'revert': ['revert', '*'], 'revert-all': ['revert', '--all'],
            'pull-ignore': ['pull-ignore', '-f', '/nothing'] if not first else ['pull-ignore', '-f', '*'],
            'checkout': ['checkout', 'http://%s/%s' % (cm.HOST, cm.REPO)],
            'commit': ['commit', '-m', 'second']}.get(name, [name])


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    a, b, c = m.wcs
    for e in plan['start']:
        m.edit(a, *e)
    m.commit(a)
    for w in (b, c):
        if m.update(w) is None:
            return
    if isinstance(plan['what'], dict):
        where(m, plan['what'], ctx)
        return
    for rd in plan['what']:
        if m.update(a) is None:
            return
        for e in rd['server']:
            m.edit(a, *e)
        m.commit(a)
        if rd['first'] == 'commit' and m.update(b) is None:
            return
        for e in rd['local']:
            m.edit(b, *e)
        state = {'n': -1, 'done': False}
        w, cwd = b, b.path
        if rd['first'] == 'checkout':
            cwd = b.path + ' checkouts %d' % len(m.wcs)
            os.makedirs(cwd)
            w = cm.WC(len(m.wcs), m.users[1], b.ip, os.path.join(cwd, cm.REPO))

        def meanwhile():
            if not os.path.exists(w.full('/.bvn/lock_file')):
                return
            ctx.evals += 1
            before, versions = snapshot(w.path), m.server_versions()
            for i, d in rd['second']:
                d = w.full(DIRS[d])
                r = m.server.run(command(SECOND[i]), d if os.path.isdir(d) else w.path, ip=w.ip, answer=lambda k, t: 'yes' if 'yes' in t else 'client')
                ctx.check(r.how == 'exit' and 'lock' in r.msg.lower(), 'a second client (%s) is not refused: %r' % (SECOND[i], r))
                ctx.check(not r.requests, 'a refused client asks the server')
                now = snapshot(w.path)
                ctx.check(now == before, 'a refused client (%s) changed %s' % (SECOND[i], changed(before, now)))
            ctx.check(m.server_versions() == versions, 'a refused client created a version')
            if rd['other']:
                m.check_status(c, 'another working copy, meanwhile')
            state['done'] = True

        def hook(when, n, route, headers, body):
            state['n'] += 1
            if state['n'] == rd['at'] and not state['done']:
                meanwhile()
                if rd['fate'] == 'go':
                    return None
                if when in ('head', 'chunk'):
                    return 'kill'
                return rd['fate'] if rd['fate'] != 'fail' or when == 'before' else None
            return None

        typed = [m.users[1], m.key(m.users[1])]

        def answer(kind, text):
            if rd['first'] == 'checkout' and typed:
                return typed.pop(0)
            if rd['at'] % 2 and not state['done'] and rd['fate'] == 'go':
                meanwhile()         # while it waits for an answer
                ctx.label('at a question')
            return 'yes' if 'yes' in text else 'client' if 'client' in text else 'nothing'
        if rd['first'] == 'update' and rd['fate'] == 'go' and rd['at'] % 2 == 0:
            if m.update(b, 'client', hook=hook) is None:
                return
        elif rd['first'] == 'commit' and rd['fate'] == 'go':
            m.commit(b, hook=hook)
        else:
            r = m.server.run(command(rd['first'], True), cwd, ip=w.ip, hook=hook, answer=answer)
        # it has ended, however it did
        if os.path.exists(w.full('/.bvn/lock_file')):
            r = m.bvn(w, ['status'])
            ctx.check(r.ok, 'the working copy cannot be opened after a command ended: %r' % r)
        if state['done']:
            ctx.nontrivial()
            ctx.label('%s, %s' % (rd['first'], rd['fate']))
        if rd['fate'] != 'go' or rd['first'] not in ('update', 'commit') or rd['first'] == 'update' and rd['at'] % 2:
            # what an interrupted command does is the business of other properties
            return


def directory(base, d):
    """base/d, or base if a file is in the way."""
    try:
        os.makedirs(base + d, exist_ok=True)
        return base + d
    except (NotADirectoryError, FileExistsError):
        return base


def where(m, plan, ctx):
    a, b, c = m.wcs
    near = b.path + NEAR[plan['near']]
    os.makedirs(near, exist_ok=True)
    if plan['file']:
        # a file with the name of the working copy's own directory does not make a working copy
        places = [near] + ([directory(b.path, DIRS[plan['dirs'][0][1]])] if plan['file'] == 2 else [])
        for d in places:
            if not os.path.lexists(os.path.join(d, '.bvn')):
                with open(os.path.join(d, '.bvn'), 'w') as f:
                    f.write('not a directory')
    top = os.path.dirname(b.path)
    # a working copy inside another one
    inner = m.new_wc(7, 'user0', '10.0.0.7', directory(c.path, DIRS[plan['nested']]) + '/.inner wc')
    m.wcs.append(inner)
    for k, d, cmd in plan['dirs']:
        owner, base = [(b, b.path), (b, b.path), (c, c.path), (inner, inner.path), (None, near), (None, top)][k]
        cwd = directory(base, DIRS[d])
        mine = [w for w in (b, c, inner) if cwd == w.path or cwd.startswith(w.path + '/')]
        owner = max(mine, key=lambda w: len(w.path)) if mine else None
        before = {w.idx: snapshot(w.path) for w in m.wcs}
        rest = {p: v for p, v in snapshot(top).items() if not any(p.startswith(w.path + '/') for w in m.wcs)}
        versions = m.server_versions()
        mark = None
        if owner is b:
            mark = '/mark %d' % m.tick
            m.put(b, mark, b'mark')
            before[b.idx] = snapshot(b.path)
        name = ['status', 'commit', 'update', 'revert-all'][cmd]
        if owner in (c, inner) and name != 'update':
            name = 'status'
        r = m.server.run(command(name), cwd, ip='10.0.0.8', answer=lambda k, t: 'no')
        now_rest = {p: v for p, v in snapshot(top).items() if not any(p.startswith(w.path + '/') for w in m.wcs)}
        ctx.check(now_rest == rest, '%s in %s changed %s, outside of any working copy' % (name, cwd, changed(rest, now_rest)))
        for w in m.wcs:
            if w is owner or owner is inner and w is c:
                continue
            now = snapshot(w.path)
            ctx.check(now == before[w.idx], '%s in %s changed working copy %d: %s' % (name, cwd, w.idx, changed(before[w.idx], now)))
        if owner is None:
            ctx.check(not r.ok, '%s outside of any working copy succeeds' % name)
            ctx.check(m.server_versions() == versions, 'a version was made from outside')
        elif owner is b:
            if name == 'status':
                ctx.check(r.ok and m.parse_status(r.out).get(mark) == 'new', 'status in %s does not show %s: %r %r' % (cwd, mark, r, r.out))
            elif name == 'commit':
                ids = m.server_versions()
                ctx.check(r.ok and len(ids) == len(versions) + 1 and mark in m.server_tree(ids[-1]), 'commit in %s: %r %r' % (cwd, r, r.out))
        elif owner is inner:
            if name == 'update':
                got = {p: v[0] for p, v in inner.scan().items() if p in (m.server_tree(versions[-1]))}
                ctx.check(r.ok and got, 'update in %s: %r' % (cwd, r))
                out = snapshot(c.path)
                diff = [p for p in set(out) | set(before[c.idx]) if out.get(p, 0) != before[c.idx].get(p, 0) and not (p + '/').startswith(inner.path + '/')]
                ctx.check(not diff, 'update in an inner working copy changed the outer one: %s' % sorted(diff)[:5])
        ctx.label('%s %s' % (name, 'outside' if owner is None else 'inside'))
        ctx.nontrivial()
        if k in (4, 5) and owner is None:
            ctx.label('near a working copy')
