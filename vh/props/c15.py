"""C15: the status of a working copy lists exactly what changed."""
import os
from hypothesis import strategies as st
from vh import client_machine as cm

LEVEL = 'generated trees, edits and ignore rules against a model'
RULE = 'a status with at least one changed, one new or deleted and one unchanged or ignored file was compared'
BUDGET = {'quick': 2400, 'thorough': 40000}

ODD = ['/.bvnx', '/.bvnx/a', '/a/.bvn/b', '/a/.bvn_ignore', '/x.bvn_ignore', '/d/.bvn_pull_ignore', '/.bvn_other', '/b.bvn/c', '/line\nbreak', '/tab\tx/\n/y',
       '/a/b/c/d/e/f/g/h/i/j', '/new : /x', '/-', '/ ', '/a/ /b ', '/%0A', '/[ab]', '/*', '/?x', '/sub/.shttpfs_ignore', '/.shttpfsx', '/é', '/e\u0301', '/\u202e',
       '/b', '/b/bvn', '/.b', '/A', '/a.junk', '/.junk', '/junk', '/local/x', '/local/y/z', '/locals']
FILTERS = ['*.junk', '/local/*', '/a', '/a/*', '*/b', '*b', '/[ab]*', '/?', '*', '/b/*', '/.bvnx', 'a', '/', '', '   ', '/A', '*[!a]', '/sub*', '*.bvn_ignore', '/.bvn_ignore', '/a/', 'b/', '/*/', '#a', '!/a', '/a ', ' /a', '/[!a]', '*/*/*']
MTIMES = [0, 1, -1, 1e-06, -1e-06, 0.5, 3600, -86400, 2.4e-07, 1e9, -1.5e9, 0.001, 1e-3 + 1e-6]


def strategy(tier):
    n = 14 if tier == 'quick' else 40
    rules = st.lists(st.integers(0, len(FILTERS) - 1), max_size=3)
    edit = st.tuples(st.just('edit'), cm.edit_ops({'mkdir': 1, 'restore': 2, 'bulk': 1}))
    op = st.one_of(edit, edit, edit,
                   st.tuples(st.just('time'), st.tuples(st.integers(0, 9), st.integers(0, len(MTIMES) - 1)).map(list)),
                   st.tuples(st.just('quiet'), st.tuples(st.integers(0, 9), st.integers(0, 9)).map(list)),
                   st.tuples(st.just('ignore'), rules), st.tuples(st.just('pull'), rules),
                   st.tuples(st.just('bvn'), st.integers(0, 2)),
                   st.tuples(st.sampled_from(['status', 'status', 'status', 'commit', 'other']), st.just(0))).map(list)
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0], [1, 1]]),
        'paths': st.tuples(cm.pools(), st.lists(st.sampled_from(ODD), max_size=4)).map(lambda t: t[0] + [p for p in t[1] if p not in t[0]]),
        'start': st.lists(st.integers(0, 11), min_size=2, max_size=8),
        'ops': st.lists(op, min_size=5, max_size=n)})


def look(m, w, ctx):
    want = w.status()
    r = m.bvn(w, ['api'], api=api_status)
    ctx.check(r.ok, 'looking for changes fails: %r' % r)
    ctx.check(r.value == want, 'changes found: %s, expected %s' % (r.value, want))
    if not any('\n' in p for p in list(w.files) + list(w.base)):
        m.check_status(w, 'status')
    kinds = set(want.values())
    ctx.evals += 1
    if 'changed' in kinds and len(kinds) > 1 and len(want) < len(set(w.files) | set(w.base)):
        ctx.nontrivial()
    for k in kinds:
        ctx.label(k)


def api_status(client):
    client.init()
    out = {}
    for path, info in client.find_local_changes().items():
        assert path == info['path']
        out[path] = info['status']
    return out


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    w = m.wcs[0]
    for i, a in enumerate(plan['start']):
        m.put(w, m.paths[a % len(m.paths)], cm.content(i))
    m.commit(w)
    for kind, arg in plan['ops']:
        if kind == 'edit':
            m.edit(w, *arg)
        elif kind == 'time':             # only the modification time
            p = m.pick(w, arg[0])
            if p is not None:
                old = w.base[p][1] if p in w.base else w.files[p][1]
                t = old + MTIMES[arg[1]]
                os.utime(w.full(p), (t, t))
                w.files[p] = (w.files[p][0], os.stat(w.full(p)).st_mtime)
        elif kind == 'quiet':            # contents without a new modification time: not a change
            p = m.pick(w, arg[0])
            if p is not None:
                m.exact = False
                m.put(w, p, cm.content(arg[1]), w.files[p][1])
        elif kind in ('ignore', 'pull'):
            p = '/.bvn_ignore' if kind == 'ignore' else '/.bvn_pull_ignore'
            if arg:
                end = ['\n', '\n', '\r\n', '\n\n'][sum(arg) % 4]
                text = ''.join(FILTERS[i] + end for i in arg)
                m.put(w, p, (text if arg[0] % 3 else text.rstrip('\r\n')).encode())
            elif p in w.files:
                m.remove(w, p)
        elif kind == 'bvn':
            # what else may lie among the metadata is never reported
            with open(w.full('/.bvn/' + ['x', 'conflict_resolution', 'a.junk'][arg]), 'wb') as f:
                f.write(b'x')
        elif kind == 'commit':
            n = m.commits
            m.commit(w)
            if m.commits > n:
                look(m, w, ctx)
                ctx.check(w.status() == {}, 'changes after a commit: %s' % w.status())
        elif kind == 'other':            # go on in another working copy
            o = m.wcs[1 - w.idx]
            if m.update(o) is None:
                return
            w = o
            look(m, w, ctx)
        else:
            look(m, w, ctx)
    look(m, w, ctx)
