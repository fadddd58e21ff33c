"""C16: working copies converge and local edits survive updates."""
from hypothesis import strategies as st
from vh import client_machine as cm

LEVEL = 'generated histories of several working copies against a model'
RULE = 'at least two commits and two updates ended well, from at least two working copies'
BUDGET = {'quick': 1200, 'thorough': 20000}


def strategy(tier):
    n = 10 if tier == 'quick' else 30
    edit = st.tuples(st.just('edit'), st.integers(0, 2), cm.edit_ops({'mkdir': 1, 'restore': 1, 'bulk': 1}))
    turn = st.tuples(st.just('turn'), st.integers(0, 2), st.lists(cm.edit_ops({'mkdir': 1, 'restore': 1, 'bulk': 1}), min_size=1, max_size=4))
    op = st.one_of(edit, edit, turn, turn, st.tuples(st.sampled_from(['commit', 'commit', 'update', 'update', 'full', 'status']), st.integers(0, 2), st.integers(0, 1))).map(list)
    return st.fixed_dictionaries({
        'wcs': st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)).map(list), min_size=2, max_size=3),
        'paths': cm.pools(),
        'junk': st.booleans(),
        'ops': st.lists(op, min_size=4, max_size=n),
        'end': st.sampled_from(['client', 'server', ''])})


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    if plan['junk']:
        w = m.wcs[0]
        m.put(w, '/.bvn_ignore', b'*.junk\n/local/*\n')
        m.put(w, '/local/x', b'local only')
        m.commit(w)
        for x in m.wcs[1:]:
            m.update(x)
            m.put(x, '/some.junk', b'junk of %d' % x.idx)
    committers = set()
    for kind, i, arg in plan['ops']:
        w = m.wcs[i % len(m.wcs)]
        if kind == 'edit':
            m.edit(w, *arg)
            continue
        if kind == 'turn':
            for e in arg:
                m.edit(w, *e)
            if m.update(w, 'client') is None:
                return
            kind = 'commit'
        if kind == 'commit':
            n = m.commits
            m.commit(w, msg='by %d' % w.idx)
            if m.commits > n:
                committers.add(w.idx)
        elif kind == 'status':
            m.check_status(w, 'status')
        else:
            if m.update(w, ['client', 'server'][arg], full=(kind == 'full')) is None:
                return
        m.check_disk(w, kind)
    if plan['end']:
        if not m.sync_all(plan['end']):
            return
        for w in m.wcs:
            m.check_disk(w, 'at the end')
        ctx.label('converged')
    if m.conflicts:
        ctx.label('conflicts')
    if m.commits >= 2 and m.updates >= 2:
        ctx.nontrivial()
