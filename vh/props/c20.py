"""C20: edits made while a commit is running are never lost."""
from hypothesis import strategies as st
from vh import client_machine as cm
from vh.repo_machine import content

LEVEL = 'edits injected at sampled moments of generated commits'
RULE = 'at least one edit was made between the first and the last request of a commit that created a version'
BUDGET = {'quick': 2000, 'thorough': 36000}


def strategy(tier):
    e = cm.edit_ops({'write': 4, 'modify': 8, 'restore': 3, 'touch': 2})
    write = st.tuples(st.just('write'), st.integers(0, 9), cm.CONTENTS, st.just(0)).map(list)
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0], [1, 1]]),
        'paths': cm.pools(min_size=3),
        'start': st.lists(write, min_size=0, max_size=6),
        'rounds': st.lists(st.fixed_dictionaries({
            'edits': st.lists(st.one_of(write, e), min_size=1, max_size=5),
            'stop': st.one_of(st.none(), st.none(), st.integers(0, 9)),
            'racing': st.lists(st.tuples(st.integers(0, 999), e, st.integers(0, 2)).map(list), min_size=1, max_size=4),
            # [after which request, lines of the client after that, edit, aim]
            'between': st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 99), st.one_of(st.integers(1, 40), st.integers(1, 120)), e, st.integers(0, 2)).map(list), min_size=1, max_size=6))}), min_size=1, max_size=2 if tier == 'quick' else 4)})


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    w, other = m.wcs
    for e in plan['start']:
        m.edit(w, *e)
    m.commit(w)
    for rd in plan['rounds']:
        ctx.evals += 1
        for e in rd['edits']:
            m.edit(w, *e)
        loc = w.status()
        pushes = [p for p, s in loc.items() if s != 'deleted']
        resumed = rd['stop'] is not None and pushes
        if resumed:
            k = rd['stop'] % (2 * len(pushes))
            seen = []

            def stop(when, n, route, headers, body):
                if when == 'after' and route == 'push_file':
                    seen.append(n)
                    return 'kill' if len(seen) > k // 2 else None
            before = m.server_versions()
            m.bvn(w, ['commit'], hook=stop)
            ids = m.server_versions()
            if ids != before:       # most of it was sent by an earlier attempt, so it was not stopped
                want = w.tracked()
                got = m.server_tree(ids[-1])
                ctx.check(got == want, 'a commit without edits differs: %s' % cm.differences(got, want))
                m.versions = m.versions[:1] + [{'id': i, 'files': want, 'touched': set(want)} for i in ids]
                w.base, w.rev = dict(w.files), len(m.versions) - 1
            ctx.label('resumed')
            for e in rd['edits'][k % 2:]:
                m.edit(w, *e)
            loc = w.status()
            pushes = [p for p, s in loc.items() if s != 'deleted']
        if not loc:
            continue
        # moments: 4 per upload, some more for the other requests
        total = 4 * len(pushes) + 8
        due = {}
        for at, e, aim in rd['racing']:
            due.setdefault(at % total, []).append((e, aim))
        stops, between = {}, {}
        for at, lines, e, aim in rd.get('between', []):
            at = 2 if resumed and at % 2 else 1 + at % (len(pushes) + 3)        # 2: the answer to begin_commit
            stops.setdefault(at, []).append(lines)
            between.setdefault((at, lines), []).append((e, aim))
        history = {p: {w.files[p][0]} for p in w.files}
        state = {'n': -1, 'edits': 0}

        def hook(when, n, route, headers, body):
            if when == 'line':
                ctx.label('stopped at a line')
                edits = between.pop(tuple(body[:2]), [])
                near = [p for v in body[2] for p in (v, v[len(w.path):] if v.startswith(w.path) else '') if p in w.files]
            else:
                state['n'] += 1
                edits = due.pop(state['n'], [])
            for e, aim in edits:
                e = list(e)
                if when == 'line' and aim != 2 and near and e[0] in ('modify', 'restore', 'touch', 'write'):
                    m.put(w, near[0], content(e[2]))                  # the file the client is dealing with
                    state['edits'] += 1
                    ctx.label('edited while the client deals with it')
                elif aim == 0 and e[0] == 'modify' and pushes:         # aimed at a file of the commit
                    p = pushes[e[1] % len(pushes)]
                    if p in w.files:
                        m.put(w, p, content(e[2]))
                        state['edits'] += 1
                elif aim == 1 and e[0] == 'modify' and pushes:       # or half written, in place
                    p = pushes[e[1] % len(pushes)]
                    if p in w.files:
                        with open(w.full(p), 'r+b') as f:
                            f.write(b'OVERWRITTEN')
                            if e[3] % 2:
                                f.truncate(11)
                        with open(w.full(p), 'rb') as f:
                            m.put(w, p, f.read())
                        state['edits'] += 1
                elif m.edit(w, *e):
                    state['edits'] += 1
                for q in w.files:
                    history.setdefault(q, set()).add(w.files[q][0])
            return None
        before = m.server_versions()
        r = m.bvn(w, ['commit', '-m', 'racing'], hook=hook, stops=stops)
        m.check_disk(w, 'a commit')
        ids = m.server_versions()
        ctx.check(ids[:len(before)] == before and len(ids) <= len(before) + 1, 'history: %s' % ids)
        made = len(ids) > len(before)
        ctx.check(made == ('Commit ok' in r.out), 'commit prints %r, a version was%s created' % (r.out[-100:], '' if made else ' not'))
        if not state['edits']:
            ctx.check(made, 'commit fails: %r' % r)
        tree = m.server_tree(ids[-1]) if ids else {}
        old = m.versions[-1]['files']
        # every edit is in the version or shown
        s = m.bvn(w, ['status'])
        ctx.check(s.ok, 'status fails: %r' % s)
        shown = m.parse_status(s.out)
        for p in sorted(set(tree) | set(w.files)):
            mine = w.files[p][0] if p in w.files else None
            if tree.get(p) != mine:
                ctx.check(p in shown, '%s differs from the committed version (%s) and is not shown as changed' % (p, cm.differences({p: mine}, {p: tree.get(p)})))
                kind = 'deleted' if mine is None else None
                ctx.check((shown[p] == 'deleted') == (kind == 'deleted'), '%s is shown as %s' % (p, shown[p]))
            if not made:
                ctx.check(tree.get(p) == old.get(p), 'the newest version changed')
        for p in shown:
            ctx.check(p in w.files or p in tree or shown[p] == 'deleted' and p in old, '%s is shown as %s and is nowhere' % (p, shown[p]))
        if made:
            for p, c in tree.items():
                if c not in history.get(p, ()) and c != old.get(p):
                    # read while it was being replaced: a mixture, shown as changed above
                    ctx.label('mixture')
            if state['edits']:
                ctx.nontrivial()
                ctx.label('edited during')
        # the next commit publishes all of it
        s = m.bvn(w, ['commit', '-m', 'after'])
        ctx.check(s.ok, 'the next commit fails: %r' % s)
        ids = m.server_versions()
        got, want = m.server_tree(ids[-1]) if ids else {}, w.tracked()
        ctx.check(got == want, 'after the next commit the newest version is wrong: %s' % cm.differences(got, want))
        s = m.bvn(w, ['status'])
        ctx.check('Nothing changed' in s.out, 'after the next commit status shows %r' % s.out)
        m.check_disk(w, 'after the next commit')
        # the model starts over from here
        m.versions = m.versions[:1] + [{'id': i, 'files': want, 'touched': set(want)} for i in ids]
        w.base, w.rev = dict(w.files), len(m.versions) - 1
    m.bvn(other, ['update'])
    if m.server_versions():
        ctx.check(cm.contents_of(other.scan()) == m.versions[-1]['files'], 'another working copy gets something else')
