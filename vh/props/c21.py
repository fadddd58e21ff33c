"""C21: partial checkouts omit files locally and never remove them remotely."""
import glob, os
from hypothesis import strategies as st
from vh import client_machine as cm

LEVEL = 'generated histories of a partial and a full working copy against a model'
RULE = 'a rule that matched a file of the repository was in force during an update or commit that did something'
BUDGET = {'quick': 1500, 'thorough': 24000}


def strategy(tier):
    n = 9 if tier == 'quick' else 20
    edits = st.lists(cm.edit_ops({'write': 8, 'bulk': 1}), min_size=1, max_size=4)
    rule = st.tuples(st.integers(0, 7), st.integers(0, 9), st.integers(0, 9)).map(list)
    op = st.one_of(
        st.tuples(st.just('a'), edits), st.tuples(st.just('a'), edits),
        st.tuples(st.just('b'), edits),
        st.tuples(st.just('ignore'), st.tuples(st.lists(rule, min_size=1, max_size=2), st.booleans(), st.integers(0, 4), st.booleans()).map(list)),
        st.tuples(st.just('ignore'), st.tuples(st.lists(rule, min_size=1, max_size=2), st.booleans(), st.integers(0, 4), st.booleans()).map(list)),
        st.tuples(st.just('hand'), st.tuples(rule, st.integers(0, 2), st.integers(0, 3)).map(list)),
        st.tuples(st.just('update'), st.tuples(st.integers(0, 1), st.booleans()).map(list)),
        st.tuples(st.just('update'), st.tuples(st.integers(0, 1), st.booleans()).map(list)),
        st.tuples(st.just('commit'), st.none()),
        st.tuples(st.just('list'), st.none()),
        st.tuples(st.just('stale'), st.tuples(st.integers(0, 9), st.integers(0, 15), st.integers(0, 3)).map(list)),
        st.tuples(st.just('unrule'), st.tuples(st.integers(0, 3), st.one_of(st.just([]), edits)).map(list))).map(list)
    write = st.tuples(st.just('write'), st.integers(0, 9), cm.CONTENTS, st.just(0)).map(list)
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0], [1, 1]]),
        'paths': cm.pools(min_size=3),
        'start': st.lists(write, min_size=2, max_size=8),
        'early': st.one_of(st.none(), st.none(), rule),
        'ops': st.lists(op, min_size=3, max_size=n)})


def pattern(m, b, rule, cwd=''):
    """The pattern as typed, and as it counts."""
    kind, x, y = rule
    p = m.paths[x % len(m.paths)]
    e = glob.escape(p)
    d, name = os.path.split(e)
    if kind == 0:
        t = e
    elif kind == 1:
        t = (d if d != '/' else '') + '/*'
    elif kind == 2:
        t = '*' + name
    elif kind == 3:
        t = e + '*'
    elif kind == 4:
        t = '/' + glob.escape(p.split('/')[1]) + '/*'
    elif kind == 5 and cwd:
        # as seen from the directory
        t = glob.escape(p[len(cwd) + 1:]) if p.startswith(cwd + '/') else name + '*'
        if t.startswith('*'):
            return t, t
        return t, glob.escape(cwd) + '/' + t
    elif kind == 7:
        t = (e if y % 2 else d) + '/'           # matches no file
    else:
        t = '*' + glob.escape(p[-1]) if y % 2 else '/' + '?' * (len(p) - 1)
    return t, t


def plain_edits(m, b, edits):
    """Edits outside of what the rules leave out."""
    for kind, *args in edits:
        pull = b.pull_filters()
        touched = [m.paths[args[0] % len(m.paths)]] if kind == 'write' else [m.pick(b, args[0])]
        if kind == 'move':
            touched.append(m.paths[args[1] % len(m.paths)])
        if any(q is None or any(cm.matches(x, pull) for x in [q] + cm.below(q) + [f for f in b.files if f.startswith(q + '/')]) for q in touched):
            continue
        m.edit(b, kind, *args)


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    a, b = m.wcs
    for e in plan['start']:
        m.edit(a, *e)
    m.commit(a)
    if plan['early'] is not None:
        m.put(b, '/.bvn_pull_ignore', pattern(m, b, plan['early'])[1].encode() + b'\n')
    if m.update(b) is None:
        return
    state = {'matter': False}

    def matter():
        pull = b.pull_filters()
        if any(cm.matches(p, pull) for p in m.versions[-1]['files']):
            ctx.nontrivial()
    matter()
    def stale(arg):
        """A file that is left out but still there changes elsewhere; the rule goes away again."""
        x, c, which = arg
        ps = sorted(p for p in b.base if p in b.files and p in m.versions[-1]['files'] and not p.startswith('/.bvn'))
        if not ps or b.status():
            return True
        p = ps[x % len(ps)]
        old = b.files['/.bvn_pull_ignore'][0] if '/.bvn_pull_ignore' in b.files else b''
        m.put(b, '/.bvn_pull_ignore', old + b'\n' + glob.escape(p).encode() + b'\n')
        m.check_status(b, 'after adding a rule')
        if a.rev != len(m.versions) - 1 and m.update(a) is None:
            return False
        if p in a.files and c % 4 == 3:
            m.remove(a, p, True)
        else:
            m.put(a, p, cm.content(c))
        m.commit(a)
        ctx.label('stale')
        return (which == 2 or step('update', [0, False])) and (which == 1 or step('commit', None)) and step('unrule', [which % 2, []])

    def step(kind, arg):
        if kind == 'stale':
            return stale(arg)
        if kind == 'a':
            if a.rev != len(m.versions) - 1 and m.update(a) is None:
                return False
            for e in arg:
                m.edit(a, *e)
            m.commit(a)
            m.check_disk(a, 'commit elsewhere')
        elif kind == 'b':
            plain_edits(m, b, arg)
        elif kind == 'ignore':
            rules, delete, d, force = arg
            dirs = [''] + sorted({x for p in b.files for x in cm.below(p)})
            cwd = dirs[d % len(dirs)] if d else ''
            pats = [pattern(m, b, r, cwd) for r in rules]
            filters = [t[1] for t in pats]
            loc = b.status()
            affected = {p for p in b.base if cm.matches(p, filters) and (p in b.files or not cm.matches(p, b.pull_filters()))}
            before = cm.contents_of(b.files)
            asked = []

            def answer(k, text):
                asked.append(text)
                return 'delete' if delete else 'nothing'
            r = m.bvn(b, ['pull-ignore'] + (['-f'] if force else []) + [t[0] for t in pats], answer=answer, cwd=b.full(cwd))
            if loc and not force:
                ctx.check(r.how == 'exit', 'pull-ignore with local changes: %r' % r)
                m.check_disk(b, 'a refused pull-ignore')
                m.check_status(b, 'after a refused pull-ignore')
                return True
            ctx.check(r.ok, 'pull-ignore fails: %r' % r)
            ctx.check(bool(asked) == bool(affected), 'pull-ignore asks %d times about %s' % (len(asked), sorted(affected)))
            if affected:
                listed = asked[0].split('\nThe files listed above')[0].split('\n')
                ctx.check(sorted(x for x in listed if x) == sorted(affected), 'pull-ignore lists %s, matching are %s' % (listed, sorted(affected)))
            want = {p: c for p, c in before.items() if not (delete and p in affected)}
            old = before.get('/.bvn_pull_ignore', b'').decode().splitlines()
            got = cm.contents_of(b.scan())
            have = got.get('/.bvn_pull_ignore', b'').decode().splitlines()
            ctx.check([x for x in have if x] == [x for x in old + filters if x], 'the rules are %s, should be %s' % (have, old + filters))
            want['/.bvn_pull_ignore'] = got.get('/.bvn_pull_ignore')
            ctx.check(got == want, 'pull-ignore: %s' % cm.differences(got, want))
            for p in affected:
                b.base.pop(p)
            b.files = b.scan()
            m.check_status(b, 'after pull-ignore')
            ctx.label('command: ' + ('delete' if delete else 'nothing'))
        elif kind == 'hand':
            rule, gone, ending = (arg + [0])[:3]
            name = '/.bvn_pull_ignore'
            t = pattern(m, b, rule)[1]
            old = b.files[name][0] if name in b.files else b''
            # editors differ in whether they end the last line
            m.put(b, name, old + (b'\n' if old and not old.endswith(b'\n') or ending == 0 else b'') + t.encode() + [b'\n', b'', b'\n', b'\r\n'][ending])
            if gone:
                for p in [p for p in b.files if cm.matches(p, [t]) and not p.startswith('/.bvn')]:
                    m.remove(b, p, prune=gone == 2)
            m.check_status(b, 'after adding a rule')
        elif kind == 'update':
            choice, full = arg
            n = m.updates
            if m.update(b, ['client', 'server'][choice], full=full) is None:
                return False
            m.check_status(b, 'after an update')
            matter()
        elif kind == 'commit':
            if b.rev != len(m.versions) - 1 and m.update(b) is None:
                return False
            m.commit(b)
            m.check_disk(b, 'commit')
            m.check_status(b, 'after a commit')
            matter()
        elif kind == 'list':
            pull = b.pull_filters()
            r = m.bvn(b, ['list-files', '-i'])
            ctx.check(r.ok, 'list-files fails: %r' % r)
            got = {x for x in r.out.split('All files in version')[0].split('\n') if x}
            want = {p for p in m.versions[b.rev]['files'] if cm.matches(p, pull)}
            ctx.check(got == want, 'list-files -i lists %s, left out are %s' % (sorted(got), sorted(want)))
        elif kind == 'unrule':
            which, edits = arg
            lines = b.pull_filters()
            if not lines:
                return True
            # local changes of files that were left out would count as such: clear them away
            for p in [p for p in b.files if cm.matches(p, lines) and b.base.get(p) != b.files[p] and not p.startswith('/.bvn')]:
                m.remove(b, p)
            m.bvn(b, ['status'])
            keep = [x for i, x in enumerate(lines) if x and (which == 0 or i % 4 != which)] if which else []
            if keep:
                m.put(b, '/.bvn_pull_ignore', ''.join(x + '\n' for x in keep).encode())
            else:
                m.remove(b, '/.bvn_pull_ignore')
            if edits:
                if a.rev != len(m.versions) - 1 and m.update(a) is None:
                    return False
                for e in edits:
                    m.edit(a, *e)
                m.commit(a)
            loc = set(b.status())
            if m.update(b, 'client', full=True) is None:
                return False
            m.check_status(b, 'after a full update')
            pull = b.pull_filters()
            for p, c in m.versions[-1]['files'].items():
                if p not in loc and not cm.matches(p, pull):
                    ctx.check(p in b.files and b.files[p][0] == c, 'a full update did not restore %s' % p)
            ctx.label('rule removed')
        m.check_disk(b, kind)
        return True

    for kind, arg in plan['ops']:
        if not step(kind, arg):
            return
    if m.update(b, 'client') is None:
        return
    m.commit(b)
    if m.update(a) is None:
        return
    m.check_disk(a, 'at the end')
