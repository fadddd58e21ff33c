"""C22: revert restores exactly the requested files."""
import glob, os
from hypothesis import strategies as st
from vh import client_machine as cm
from vh.props.c21 import pattern

LEVEL = 'generated histories, local edits and selections against a model'
RULE = 'a revert which the user confirmed restored at least one file whose content differed or was missing, and left another file alone'
BUDGET = {'quick': 1500, 'thorough': 24000}


def strategy(tier):
    n = 6 if tier == 'quick' else 12
    edits = st.lists(cm.edit_ops({'delete': 6, 'restore': 1, 'mkdir': 1}), min_size=1, max_size=5)
    write = st.tuples(st.just('write'), st.integers(0, 9), cm.CONTENTS, st.just(0)).map(list)
    rule = st.tuples(st.sampled_from([0, 1, 2, 3, 4, 5, 5, 6]), st.integers(0, 9), st.integers(0, 9)).map(list)
    revert = st.tuples(st.just('revert'), st.fixed_dictionaries({
        'edits': st.lists(cm.edit_ops({'delete': 6, 'restore': 1, 'mkdir': 1}), max_size=4),
        'rules': st.lists(rule, min_size=1, max_size=3),
        'aim': st.one_of(st.none(), st.tuples(st.integers(0, 9), st.integers(0, 3), cm.CONTENTS).map(list), st.tuples(st.integers(0, 9), st.integers(0, 3), cm.CONTENTS).map(list)),
        'all': st.sampled_from([False, False, True]),
        'version': st.one_of(st.just('have'), st.just('have'), st.just('head'), st.integers(0, 9)),
        'order': st.booleans(),
        'cwd': st.integers(0, 4),
        'yes': st.sampled_from(['yes', 'yes', 'yes', 'yes', 'no', 'NO', 'No', 'YES', 'eof'])}))
    op = st.one_of(st.tuples(st.just('a'), edits), revert, revert, revert,
                   st.tuples(st.sampled_from(['commit', 'update', 'full']), st.integers(0, 1)),
                   st.tuples(st.just('pull'), rule)).map(list)
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0], [1, 1]]),
        'paths': cm.pools(min_size=3),
        'first': st.lists(cm.CONTENTS, min_size=3, max_size=6),
        'versions': st.lists(st.lists(st.one_of(write, cm.edit_ops({'bulk': 1})), min_size=1, max_size=5), min_size=1, max_size=3),
        'behind': st.integers(0, 2),
        'ops': st.lists(op, min_size=2, max_size=n)})


def revert(m, b, arg, ctx):
    for e in arg['edits']:
        m.edit(b, *e)
    head = len(m.versions) - 1
    v = arg['version']
    idx = b.rev if v == 'have' else head if v == 'head' else 1 + v % head if head else 0
    opts = [[]] if v == 'have' else [['-h']] if v == 'head' else [['--v', m.versions[idx]['id']]]
    if arg['all']:
        opts.insert(0 if arg['order'] else 1, ['--all'])
    dirs = [''] + sorted({x for p in b.files for x in cm.below(p)})
    cwd = dirs[arg['cwd'] % len(dirs)]
    pats = [] if arg['all'] else [pattern(m, b, r, cwd) for r in arg['rules']]
    if not arg['all'] and pats[0][0].startswith('-'):
        return True
    if arg['aim'] is not None and m.versions[idx]['files']:
        x, mode, c = arg['aim']
        p = sorted(m.versions[idx]['files'])[x % len(m.versions[idx]['files'])]
        if p in b.files and mode == 0:
            m.remove(b, p, prune=c % 2 == 0)
        elif p in b.files and mode == 1:
            m.put(b, p, cm.content(c))
        pats = pats and pats[1:] + [(glob.escape(p), glob.escape(p))]
    pull = b.pull_filters()
    tree = {p: c for p, c in m.versions[idx]['files'].items() if not cm.matches(p, pull)}
    sel = set(tree) if arg['all'] else {p for p in tree if cm.matches(p, [t[1] for t in pats])}
    gone = {p for p in b.base if p not in m.versions[idx]['files'] and not cm.matches(p, pull)} if arg['all'] else set()
    before = cm.contents_of(b.files)
    asked = []
    os.makedirs(b.full(cwd), exist_ok=True)

    def answer(kind, text):
        asked.append(text)
        return None if arg['yes'] == 'eof' else arg['yes']
    r = m.bvn(b, ['revert'] + [x for o in opts for x in o] + [t[0] for t in pats], answer=answer, cwd=b.full(cwd))
    got = cm.contents_of(b.scan())
    refused = not sel and not gone or arg['yes'].lower() in ('no', 'eof') or idx == 0
    if refused:
        ctx.check(got == before, 'nothing was to be reverted, but %s' % cm.differences(got, before))
        ctx.check(not r.ok, 'revert of nothing: %r' % r)
        b.files = b.scan()
        m.check_status(b, 'after no revert')
        ctx.label('nothing reverted')
        return True
    ctx.check(len(asked) == 1, 'asked %d times before reverting' % len(asked))
    text = asked[0]
    listed = text.split('Files that will be reverted:\n')[1].split('Files that will be deleted:\n')
    ctx.check(sorted(x for x in listed[0].split('You are about')[0].split('\n') if x) == sorted(sel), 'revert announces %s, selected are %s' % (listed[0], sorted(sel)))
    want = dict(before)
    for p in gone:
        want.pop(p, None)
    want.update({p: tree[p] for p in sel})
    if cm.clashes(want):
        for p in set(got) | set(before):
            ctx.check(got.get(p) in (before.get(p), want.get(p)), 'a revert that cannot succeed: %s' % cm.differences(got, before))
        ctx.label('file in the way of a directory')
        return False
    ctx.check(r.ok, 'revert fails: %r' % r)
    ctx.check(got == want, 'after a revert: %s' % cm.differences(got, want))
    changed = [p for p in sel if before.get(p) != tree[p]]
    if not changed:
        ctx.label('nothing was different')
    if changed and any(got.get(p) == before[p] for p in before if p not in sel):
        ctx.nontrivial()
    ctx.label('reverted to ' + ('the same version' if idx == b.rev else 'another version') + (' (all)' if arg['all'] else ''))
    b.files = b.scan()
    if idx == b.rev:
        for p in sel:
            b.base[p] = b.files[p]
        for p in gone:
            pass
    m.check_status(b, 'after a revert')
    shown = b.status()
    for p in sel:
        if idx == b.rev:
            ctx.check(p not in shown or cm.matches(p, b.ignore_filters()), '%s was reverted and is %s' % (p, shown.get(p)))
    return True


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    a, b = m.wcs
    for i, c in enumerate(plan['first']):
        m.edit(a, 'write', i, c, 0)
    m.commit(a)
    if plan['behind'] > len(plan['versions']) - 1 and plan['behind'] % 2 and m.update(b) is None:
        return
    for i, es in enumerate(plan['versions']):
        for e in es:
            m.edit(a, *e)
        m.commit(a)
        if i + plan['behind'] == len(plan['versions']) - 1 and m.update(b) is None:
            return
    for kind, arg in plan['ops']:
        if kind == 'a':
            if m.update(a) is None:
                return
            for e in arg:
                m.edit(a, *e)
            m.commit(a)
        elif kind == 'revert':
            ctx.evals += 1
            if not revert(m, b, arg, ctx):
                return
        elif kind == 'pull':
            if arg[1] < 3 and '/.bvn_pull_ignore' not in b.files:
                m.put(b, '/.bvn_pull_ignore', pattern(m, b, arg)[1].encode() + b'\n')
        elif kind == 'commit':
            if b.rev != len(m.versions) - 1 and m.update(b) is None:
                return
            m.commit(b)
        elif m.update(b, ['client', 'server'][arg], full=kind == 'full') is None:
            return
        m.check_disk(b, kind)
    if m.update(b) is None:
        return
    m.commit(b)
    if m.update(a) is None:
        return
    pull = b.pull_filters()
    ctx.check({p: c for p, c in a.tracked().items() if not cm.matches(p, pull)} == b.tracked(), 'the working copies differ at the end')
