"""C17: conflicts are detected and resolved exactly as chosen."""
import os
from hypothesis import strategies as st
from vh import client_machine as cm
from vh.repo_machine import content

LEVEL = 'generated concurrent edits in two working copies against a model, every resolution mode'
RULE = 'at least one conflict was resolved (per file, or all to one side), applied and published by a commit'
BUDGET = {'quick': 1800, 'thorough': 25000}

BAD = ['drop', 'extra', 'word', 'empty', 'cutline', 'rename', 'blank', 'dup', 'noheader']


def strategy(tier):
    n = 7 if tier == 'quick' else 14
    edits = st.lists(cm.edit_ops({'write': 4, 'modify': 6, 'delete': 6, 'move': 1}), min_size=1, max_size=n)
    return st.fixed_dictionaries({
        'wcs': st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)).map(list), min_size=2, max_size=2),
        'paths': cm.pools(min_size=3),
        'start': edits,
        'rounds': st.lists(st.fixed_dictionaries({
            'server': edits, 'more': st.one_of(st.none(), st.lists(cm.edit_ops(), min_size=1, max_size=2)), 'local': edits,
            'same': st.booleans(),
            'cancel': st.sampled_from([None, 'eof', 'noise']),
            'mode': st.sampled_from(['client', 'server', 'manual', 'manual', 'manual']),
            'download': st.booleans(),
            'picks': st.integers(0, 255), 'style': st.integers(0, 3),
            'bad': st.lists(st.sampled_from(BAD), max_size=2),
            'late': st.one_of(st.none(), st.none(), st.lists(cm.edit_ops(), min_size=1, max_size=2)),
            'stop': st.one_of(st.none(), st.integers(0, 2))}), min_size=1, max_size=2 if tier == 'quick' else 4)})


def blocks(text):
    head, *rest = text.split('------------\n')
    return head, rest


def fill(text, picks, style):
    """The resolution file with the choices written in."""
    head, rest = blocks(text)
    out = head
    for b in rest:
        p = b.split('\n')[0][len('Path:  '):]
        word = {0: picks[p], 1: picks[p].upper(), 2: picks[p] + '  ', 3: ' ' + picks[p].capitalize()}[style]
        out += '------------\n' + b.replace('Resolution: \n', 'Resolution: %s\n' % word)
    return out


def spoil(how, good, text):
    head, rest = blocks(good)
    sep = '------------\n'
    if how == 'drop':    return head + ''.join(sep + b for b in rest[:-1])
    if how == 'extra':   return good + sep + 'Path:  /no/such conflict\nClient Changed server Changed\nResolution: client\n\n'
    if how == 'word':    return good.replace('Resolution: ', 'Resolution: x', 1)
    if how == 'empty':   return ''
    if how == 'cutline': return head + sep + rest[0].split('\n')[0]
    if how == 'rename':  return head + ''.join(sep + b.replace('Path:  /', 'Path:  /x', 1) for b in rest)
    if how == 'blank':   return text
    if how == 'dup':     return None
    return head + ''.join(sep + b.replace('Path', 'Pth', 1) for b in rest)


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    a, b = m.wcs
    for e in plan['start']:
        m.edit(a, *e)
    m.commit(a)
    if m.update(b) is None:
        return
    published = 0
    for rd in plan['rounds']:
        # both sides change things
        for e in rd['server']:
            m.edit(a, *e)
        m.commit(a)
        if rd['more']:
            for e in rd['more']:
                m.edit(a, *e)
            m.commit(a)
        for e in (rd['server'] if rd['same'] else []) + rd['local']:
            m.edit(b, *e)
        required, permitted = m.conflict_sets(b)
        before = cm.contents_of(b.files)

        def unchanged(what):
            got = cm.contents_of(b.scan())
            ctx.check(got == before, '%s changes the working copy: %s' % (what, cm.differences(got, before)))

        if required and rd['cancel']:
            def answer(kind, text, n=[0]):
                n[0] += 1
                if rd['cancel'] == 'noise' and n[0] <= 3:
                    return ['', 'both', 'clientx'][n[0] - 1]
                return None
            r = m.bvn(b, ['update'], answer=answer)
            ctx.check(not r.ok and r.prompts, 'a cancelled update: %r' % r)
            unchanged('a cancelled update')
            m.check_status(b, 'after a cancelled update')
            ctx.label('cancelled')
        mode = rd['mode']
        picks = None
        if required and mode == 'manual':
            picks = manual(m, b, rd, ctx, unchanged, required, permitted)
            if picks == 'stop':
                return
        take = set()
        if picks is not None:
            take = {p for p in picks if picks[p] == 'server'}
        elif mode == 'server':
            take = None            # whatever is reported
        choice = 'server' if mode == 'server' else 'client'
        if rd['stop'] is not None and required:
            # the update is interrupted first
            seen = {}
            def hook(when, n, route, headers, body):
                if when == 'before' and route == 'pull_file':
                    seen['n'] = seen.get('n', 0) + 1
                    if seen['n'] == rd['stop'] + 1:
                        return 'drop'
                return None
            loc = b.status()
            rep = set()
            def answer2(kind, text):
                rep.update(m.reported(text))
                return choice
            r = m.bvn(b, ['update'], answer=answer2, hook=hook)
            if picks is not None:
                rep = set(picks)
            given = take if take is not None else rep
            want, synced, dropped = m.expected_after_update(b, given)
            if cm.clashes(want):
                m.no_loss(b, before, loc, given)
                return
            if not r.lost:
                ctx.check(r.ok, 'update fails: %r' % r)
                m.settle(b, want, synced, dropped, rep - given)
            else:
                m.no_loss(b, before, loc, given)
                m.absorb(b, given, kept=rep - given)
                ctx.label('interrupted')
                if picks is not None:
                    # files taken from the server already are not in conflict any more: the resolution file may have to be redone
                    left = {p: c for p, c in picks.items() if p in b.status()}
                    _, perm2 = m.conflict_sets(b)
                    left = {p: c for p, c in left.items() if p in perm2}
                    path = os.path.join(b.path, '.bvn', 'conflict_resolution')
                    if left != picks:
                        if left:
                            with open(path) as f:
                                text = f.read()
                            head, rest = blocks(text)
                            with open(path, 'w') as f:
                                f.write(head + ''.join('------------\n' + x for x in rest if x.split('\n')[0][7:] in left))
                        picks = left or None
                if m.update(b, choice, picks=picks) is None:
                    return
        else:
            if m.update(b, choice, picks=picks) is None:
                return
        left = [x for x in ('conflict_resolution', 'conflict_files') if os.path.exists(os.path.join(b.path, '.bvn', x))]
        ctx.check(not left, 'left behind in .bvn after the update: %s' % left)
        m.check_status(b, 'after the resolution')
        n = m.commits
        m.commit(b)
        if required and m.commits > n:
            published += 1
            ctx.label('published: ' + mode)
        if m.update(a) is None:
            return
        ctx.check(a.tracked() == b.tracked(), 'the working copies differ after conflicts were resolved')
    if published:
        ctx.nontrivial()


def manual(m, b, rd, ctx, unchanged, required, permitted):
    res_path = os.path.join(b.path, '.bvn', 'conflict_resolution')
    cmp_path = os.path.join(b.path, '.bvn', 'conflict_files')

    def ask():
        prompts = []
        def answer(kind, text):
            prompts.append(text)
            if len(prompts) == 1:
                return 'manual'
            ctx.check('Download server versions' in text, 'unexpected question %r' % text[-200:])
            return 'y' if rd['download'] else 'N'
        r = m.bvn(b, ['update'], answer=answer)
        ctx.check(r.how == 'exit' and 'conflict_resolution' in r.msg, 'manual resolution: %r' % r)
        unchanged('choosing manual resolution')
        rep = m.reported(prompts[0])
        ctx.check(required <= set(rep) <= permitted, 'reported %s, in conflict %s' % (sorted(rep), sorted(required)))
        new = m.versions[-1]['files']
        if rd['download']:
            got = {}
            for d, _, names in os.walk(cmp_path):
                for n in names:
                    full = os.path.join(d, n)
                    with open(full, 'rb') as f:
                        got[full[len(cmp_path):]] = f.read()
            want = {p: new[p] for p in rep if p in new}
            ctx.check(got == want, 'downloaded for comparison: %s' % cm.differences(got, want))
        with open(res_path) as f:
            text = f.read()
        listed = {x.split('\n')[0][7:] for x in blocks(text)[1]}
        ctx.check(listed == set(rep), 'the resolution file lists %s, in conflict are %s' % (sorted(listed), sorted(rep)))
        return rep, text

    rep, text = ask()
    order = sorted(rep)
    picks = {p: 'server' if rd['picks'] >> i & 1 else 'client' for i, p in enumerate(order)}
    good = fill(text, picks, rd['style'])
    for how in rd['bad']:
        bad = spoil(how, good, text)
        if bad is None:
            continue
        with open(res_path, 'w') as f:
            f.write(bad)
        r = m.bvn(b, ['update'])
        ctx.check(r.how == 'exit', 'a malformed resolution file (%s) is not refused: %r' % (how, r))
        unchanged('a malformed resolution file (%s)' % how)
        m.check_status(b, 'after a malformed resolution')
        ctx.check(os.path.exists(res_path), 'the resolution file is gone')
        ctx.label('malformed')
    with open(res_path, 'w') as f:
        f.write(good)
    if rd['late']:
        # somebody commits more before the resolution is applied
        a = m.wcs[0]
        for e in rd['late']:
            m.edit(a, *e)
        m.commit(a)
        req2, perm2 = m.conflict_sets(b)
        if not perm2:               # both sides agree now: nothing to resolve
            required.clear()
            return None
        if req2 - set(picks) or set(picks) - perm2:
            r = m.bvn(b, ['update'])
            ctx.check(r.how == 'exit', 'a resolution file for other conflicts is not refused: %r' % r)
            unchanged('a stale resolution file')
            m.check_status(b, 'after a stale resolution')
            os.remove(res_path)
            ctx.label('stale')
            required.clear(); required.update(req2)
            permitted.clear(); permitted.update(perm2)
            rep, text = ask()
            picks = {p: 'server' if rd['picks'] >> i & 1 else 'client' for i, p in enumerate(sorted(rep))}
            with open(res_path, 'w') as f:
                f.write(fill(text, picks, rd['style']))
        elif perm2 != permitted:
            return 'stop'           # which of them count as conflicts is up to the server
    return picks
