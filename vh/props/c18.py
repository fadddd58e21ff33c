"""C18: an interrupted update loses nothing and completes when re-run."""
import os, shutil
from hypothesis import strategies as st
from vh import client_machine as cm, crash

LEVEL = 'faults at sampled system calls and requests of generated updates, against a model'
RULE = 'the update was interrupted after it had begun to change the working copy or while it fetched a file'
BUDGET = {'quick': 1600, 'thorough': 20000}
NEEDS_CRASH = True


def strategy(tier):
    n = 6 if tier == 'quick' else 10
    edits = st.lists(cm.edit_ops({'bulk': 1}), min_size=1, max_size=n)
    fault = st.tuples(st.sampled_from(['sys', 'sys', 'sys', 'torn', 'err', 'req']), st.integers(0, 9999), st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0], [1, 1]]),
        'paths': cm.pools(min_size=3),
        'start': edits,
        'server': st.lists(edits, min_size=1, max_size=2),
        'local': st.lists(cm.edit_ops({'write': 2, 'restore': 1}), max_size=3),
        'choice': st.sampled_from(['client', 'server']),
        'full': st.booleans(),
        'tries': st.lists(st.fixed_dictionaries({
            'faults': st.lists(fault, min_size=1, max_size=3),
            'between': st.one_of(st.just([]), st.lists(cm.edit_ops({'restore': 1}), min_size=1, max_size=2))}), min_size=2, max_size=4)})



def copy_wc(w, to):
    shutil.copytree(w.path, to, symlinks=True)

def restore_wc(w, frm):
    shutil.rmtree(w.path)
    shutil.copytree(frm, w.path, symlinks=True)


def interrupted(m, w, fault, npoints, nreq, answer, full, ctx):
    kind, k, x = fault
    args = ['update'] + (['-f'] if full else [])
    hook = armed = None
    if kind == 'req':
        target = k % max(1, nreq)
        how = ['before-kill', 'before-drop', 'after-kill', 'after-drop', 'fail', 'cut', 'cut', 'after-drop', 'before-drop', 'fail'][x]

        def hook(when, n, route, headers, body):
            if n != target:
                return None
            if how == 'fail':
                return 'fail' if when == 'before' and route == 'pull_file' else None
            if how == 'cut':
                return ('cut', k) if when == 'after' else None
            at, act = how.split('-')
            return act if when == at else None
    else:
        mode = {'sys': crash.KILL, 'torn': crash.TORN, 'err': crash.FAIL}[kind]
        armed = (1 + k % max(1, npoints), mode, crash.ERRNOS[x % len(crash.ERRNOS)])
    r = m.bvn(w, args, answer=answer, hook=hook, armed=armed)
    return r


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    a, b = m.wcs
    for e in plan['start']:
        m.edit(a, *e)
    m.commit(a)
    if m.update(b) is None:
        return
    for es in plan['server']:
        for e in es:
            m.edit(a, *e)
        m.commit(a)
    for e in plan['local']:
        m.edit(b, *e)
    full, choice = plan['full'], plan['choice']
    loc = b.status()
    before = cm.contents_of(b.files)
    reported = set()

    def answer(kind, text):
        reported.update(m.reported(text))
        return choice

    # once without interruption, to know how many points there are
    aside = os.path.join(ctx.newdir(), 'aside')
    copy_wc(b, aside)
    r = m.bvn(b, ['update'] + (['-f'] if full else []), answer=answer, armed=(0, crash.COUNT, 0))
    npoints, nreq = r.points, len(r.requests)
    take = set(reported) if choice == 'server' else set()
    kept = reported - take
    want0 = m.expected_after_update(b, take, full)[0]
    if cm.clashes(want0):
        return
    ctx.check(r.ok, 'update fails: %r' % r)
    got = cm.contents_of(b.scan())
    ctx.check(got == want0, 'after an update: %s' % cm.differences(got, want0))

    saved = (dict(b.base), dict(b.files), b.rev)
    for t in plan['tries']:
        restore_wc(b, aside)
        b.base, b.files, b.rev = dict(saved[0]), dict(saved[1]), saved[2]
        ctx.evals += 1
        ended = False
        for i, f in enumerate(t['faults']):
            r = interrupted(m, b, f, npoints, nreq, answer, full, ctx)
            if r.ok:
                ended = True
                break
            if r.how == 'raised' and f[0] != 'err' and not r.lost:
                ctx.check(False, 'update fails without an injected fault: %r' % r)
            m.no_loss(b, before, loc, take, recovering=i > 0)
            ctx.label('interrupted by ' + f[0])
        if ended:
            # the fault hit nothing, or something whose failure does not matter
            disk = b.scan()
            ctx.check(cm.contents_of(disk) == want0, 'after an update: %s' % cm.differences(cm.contents_of(disk), want0))
            want, synced, dropped = m.expected_after_update(b, take, full)
            m.settle(b, want, synced, dropped, kept)
        else:
            done = m.absorb(b, take, full, kept)
            if done or r.requests and r.requests[-1][0] == 'pull_file':
                ctx.nontrivial()
                ctx.label('stopped half way')
            if t['between']:
                for e in t['between']:
                    m.edit(b, *e)
            if m.update(b, choice, full=full) is None:
                return
            if not t['between']:
                got = cm.contents_of(b.scan())
                ctx.check(got == want0, 'the repeated update ends differently: %s' % cm.differences(got, want0))
        m.check_status(b, 'after the repeated update')
    # and the next commit publishes exactly what is there
    m.commit(b)
