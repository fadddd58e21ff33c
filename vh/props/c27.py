"""C27: a lost connection is an error, never a hang or a truncated success."""
import os
from hypothesis import strategies as st
import vh.boot as boot
from vh import net, core, srv
from vh.net import Net, Shape
from vh import client_machine as cm
from vh.props import c26
from bversion import server as bserver

LEVEL = 'connections cut at generated bytes of generated sessions, over real sockets, against what was put in and the state of both sides'
RULE = 'the connection was lost inside a request or a response (distinct: session and cut)'
BUDGET = {'quick': 2600, 'thorough': 40000}
ASSUMPTIONS = ['the loss of a connection shows as its end or as a reset at both sides, or as silence of the client at the server (a client whose server '
               'falls silent without closing the connection waits for it)',
               'one connection at a time is cut']


def strategy(tier):
    cut = st.tuples(st.sampled_from(['out', 'in']), st.integers(0, 10 ** 6), st.sampled_from(['fin', 'fin', 'rst', 'silent'])).map(list)
    raw = st.fixed_dictionaries({
        'kind': st.just('raw'), 'shapes': st.tuples(c26.shapes(), c26.shapes()).map(lambda p: [[dict(p[0], merge=False), p[1]]]),
        'reqs': st.lists(c26.requests(tier), min_size=1, max_size=4), 'cut': cut, 'near': st.one_of(st.none(), st.integers(0, 3))})
    edits = lambda lo, hi: st.lists(cm.edit_ops({'move': 1}), min_size=lo, max_size=hi)
    real = st.fixed_dictionaries({
        'kind': st.just('real'), 'wcs': st.just([[0, 0], [1, 1]]), 'paths': cm.pools(min_size=3), 'start': edits(1, 4), 'more': edits(1, 5),
        'what': st.sampled_from(['commit', 'commit', 'update']), 'cuts': st.lists(cut, min_size=1, max_size=3), 'full': st.booleans(), 'other': st.booleans(),
        'recv': st.sampled_from([[], [1, 1000], [700], [3]])})
    return st.one_of(raw, raw, raw, real, real)


# ------------------------------------------------------------------ the transport alone
def volume(s, q):
    """Roughly what a request and its response take."""
    out = 150 + sum(len(k) + len(v.encode()) + 4 for k, v in q['headers']) + len(q['route']) + len(s.sent_body(q))
    inn = 70 + sum(len(k) + len(v.encode()) + 4 for k, v in q['rheaders']) + q['rsize']
    return out, inn


def raw(plan, ctx):
    direction, k, how = plan['cut']
    s = c26.Session(plan, ctx)
    vols = [volume(s, q) for q in plan['reqs']]
    i = 0 if direction == 'out' else 1
    if plan['near'] is None:
        at = k % sum(v[i] for v in vols)
    else:
        # near the edge between headers and body of the last request
        q = plan['reqs'][-1]
        size = len(s.sent_body(q)) if i == 0 else q['rsize']
        at = max(0, sum(v[i] for v in vols) - size - 4 * plan['near'] + k % 9)
    s.cuts = (direction, at, how)
    failed = None
    for n, q in enumerate(plan['reqs']):
        q = dict(q, conn=0)
        try:
            s.call(q)
        except net.Hangs:
            ctx.check(False, Net.hung)
        except core.Violation:
            raise
        except Exception as e:          # pylint: disable=broad-except
            ctx.check(Net.lost, 'a request fails although the connection is there: ' + core.describe(e))
            ctx.check(s.wrong is None, s.wrong)
            failed = n
            break
    if Net.lost:
        ctx.nontrivial()
        ctx.label('lost while ' + ('sending' if i == 0 else 'receiving'))
        if failed is None:
            ctx.label('lost after the last byte')
    closed = net.wait_closed(Net.accepted) if Net.lost else s.close()
    ctx.check(Net.hung is None, Net.hung)
    ctx.check(closed, 'the server does not give up the connection')
    ctx.check(s.wrong is None, s.wrong)
    if s.calls:
        ctx.check(s.downs > 0, 'what has to happen at the end of a connection does not happen')


# ------------------------------------------------------------------ client and server
def good_objects(m, ctx):
    """No object holds anything but what its name says."""
    root = m.sim.path(cm.REPO)
    for kind in ('files', 'index'):
        for d, _, names in os.walk(os.path.join(root, kind)):
            for n in names:
                full = os.path.join(d, n)
                h = os.path.basename(d) + n
                if len(h) != 64:
                    continue
                with open(full, 'rb') as f:
                    ctx.check(cm.sha(f.read()) == h, 'object %s does not hold what its name says' % h)


def real(plan, ctx):
    m = cm.Machine(ctx, plan)
    a, b = m.wcs
    a.ip = b.ip = '127.0.0.1'
    net.start()
    Net.reset()
    Net.handler = bserver.endpoint

    def finish():
        net.wait_closed(Net.accepted)
        Net.handler = None
    ctx.cleanups.append(finish)
    for e in plan['start']:
        m.edit(a, *e)
    m.commit(a)
    old = dict(m.versions[-1]['files'])
    if m.update(b) is None:
        return
    for e in plan['more']:
        m.edit(a, *e)
    loc = a.status()
    if not loc:
        return
    new = cm.contents_of(a.files)
    names = [v['id'] for v in m.versions[1:]]
    if plan['what'] == 'commit':
        # generous, some commands end before the cut
        est = [sum(len(new.get(p, b'')) + 420 for p in loc) + 2600 + 60 * len(new), 2200 + 400 * len(loc)]
        w, args = a, ['commit', '-m', 'message']
    else:
        if cm.clashes(set(new) | set(old)):
            ctx.label('file in the way of a directory')
            return
        m.commit(a)
        est = [2500 + 420 * len(new), sum(len(c) + 220 for p, c in new.items() if plan['full'] or old.get(p) != c) + 1600 + 350 * len(new)]
        w, args = b, ['update'] + (['-f'] if plan['full'] else [])
    bold = cm.contents_of(b.files)

    def versions():
        return m.server_versions()

    for direction, k, how in plan['cuts']:
        at = k % est[0 if direction == 'out' else 1]
        ctx.evals += 1
        Net.accepted.clear()
        Net.silent = False

        def wire():
            Net.client_shape = Shape(recv=plan['recv'], cut=(direction, at, how if how != 'silent' else 'fin'))
        before = cm.contents_of(w.scan())
        r = m.bvn(w, args, wire=wire, answer=lambda kind, text: 'client')
        if how == 'silent':
            Net.silent = True
        closed = net.wait_closed(Net.accepted)
        ctx.check(Net.hung is None, Net.hung)
        ctx.check(closed, 'the server does not give up the connection')
        Net.silent = False
        good_objects(m, ctx)
        now = versions()
        ctx.check(now[:len(names)] == names and len(now) <= len(names) + 1, 'versions %s became %s' % (names, now))
        after = cm.contents_of(w.scan())
        if plan['what'] == 'commit':
            ctx.check(after == new, 'an interrupted commit changed the working copy: %s' % cm.differences(after, new))
            if len(now) > len(names):
                tree = m.server_tree(now[-1])
                ctx.check(tree == new, 'an interrupted commit published something else: %s' % cm.differences(tree, new))
                ctx.label('published, response lost')
            else:
                ctx.check(not r.ok or 'Commit ok' not in r.out, 'a commit reports success, but there is no new version')
        else:
            for p in set(after) | set(bold):
                ctx.check(after.get(p) in (bold.get(p), new.get(p)), 'after an interrupted update %s is neither old nor new: %r' % (p, (after.get(p) or b'')[:60]))
            if r.ok:
                ctx.check(after == new, 'an update reports success, but %s' % cm.differences(after, new))
        if r.how == 'raised' or r.how == 'exit':
            ctx.nontrivial()
            ctx.label('%s stopped' % plan['what'])
        elif r.ok and plan['what'] == 'commit':
            break
        # the lock is free
        if plan['other'] and plan['what'] == 'commit':
            c = m.sim.connect('10.7.7.7')
            tok = m.sim.login(c, m.users[1], cm.REPO)
            head = now[-1] if now else 'root'
            h = {'session_token': tok, 'repository': cm.REPO, 'user': m.users[1]}
            x = c.request('begin_commit', dict(h, previous_revision=head), b'{}')
            ctx.check(x.ok, 'after the connection of a committing client was lost nobody can commit: %r' % x)
            x = c.request('commit', dict(h, mode='abort', commit_message=''), b'{}')
            c.close()
            ctx.label('somebody else began a commit')
    # everything completes
    for _ in range(2):
        if plan['what'] == 'commit' or w is a:
            r = m.bvn(a, ['update'], answer=lambda kind, text: 'client')
            ctx.check(r.ok, 'update after lost connections: %r' % r)
            r = m.bvn(a, ['commit', '-m', 'again'])
            ctx.check(r.ok, 'commit after lost connections: %r' % r)
    now = versions()
    tree = m.server_tree(now[-1])
    ctx.check(tree == new, 'after lost connections and another commit the newest version is wrong: %s' % cm.differences(tree, new))
    r = m.bvn(b, ['update'])
    ctx.check(r.ok, 'update after lost connections: %r' % r)
    got = cm.contents_of(b.scan())
    if not cm.clashes(set(new) | set(old)):
        ctx.check(got == new, 'after lost connections and another update: %s' % cm.differences(got, new))


def execute(plan, ctx):
    if plan['kind'] == 'raw':
        raw(plan, ctx)
    else:
        real(plan, ctx)
