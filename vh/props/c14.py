import os
from hypothesis import strategies as st
from vh import core, repo_machine as rm
from bversion.merge_client_and_server_changes import merge_client_and_server_changes

LEVEL = 'exploration'
RULE = 'a pair of change sets in which at least one path is on both sides and at least two different actions result'
BUDGET = {'quick': 60000, 'thorough': 1500000}

STATUSES = ['new', 'changed', 'deleted', 'unchanged']
ACTIONS = ['client_push_files', 'client_pull_files', 'to_delete_on_client', 'to_delete_on_server', 'conflict_files',
           'error_files', 'no_op']

# (server, client) -> action, conflict statuses (client, server)
def expected(s, c):
    if s is None:
        return {'new': 'client_push_files', 'changed': 'client_push_files', 'deleted': 'to_delete_on_server', 'unchanged': 'error_files'}[c], None
    if s == 'unchanged':
        return {None: 'client_pull_files', 'new': 'client_push_files', 'changed': 'client_push_files',
                'deleted': 'to_delete_on_server', 'unchanged': 'no_op'}[c], None
    if c in (None, 'unchanged'):
        return ('to_delete_on_client' if s == 'deleted' else 'client_pull_files'), None
    if s == 'deleted':
        if c == 'deleted':
            return 'to_delete_on_client', None
        return 'conflict_files', ('Changed', 'Deleted')
    return 'conflict_files', ('Deleted' if c == 'deleted' else 'Changed', 'Changed')


def strategy(tier):
    status = st.sampled_from(STATUSES)
    side = st.one_of(st.none(), status)
    entry = st.tuples(st.lists(rm.names(), min_size=1, max_size=3), side, side)
    return st.lists(entry, min_size=0, max_size=9).map(
        lambda es: [['/' + '/'.join(p), s, c] for p, s, c in es if s is not None or c is not None])


def run(server, client):
    s0, c0 = {k: dict(v) for k, v in server.items()}, {k: dict(v) for k, v in client.items()}
    res = merge_client_and_server_changes(server, client)
    if s0 != server or c0 != client:
        raise core.Violation('the change sets passed in were altered')
    return res


def where(res):
    """path -> (action, conflict statuses)."""
    out = {}
    for action in res:
        for it in res[action]:
            info = it['file_info'] if action == 'conflict_files' else it
            p = info['path']
            if p in out:
                raise core.Violation('%r is in %s and in %s' % (p, out[p][0], action))
            out[p] = (action, (it['client_status'], it['server_status']) if action == 'conflict_files' else None)
    return out


def sort_key(p):
    return os.path.splitext(os.path.basename(p))


def execute(plan, ctx):
    server, client, want = {}, {}, {}
    for p, s, c in plan:
        if p in want:
            continue
        want[p] = expected(s, c)
        if s is not None: server[p] = {'path': p, 'status': s, 'hash': 'h' + p}
        if c is not None: client[p] = {'path': p, 'status': c, 'last_mod': 1.5, 'created': 1.0}
    res = run(server, client)
    ctx.check(set(res) <= set(ACTIONS), 'unknown action %r' % sorted(set(res) - set(ACTIONS)))
    got = where(res)
    ctx.check(set(got) == set(want), 'paths without an action: %r, invented: %r' % (
        sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    for p in want:
        ctx.check(got[p] == want[p], 'server %s, client %s: %r ended in %r, expected %r' % (
            server.get(p, {}).get('status'), client.get(p, {}).get('status'), p, got[p], want[p]))
    for action in ACTIONS:
        ps = [(i['file_info'] if action == 'conflict_files' else i)['path'] for i in res.get(action, [])]
        if action in ('error_files', 'no_op'):
            continue
        ctx.check(ps == sorted(ps, key=sort_key), 'the list %s is not sorted: %r' % (action, ps))
    # each path on its own gets the same action
    for p in list(want)[:2]:
        alone = where(run({p: dict(server[p])} if p in server else {}, {p: dict(client[p])} if p in client else {}))
        ctx.check(alone == {p: got[p]}, 'the action for %r depends on other paths' % p)
    for a, _ in want.values():
        ctx.label(a)
    if set(server) & set(client) and len({a for a, _ in want.values()}) > 1:
        ctx.nontrivial()
