"""Commits in which the server process is killed at a generated system call, then recovery by the next clients.

The history, the session that is hit and the sessions afterwards are generated.  The session first runs to its end in
a child on a copy (which counts the system calls that change files), then once per crash point on another copy."""
import copy, os, shutil

import vh.boot as boot
from vh import core, crash, repo_machine as rm
from vh.props import c06
from vh.srv import Died
from hypothesis import strategies as st

LEVEL = 'exploration'
NEEDS_CRASH = True
RULE = ('a crash point inside a session that had uploaded or deleted something, in a repository with at least one version, '
        'after which another commit was completed (distinct: history, session and points)')
BUDGET = {'quick': 950, 'thorough': 9000}
ASSUMPTIONS = ['a crash is the death of the server process before, or half way through, a system call that changes a file; the page '
               'cache survives (no power loss)', 'one process serves all connections, all of which die with it']


def session(nconn):
    return st.fixed_dictionaries({
        'conn': st.integers(0, nconn - 1),
        'stale': st.integers(0, 7).map(lambda x: x == 7),
        'ops': st.lists(st.tuples(st.sampled_from(['push', 'push', 'push', 'delete', 'delete known']), st.integers(0, 9), rm.CONTENTS,
                                  st.integers(0, 7)).map(list), min_size=0, max_size=4),
        'end': st.sampled_from(['commit', 'commit', 'commit', 'commit', 'abort', 'close', 'open']),
        'msg': st.integers(0, 7)})


def points(n):
    return st.lists(st.tuples(st.integers(0, 2), st.integers(0, 999), st.integers(0, 2)).map(list), min_size=1, max_size=n)


def strategy(tier):
    return st.fixed_dictionaries({
        'history': rm.plans({'full': 10, 'session': 8, 'restart': 0, 'check': 0, 'begin': 2}, min_ops=0, max_ops=5, users=2, conns=3, ips=2),
        'victim': session(3), 'points': points(4),
        'second': st.one_of(st.none(), st.integers(0, 999)),
        'after': st.lists(session(3), min_size=1, max_size=2)})


def fixed_plans(tier):
    """One plain commit, one resumed one, one displacing another and one aborted, crashed at every system call."""
    out = []
    hist = {'users': 2, 'repos': 1, 'override': False, 'conns': [[0, 0, 0], [1, 1, 0], [0, 1, 0]], 'paths': ['/a', '/d/b', '/d/c']}
    s = lambda conn, ops, end: {'conn': conn, 'stale': False, 'ops': ops, 'end': end, 'msg': 1}
    pushes = [['push', 0, 2, 0], ['push', 1, 3, 0], ['delete known', 1, 0, 0], ['push', 2, 4, 0]]
    cases = [([['full', 0, 0, 1, 1]], s(0, pushes, 'commit')),
             ([['full', 0, 0, 1, 1], ['session', 0, 2, 2, 1]], s(0, pushes, 'commit')),
             ([['full', 0, 0, 1, 1], ['session', 0, 2, 2, 1]], s(1, pushes[:2], 'commit')),
             ([['full', 0, 0, 1, 1]], s(0, pushes, 'abort'))]
    for k, (ops, victim) in enumerate(cases):
        step = 24 if tier == 'quick' else 2
        for i in range(0, 260, step // 2):
            out.append({'history': dict(hist, ops=ops), 'victim': victim, 'points': [[0, i + j, j % 3] for j in range(0, step // 2, 1 if tier != 'quick' else 3)],
                        'second': None, 'after': [s(i % 3, [['push', 0, 5, 0]], 'commit')]})
    return out


class CrashMachine(rm.Machine):
    uncertain = None

    def check_clean(self, repo, what):
        """What an abort leaves behind is not the subject here, what it removes is."""
        try:
            need = rm.reachable(self.sim.path(repo))
        except (OSError, ValueError) as e:
            self.check(False, '%s broke the history: %s' % (what, e), 'C04')
            raise
        gone = need - set(rm.objects(self.sim.path(repo)))
        self.check(not gone, '%s removed objects of a version: %r' % (what, sorted(gone)[:5]), 'C04')

    def op_begin(self, i, a, b, c, honest_only=False):
        repo = self.repos[self.spec[i][2]]
        m = self.model[repo]
        if self.uncertain is None or m.holder is not None:
            rm.Machine.op_begin(self, i, a, b, c, honest_only)
            return
        user, ip = self.users[self.spec[i][0]], self.spec[i][1]
        m.snap = set(rm.objects(self.sim.path(repo)))
        try:
            r = self.call(i, 'begin_commit', {'previous_revision': m.head(), 'user': user})
        except Died as e:
            self.check(False, 'begin_commit by an up to date client after a crash: the server dropped the connection: %s' % e)
        self.check(r.ok, 'begin_commit by an up to date client was refused after a crash: %r' % r.headers.get('msg'))
        partial = r.json()['partial_commit']
        partial = {p['path']: p['hash'] for p in partial} if partial else {}
        known = self.uncertain.get((user, ip), {})
        changes = {}
        for p, h in partial.items():
            self.check(h in known.get(p, {}), 'after a crash the server reports an upload it was not sent by this client: %r' % p)
            changes[p] = ['changed' if p in m.head_files() else 'new', known[p][h]]
        if changes: self.ctx.label('resumed after a crash with uploads')
        m.holder = i
        m.active = {'user': user, 'ip': ip, 'changes': changes, 'resumed': 1 if changes else 0, 'refused': 0, 'removed': 0}
        self.uncertain = None

    # ------------------------------------------------------------ sessions
    def login_all(self, s):
        self.token(s['conn'] % len(self.spec), self.repos[0])

    def session(self, s):
        i = s['conn'] % len(self.spec)
        m = self.model[self.repos[0]]
        self.op_begin(i, 0, 5 if s['stale'] and self.uncertain is None else 1, 0)
        if m.holder != i:
            return
        self.sent = {}
        if m.active:
            for p, (stt, d) in m.active['changes'].items():
                if stt != 'deleted': self.sent.setdefault(p, {})[rm.sha(d)] = d
        for kind, a, b, c in s['ops']:
            if kind == 'push':
                p = self.paths[a % len(self.paths)]
                d = rm.content(b)
                self.sent.setdefault(p, {})[rm.sha(d)] = d
                self.op_push(i, a, b, c)
            else:
                known = sorted(m.head_files())
                self.op_delete(i, a, b, c, paths=[known[a % len(known)]] if kind == 'delete known' and known else None)
        if s['end'] == 'commit':  self.op_commit(i, 0, 0, s['msg'])
        elif s['end'] == 'abort': self.op_abort(i, 0, 0, 0)
        elif s['end'] == 'close': self.op_close(i, 0, 0, 0)


def uploads(m, plan_session, base):
    """owner -> path -> hash -> bytes that may be held of an unfinished commit."""
    out = {}
    act = base.active
    if act is not None:
        own = out.setdefault((act['user'], act['ip']), {})
        for p, (s, d) in act['changes'].items():
            if s != 'deleted': own.setdefault(p, {})[rm.sha(d)] = d
    i = plan_session['conn'] % len(m.spec)
    own = out.setdefault((m.users[m.spec[i][0]], m.spec[i][1]), {})
    for kind, a, b, c in plan_session['ops']:
        if kind == 'push':
            d = rm.content(b)
            own.setdefault(m.paths[a % len(m.paths)], {})[rm.sha(d)] = d
    return out


def serve(m, root):
    m.sim.relocate(root)
    m.sim.start()


def in_child(m, s, point=None):
    """Run a session against the server in a child process; returns None if it was killed, or (calls, model)."""
    def job():
        m.sim.start()
        m.login_all(s)
        crash.arm(*(point if point else (0, crash.COUNT)))
        m.session(s)
        n = crash.count()
        crash.off()
        return n, m.model
    return crash.child(job)


def crashed(ctx, m, s, point, root, final):
    """Kill the server at a point of session s, then restart it and find out what became of the session.
    final: the model after the session if nothing happens."""
    repo = m.repos[0]
    base = m.model[repo]
    out = in_child(m, s, point)
    if not out.killed:
        _, m.model = out.unwrap()
        m.stop()
        m.uncertain = None
        m.sim.start()
        ctx.label('session ended before the crash point')
        return False
    known = uploads(m, s, base) if m.uncertain is None else m.uncertain
    if m.uncertain is not None:
        for owner, files in uploads(m, s, base).items():
            for p, hs in files.items():
                known.setdefault(owner, {}).setdefault(p, {}).update(hs)
    m.sim.start()
    r = m.must('list_versions after a crash', ('C03',), m.read, repo, 'list_versions', {})
    ids = [v['id'] for v in r.json()['versions']]
    old = [v['id'] for v in reversed(base.versions)]
    m.model = {repo: copy.deepcopy(base)}
    now = m.model[repo]
    if ids != old:
        done = final is not None and len(final.versions) == len(base.versions) + 1
        m.check(done and ids[1:] == old, 'after a crash the versions are %r, before it they were %r' % ([x[:8] for x in ids], [x[:8] for x in old]))
        v = dict(final.versions[-1], id=ids[0])
        now.versions.append(v)
        ctx.label('commit had completed')
        known = {}
    now.active = now.holder = None
    m.uncertain = known
    for k in range(len(now.versions)):
        m.check_version(repo, k)
    m.check_objects(repo)
    verify(m, repo)
    return True


def verify(m, repo):
    if m.model[repo].versions:
        valid, issues = c06.fresh_verify(m, repo)
        m.check(valid is True, 'the repository does not verify after a crash: %r' % issues[:3])


def execute(plan, ctx):
    ctx.tags = ('C03',)
    m = CrashMachine(plan['history'], ctx)
    for op in plan['history']['ops']:
        m.step(op)
    m.stop()
    repo = m.repos[0]
    ctx.tags = None             # whatever goes wrong from here on is this property's
    base_root, base_model = m.sim.root, copy.deepcopy(m.model)
    tokens = dict(m.tokens)

    def branch():
        root = os.path.join(ctx.newdir(), 'r')
        shutil.copytree(base_root, root)
        m.sim.relocate(root)
        m.model = copy.deepcopy(base_model)
        m.tokens = dict(tokens)
        m.uncertain = None
        return root

    # ------------------------------------------------ without a crash
    branch()
    ctx.tags = ('C03',)
    n, after = in_child(m, plan['victim']).unwrap()
    ctx.tags = None
    if n == 0:
        raise core.Reject()
    final = after[repo]
    ctx.evals = 0
    for kind, v, torn in plan['points']:
        k = 1 + v % n if kind != 2 else max(1, n - v % (n // 4 + 1))
        root = branch()
        ctx.evals += 1
        point = (k, crash.TORN if torn == 2 else crash.KILL)
        hit = crashed(ctx, m, plan['victim'], point, root, final)
        if hit: ctx.label('crashed')
        good = hit and bool(base_model[repo].versions) and bool(plan['victim']['ops'])
        commits = 0
        for x, s in enumerate(plan['after'] + [{'conn': v, 'stale': False, 'ops': [['push', v, 'final', 0]], 'end': 'commit', 'msg': 1}]):
            if x == 0 and plan['second'] is not None and hit:
                # the recovering session is hit as well
                m.stop()
                save_model, save_unc = copy.deepcopy(m.model), copy.deepcopy(m.uncertain)
                root2 = os.path.join(ctx.newdir(), 'r')
                shutil.copytree(m.sim.root, root2)
                here = m.sim.root
                m.sim.relocate(root2)
                out = in_child(m, s)
                n2, after2 = out.unwrap()
                m.sim.relocate(here)
                m.model, m.uncertain = save_model, save_unc
                if n2:
                    if crashed(ctx, m, s, (1 + plan['second'] % n2, crash.KILL), here, after2[repo]): ctx.label('crashed again')
                else:
                    m.sim.start()
                continue
            before = len(m.model[repo].versions)
            m.session(s)
            if m.model[repo].holder is not None:
                m.op_close(m.model[repo].holder, 0, 0, 0)
            commits += len(m.model[repo].versions) - before
        for q in range(len(m.model[repo].versions)):
            m.check_version(repo, q)
        m.check_since(repo, -1, True)
        verify(m, repo)
        m.stop()
        if good and commits:
            ctx.nontrivial()
