import json
import vh.boot as boot
from hypothesis import strategies as st
from vh import core, srv
from vh.repo_machine import objects
from vh.srv import Died, js

LEVEL = 'exploration'
RULE = ('a sequence with at least one request accepted and at least one that had to be refused for a single reason (unknown or '
        'altered session, other address, other repository, expired, permission withdrawn)')
BUDGET = {'quick': 7000, 'thorough': 150000}
ASSUMPTIONS = ['requests within 5 seconds of the moment of expiry are not judged',
               'whether the session of an abandoned (not running) commit is kept alive is left open']

USERS = ['alice', 'bob', 'carol']
REPOS = ['repo0', 'repo1']
SECRET = b'TOPSECRET-%d'
READS = ['find_changed', 'pull_file', 'list_versions', 'list_changes', 'list_files']
WRITES = ['begin_commit', 'push_file', 'delete_files', 'commit']
TWO_HOURS = 7200
MARGIN = 5


def strategy(tier):
    small = st.integers(0, 5)
    login = st.tuples(st.just('login'), st.integers(0, 1), st.integers(0, 2), st.integers(0, 1)).map(list)
    read = st.tuples(st.just('use'), st.sampled_from(READS), small,
                     st.sampled_from(['none'] * 5 + ['ip', 'repo', 'alter', 'empty', 'unknown', 'prefix', 'sql', 'norepo', 'missing']), st.integers(0, 9)).map(list)
    write = st.tuples(st.just('use'), st.sampled_from(WRITES), small,
                      st.sampled_from(['none'] * 4 + ['ip', 'repo', 'alter', 'empty', 'unknown', 'prefix', 'sql', 'missing']), st.integers(0, 9)).map(list)
    adv = st.tuples(st.just('advance'), st.sampled_from([60, 1800, 3500, 3600, 5000, 7000, 7100, 7300, 9000, 86400])).map(list)
    perm = st.tuples(st.sampled_from(['revoke', 'grant']), st.integers(0, 2), st.integers(0, 1)).map(list)
    bye = st.tuples(st.just('close'), st.integers(0, 1)).map(list)
    longcommit = st.tuples(st.just('longcommit'), small, st.sampled_from([7300, 9000, 20000]), st.integers(0, 3), st.integers(0, 2)).map(list)
    regular = st.tuples(st.just('regular'), small, st.integers(1, 4), st.sampled_from([3600, 5000, 7000]), st.sampled_from(READS)).map(list)
    val = st.tuples(st.just('validate'), small).map(list)
    op = st.one_of(login, read, read, read, write, write, adv, adv, perm, bye, longcommit, regular, val, st.just(['restart']))
    return st.fixed_dictionaries({'override': st.booleans(),
                                  'ops': st.lists(op, min_size=4, max_size=18 if tier == 'quick' else 40).map(lambda o: [['login', 0, 0, 0]] + o)})


class M:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        grants = {'alice': ['repo0', 'repo1'], 'bob': ['repo0'], 'carol': ['repo1']}
        self.sim = srv.Sim(ctx, USERS + ['root'], REPOS, db_override=plan['override'], grants=dict(grants, root=REPOS))
        self.sim.config['users']['root']['uses_repositories'] = list(REPOS)
        self.now = 0.0
        self.sessions = []
        self.conns = {}
        self.heads = {}
        self.holder = {r: None for r in REPOS}          # session whose commit is running
        self.maybe = {r: None for r in REPOS}           # session whose commit is open, connected or not
        self.acc = self.ref = False
        for k, r in enumerate(REPOS):
            c = self.sim.connect('172.16.0.1')
            s = self.sim.login(c, 'root', r)
            h = {'session_token': s, 'repository': r, 'user': 'root'}
            assert c.request('begin_commit', dict(h, previous_revision='root'), b'{}').ok
            assert c.request('push_file', dict(h, path='/secret name'), SECRET % k).ok
            self.heads[r] = c.request('commit', dict(h, mode='commit', commit_message='secret message'), b'{}').headers['head']
            c.close()
        boot.advance_clock(20000)      # root's own sessions are long gone

    def conn(self, ip):
        if ip not in self.conns or not self.conns[ip].open:
            self.conns[ip] = self.sim.connect('192.168.1.%d' % ip)
        return self.conns[ip]

    def lost(self, ip):
        for r in REPOS:
            if self.holder[r] is not None and self.holder[r]['ip'] == ip:
                self.holder[r] = None

    def permitted(self, se):
        return se['repo'] in self.sim.config['users'][se['user']]['uses_repositories']

    def live(self, se):
        """True, False or None (not judged)."""
        age = self.now - se['used']
        if not self.permitted(se):
            return False
        if self.holder[se['repo']] is se:
            return True
        if age < TWO_HOURS - MARGIN and not se.get('dead'):
            return True
        if se.get('dead'):
            return False
        if self.maybe[se['repo']] is se or age < TWO_HOURS + MARGIN:
            return None
        return False

    def state(self):
        out = []
        for r in REPOS:
            p = self.sim.path(r)
            with open(p + '/head') as f:
                out.append((f.read(), tuple(sorted(objects(p)))))
        return out

    # ------------------------------------------------------------
    def request(self, ip, route, repo, headers, x):
        h = {'repository': repo, 'user': 'alice'}
        h.update(headers)
        body = b'{}'
        head = self.heads.get(repo, 'root')
        if route == 'find_changed':
            h.update({'previous_revision': ['root', head][x % 2], 'include_unchanged': '1'})
            body = js({'client_changes': json.dumps({})})
        elif route == 'pull_file':
            h.update({'path': '/secret name', 'use_head': str(x % 2), 'version_id': head})
        elif route in ('list_changes', 'list_files'):
            h.update({'show_head': str(x % 2), 'version_id': head})
        elif route == 'begin_commit':
            h.update({'previous_revision': head})
        elif route == 'push_file':
            h.update({'path': '/new file %d' % x}); body = b'evil %d' % x
        elif route == 'delete_files':
            body = js({'files': json.dumps([{'path': '/secret name'}])})
        elif route == 'commit':
            h.update({'mode': 'commit' if x % 3 else 'abort', 'commit_message': 'm'})
        try:
            return self.conn(ip).request(route, h, body)
        except Died as e:
            self.lost(ip)
            return e

    def confirm_read(self, route, repo, r, x):
        k = REPOS.index(repo)
        self.ctx.check(r.ok, '%s was not answered for a live session' % route)
        if route == 'pull_file':
            self.ctx.check(r.body == SECRET % k, 'wrong file content')
        elif route == 'list_files':
            self.ctx.check('/secret name' in r.json()['files'], 'wrong listing')
        elif route == 'list_versions':
            self.ctx.check(r.json()['versions'][0]['id'] == self.heads[repo], 'wrong version list')

    def refused(self, r, what, before):
        if isinstance(r, Died):
            pass
        else:
            self.ctx.check(not r.ok, '%s was accepted' % what)
            self.ctx.check(r.body == b'' and set(r.headers) <= {'status', 'msg'}, '%s: the refusal carries data: %r' % (what, r))
            text = json.dumps(r.headers)
            for k in (b'TOPSECRET', b'secret', self.heads['repo0'].encode(), self.heads['repo1'].encode()):
                self.ctx.check(k.decode() not in text, '%s: the refusal reveals something' % what)
        self.ctx.check(self.state() == before, '%s changed the repository' % what)
        self.ref = True

    def use(self, route, k, flaw, x, se=None):
        if se is None:
            if not self.sessions:
                return
            se = self.sessions[-1 - k % len(self.sessions)]
        ip, repo, s = se['ip'], se['repo'], se['s']
        bad = None
        if flaw == 'ip': ip = 3 - ip; bad = 'from another address'
        if flaw == 'repo': repo = REPOS[1 - REPOS.index(repo)]; bad = 'for another repository'
        if flaw == 'norepo': repo = 'nothing'; bad = 'for an unknown repository'
        if flaw == 'alter':
            i = x * 5 % len(s)
            s = s[:i] + ('A' if s[i] != 'A' else 'B') + s[i + 1:]; bad = 'with an altered session'
        if flaw == 'empty': s = ''; bad = 'without session'
        if flaw == 'unknown': s = 'Q' * len(s); bad = 'with an unknown session'
        if flaw == 'prefix': s = s[:-1]; bad = 'with part of a session'
        if flaw == 'sql': s = ["' or '1'='1", '%', '*', 'x" or 1=1 --'][x % 4]; bad = 'with an unknown session'
        headers = {'session_token': s}
        if flaw == 'missing': headers = {}; bad = 'without session'
        before = self.state()
        live = self.live(se) if bad is None else False
        if bad is None and live is False:
            bad = 'with a session used %.0f s ago, permitted %s' % (self.now - se['used'], self.permitted(se))
        r = self.request(ip, route, repo, headers, x)
        self.ctx.label(route)
        if live is False:
            self.ctx.label('refused: ' + bad.split(' used')[0])
            self.refused(r, '%s %s' % (route, bad), before)
            if flaw == 'none' and self.now - se['used'] > TWO_HOURS + MARGIN: se['dead'] = True
            return
        accepted = not isinstance(r, Died) and (r.ok or 'authenticate' not in r.headers.get('msg', ''))
        if live is None:
            if accepted: se['used'] = self.now
            else: se['dead'] = True
            if route in WRITES:
                self.after_write(route, se, r, x)
            return
        se['used'] = self.now
        self.acc = True
        if route in READS:
            if isinstance(r, Died):
                self.ctx.check(False, '%s: a live session got no answer: %s' % (route, r))
            self.confirm_read(route, repo, r, x)
        else:
            self.ctx.check(accepted, '%s with a live session was refused: %r' % (route, r))
            holder = self.holder[repo]
            if route == 'begin_commit' and holder is None:
                self.ctx.check(r.ok, 'begin_commit with a live session was refused: %r' % r)
            if route != 'begin_commit' and holder is se:
                self.ctx.check(r.ok, '%s by the committing client was refused: %r' % (route, r))
            self.after_write(route, se, r, x)

    def after_write(self, route, se, r, x):
        repo = se['repo']
        if isinstance(r, Died):
            return
        if route == 'begin_commit' and r.ok:
            self.holder[repo] = self.maybe[repo] = se
            # another client's lock on the other repository by the same connection is given up
            o = REPOS[1 - REPOS.index(repo)]
            if self.holder[o] is not None and self.holder[o]['ip'] == se['ip']:
                self.holder[o] = None
        if route == 'commit' and r.ok:
            self.holder[repo] = None
            if x % 3 == 0:
                self.maybe[repo] = None
            with open(self.sim.path(repo) + '/head') as f:
                new = f.read()
            if new != self.heads[repo]:
                self.maybe[repo] = None
                # put the secret back so that later reads have something to find
                self.heads[repo] = new
                self.reset(repo)

    def reset(self, repo):
        c = self.sim.connect('172.16.0.1')
        s = self.sim.login(c, 'root', repo)
        h = {'session_token': s, 'repository': repo, 'user': 'root'}
        k = REPOS.index(repo)
        r = c.request('begin_commit', dict(h, previous_revision=self.heads[repo]), b'{}')
        self.ctx.check(r.ok, 'could not begin a commit after another completed: %r' % r)
        c.request('push_file', dict(h, path='/secret name'), SECRET % k)
        self.heads[repo] = c.request('commit', dict(h, mode='commit', commit_message='secret message'), b'{}').headers['head']
        c.close()

    def step(self, op):
        kind = op[0]
        if kind == 'login':
            u, repo, ip = USERS[op[2]], REPOS[op[1]], 1 + op[3]
            c = self.conn(ip)
            s = self.sim.login(c, u, repo)
            if s is None:
                self.ctx.check(repo not in self.sim.config['users'][u]['uses_repositories'], 'login of a permitted user failed')
                return
            self.sessions.append({'s': s, 'user': u, 'repo': repo, 'ip': ip, 'used': self.now})
        elif kind == 'use':
            self.use(op[1], op[2], op[3], op[4])
        elif kind == 'advance':
            boot.advance_clock(op[1]); self.now += op[1]
        elif kind in ('revoke', 'grant'):
            g = self.sim.config['users'][USERS[op[1]]]['uses_repositories']
            repo = REPOS[op[2]]
            if kind == 'revoke' and repo in g: g.remove(repo)
            if kind == 'grant' and repo not in g: g.append(repo)
        elif kind == 'close':
            if (1 + op[1]) in self.conns and self.conns[1 + op[1]].open:
                self.conns[1 + op[1]].close()
            self.lost(1 + op[1])
        elif kind == 'restart':
            self.sim.restart()
            self.conns = {}
            self.holder = {r: None for r in REPOS}
        elif kind == 'longcommit':
            # a commit during which hours pass; others use the server meanwhile
            if not self.sessions: return
            se = self.sessions[-1 - op[1] % len(self.sessions)]
            if self.holder[se['repo']] is None and self.live(se):
                self.use('begin_commit', 0, 'none', 0, se)
            if self.holder[se['repo']] is not se:
                return
            self.use('push_file', 0, 'none', 3, se)
            boot.advance_clock(op[2]); self.now += op[2]
            self.ctx.label('long commit')
            if op[3] in (1, 3):
                self.step(['login', REPOS.index(se['repo']), op[4], op[4] % 2])
                self.use('list_files', 0, 'none', 1)
            if op[3] in (2, 3):
                self.step(['validate', 0])
                self.use('list_files', 0, 'unknown', 1)
            if self.holder[se['repo']] is se:
                self.use('push_file', 0, 'none', 4, se)
                self.use('commit', 0, 'none', 1, se)
        elif kind == 'regular':
            if not self.sessions: return
            se = self.sessions[-1 - op[1] % len(self.sessions)]
            if self.live(se) is not True: return
            for _ in range(op[2]):
                self.use(op[4], 0, 'none', 1, se)
                boot.advance_clock(op[3]); self.now += op[3]
            self.use(op[4], 0, 'none', 0, se)
            self.ctx.label('session in regular use')
        elif kind == 'validate':
            if not self.sessions: return
            se = self.sessions[-1 - op[1] % len(self.sessions)]
            try:
                self.conn(se['ip']).request('authenticate', {'client_version': '3', 'repository': se['repo'], 'session_token': se['s']}, b'{}')
            except Died:
                self.lost(se['ip'])


def execute(plan, ctx):
    m = M(plan, ctx)
    for op in plan['ops']:
        m.step(op)
    if m.acc and m.ref:
        ctx.nontrivial()
