"""Requests of several clients that overlap in time: real threads over the real server code, of which one runs at a
time; the plan says after how many lines, calls or requests the next one gets its turn.

A thread is never stopped inside a database transaction (the others would wait for it, and so for the plan)."""
import json, os, sqlite3, sys, threading

import vh.boot as boot
from hypothesis import strategies as st
from vh import core, srv, repo_machine as rm
from vh.srv import Died, js

KINDS = ['line', 'call', 'request']


def schedules(nscripts, max_size=14):
    """[kind, how many, whose turn it is then]"""
    step = st.one_of(
        st.tuples(st.just(1), st.integers(1, 40), st.integers(0, nscripts - 1)),
        st.tuples(st.just(1), st.integers(1, 12), st.integers(0, nscripts - 1)),
        st.tuples(st.just(0), st.integers(1, 250), st.integers(0, nscripts - 1)),
        st.tuples(st.just(0), st.integers(1, 40), st.integers(0, nscripts - 1)),
        st.tuples(st.just(2), st.integers(1, 7), st.integers(0, nscripts - 1))).map(list)
    return st.lists(step, min_size=1, max_size=max_size)


class Baton:
    def __init__(self, n, schedule):
        self.schedule = list(schedule)
        self.at = 0
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.main = threading.Semaphore(0)
        self.switches = 0
        self.arm()

    def arm(self):
        if self.at < len(self.schedule):
            self.kind, self.left, self.to = self.schedule[self.at]
            self.at += 1
        else:
            self.kind, self.left, self.to = None, 0, 0

    def target(self, me):
        n = len(self.sems)
        for d in range(n):
            t = (self.to + d) % n
            if t != me and self.alive[t]:
                return t
        return None

    def point(self, me, kind):
        self.events += 1
        if self.kind is None:
            return
        if KINDS[self.kind] == kind and self.left > 0:
            self.left -= 1
        if self.left > 0 or (kind != 'request' and srv.in_transaction()):
            return
        t = self.target(me)
        self.arm()
        if t is None:
            return
        self.switches += 1
        if kind != 'request':
            self.within = True
        self.sems[t].release()
        self.sems[me].acquire()

    within = False
    events = 0

    def free(self):
        """Let everybody go on."""
        self.kind, self.at = None, len(self.schedule)
        for s in self.sems:
            s.release()

    def finish(self, me):
        self.alive[me] = False
        t = self.target(me)
        if t is None:
            self.main.release()
        else:
            self.sems[t].release()


def run(scripts, schedule, ctx, sim):
    waits = srv.lock_waits[0]
    try:
        return _run(scripts, schedule)
    finally:
        if srv.lock_waits[0] > waits:
            # nobody is stopped inside a transaction or statement, so somebody idle must hold it
            ctx.check(not sim.left_open, 'the database stays locked by a client that is idle, after %s' % sim.left_open[:1], ('C08', 'C09', 'C07', 'C11'))
            raise core.OffTopic('the database was busy')


def _run(scripts, schedule):
    """scripts: functions of (baton point function).  Returns the baton; raises what a script raised."""
    baton = Baton(len(scripts), schedule)
    errors = []

    def body(i):
        baton.sems[i].acquire()
        try:
            if not errors:
                scripts[i](lambda kind: baton.point(i, kind))
        except BaseException as e:      # pylint: disable=broad-except
            errors.append(e)
        finally:
            baton.finish(i)
    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(scripts))]
    for t in threads:
        t.start()
    with srv.monitoring():
        baton.sems[0].release()
        seen, stuck = -1, False
        while not baton.main.acquire(timeout=10):
            if baton.events == seen:
                stuck = True
                baton.free()
            seen = baton.events
        for t in threads:
            t.join()
    if stuck:
        raise core.OffTopic('a thread waited for one that was stopped')
    if errors:
        raise errors[0]
    return baton


# ------------------------------------------------------------------ commits racing each other
def plans(tier, gc=False):
    n = st.integers(2, 3)

    @st.composite
    def build(draw):
        k = draw(n)
        attempt = st.tuples(st.just('attempt'), st.integers(0, 7), st.integers(0, 15), st.sampled_from(['commit', 'commit', 'commit', 'abort', 'close'])).map(list)
        read = st.tuples(st.just('read'), st.integers(0, 9)).map(list)
        login = st.just(['login'])
        op = st.one_of(attempt, attempt, attempt, read, login)
        scripts = []
        for i in range(k):
            if gc and i == 0:
                scripts.append({'user': 0, 'ip': 0, 'ops': [['gc']] * draw(st.integers(1, 3))})
            else:
                scripts.append({'user': draw(st.integers(0, 1)), 'ip': draw(st.integers(0, 1)),
                                'ops': draw(st.lists(op, min_size=1, max_size=4))})
        return {'override': draw(st.booleans()), 'paths': draw(rm.path_pool(min_size=3)),
                'start': draw(st.integers(0, 2)), 'left': draw(st.booleans()), 'scripts': scripts, 'schedule': draw(schedules(k))}
    return build()


class Race:
    """One repository, several clients."""
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.sim = srv.Sim(ctx, ['user0', 'user1', 'reader'], ['repo'], db_override=plan['override'])
        self.paths = plan['paths']
        self.time = 0
        self.sessions, self.refusals, self.busy, self.reads, self.gcs = [], [], [], [], []
        self.n = 0
        self.versions = []      # id, files, c0, c1

    # -------------------------------------------------------- requests
    def tick(self):
        self.time += 1
        return self.time

    def ask(self, who, route, headers, body=b'{}', point=None):
        h = {'repository': 'repo'}
        if who.get('token'):
            h['session_token'] = who['token']
        h.update(headers)
        t0 = self.tick()
        try:
            r = who['conn'].request(route, h, body, trace=point)
        except Died as e:
            if isinstance(e.exc, sqlite3.OperationalError) and 'locked' in str(e.exc):
                raise core.OffTopic('the database was busy') from None
            self.ctx.check(False, '%s: the server dropped the connection while others were at work: %s' % (route, e), ('C08', 'C09', 'C07'))
        return r, t0, self.tick()

    def login(self, who, point=None):
        r, *_ = self.ask(dict(who, token=None), 'begin_auth', {}, point=point)
        tok = r.headers['auth_token']
        import base64, pysodium
        sig = base64.b64encode(pysodium.crypto_sign_detached(tok, srv.keypair(who['user'])[1])).decode()
        r, *_ = self.ask(dict(who, token=None), 'authenticate', {'client_version': '3', 'user': who['user'], 'auth_token': tok, 'signature': sig}, point=point)
        self.ctx.check(r.ok, 'a valid login is refused while others are at work', ('C11', 'C08', 'C09'))
        who['token'] = r.headers['session_token']

    def client(self, user, ip):
        return {'user': user, 'ip': ip, 'conn': self.sim.connect('10.1.0.%d' % (1 + ip))}

    # -------------------------------------------------------- scripts
    def script(self, spec):
        def go(point):
            who = None
            for op in spec['ops']:
                if op[0] == 'gc':
                    self.collect(point)
                    continue
                if who is None or not who['conn'].open:
                    who = self.client('user%d' % spec['user'], spec['ip'])
                    self.login(who, point)
                point('request')
                if op[0] == 'attempt':
                    self.attempt(who, op, point)
                elif op[0] == 'read':
                    self.read(who, op[1], point)
                else:
                    self.login(who, point)
            if who is not None:
                who['conn'].close()
        return go

    def collect(self, point):
        from bversion.storage.versioned_storage import versioned_storage
        ent = self.sim.config['repositories']['repo']
        t0 = self.tick()
        c = srv.Conn(self.sim, '0.0.0.0', 0)
        try:
            ok, what = c.call_traced(lambda: versioned_storage(ent['path'], path_override=ent.get('transient_db_path_override')).garbage_collect(), point)
        finally:
            c._end()
        self.gcs.append((t0, self.tick(), ok))
        self.ctx.label('gc ran' if ok else 'gc refused')
        point('request')

    def sync(self, who, point=None):
        r, t0, t1 = self.ask(who, 'find_changed', {'previous_revision': 'root', 'include_unchanged': '0'}, js({'client_changes': '{}'}), point)
        self.ctx.check(r.ok, 'find_changed is refused', ('C08',))
        head = r.json()['head']
        self.reads.append(('head', t0, t1, head))
        return head

    def attempt(self, who, op, point):
        _, a, b, end = op
        if a >= 2 or 'rev' not in who:
            who['rev'] = self.sync(who, point)
            point('request')
        r, t0, t1 = self.ask(who, 'begin_commit', {'previous_revision': who['rev'], 'user': who['user']}, point=point)
        self.busy.append((t0, t1, who))
        point('request')
        if not r.ok:
            self.refusals.append((t0, t1, who, who['rev']))
            self.ctx.label('begin refused')
            if a % 2:       # carries on all the same
                self.n += 1
                for route, h, body in [('push_file', {'path': self.paths[b % len(self.paths)]}, b'intruder %d' % self.n),
                                       ('delete_files', {}, js({'files': json.dumps([{'path': p} for p in self.paths])})),
                                       ('commit', {'mode': 'commit' if b % 2 else 'abort', 'commit_message': 'm'}, b'{}')]:
                    r, *_ = self.ask(who, route, h, body, point)
                    self.ctx.check(not r.ok, '%s is accepted from a client whose begin was refused' % route, ('C09', 'C08'))
                    point('request')
            return
        p = r.json()['partial_commit']
        s = {'who': who, 'user': who['user'], 'ip': who['ip'], 'rev': who['rev'], 'b0': t0, 'b1': t1, 'ops': [], 'end': end, 'head': None,
             'partial': {x['path']: x['hash'] for x in p} if p else {}}
        self.sessions.append(s)
        s['r0'] = s['r1'] = None
        for k in range(1 + b % 3):
            path = self.paths[(a + k) % len(self.paths)]
            self.n += 1
            data = b'version %d of %d' % (self.n, k) if b != 5 else b'same'
            r, *_ = self.ask(who, 'push_file', {'path': path}, data, point)
            self.ctx.check(r.ok, 'an upload of the lock holder is refused: %r' % r.headers.get('msg'), ('C09', 'C08', 'C01'))
            s['ops'].append((path, data))
            point('request')
        if b % 4 == 3:
            path = self.paths[(b + a) % len(self.paths)]
            r, *_ = self.ask(who, 'delete_files', {}, js({'files': json.dumps([{'path': path}])}), point)
            self.ctx.check(r.ok, 'a deletion by the lock holder is refused: %r' % r.headers.get('msg'), ('C09', 'C08', 'C01'))
            s['ops'].append((path, None))
            point('request')
        if end == 'close':
            s['r0'] = self.tick()
            who['conn'].close()
            s['r1'] = self.tick()
        else:
            r, s['r0'], s['r1'] = self.ask(who, 'commit', {'mode': end, 'commit_message': 'by ' + who['user']}, point=point)
            self.ctx.check(r.ok, '%s of the lock holder is refused: %r' % (end, r.headers.get('msg')), ('C09', 'C08', 'C01'))
            s['head'] = r.headers.get('head')
        point('request')

    def read(self, who, x, point):
        r, t0, t1 = self.ask(who, 'list_versions', {}, point=point)
        self.ctx.check(r.ok, 'list_versions is refused', ('C08',))
        ids = [v['id'] for v in r.json()['versions']]
        self.reads.append(('chain', t0, t1, ids))
        point('request')
        if not ids:
            return
        r, t0, t1 = self.ask(who, 'list_files', {'show_head': '1', 'version_id': ''}, point=point)
        self.ctx.check(r.ok, 'list_files is refused', ('C08',))
        files = {p: f['hash'] for p, f in r.json()['files'].items()}
        self.reads.append(('files', t0, t1, files))
        point('request')
        r, t0, t1 = self.ask(who, 'list_files', {'show_head': '0', 'version_id': ids[x % len(ids)]}, point=point)
        self.ctx.check(r.ok, 'list_files is refused', ('C08',))
        files = {p: f['hash'] for p, f in r.json()['files'].items()}
        self.reads.append(('version', t0, t1, (ids[x % len(ids)], files)))
        if files:
            p = sorted(files)[x % len(files)]
            r, t0, t1 = self.ask(who, 'pull_file', {'path': p, 'use_head': '0', 'version_id': ids[x % len(ids)]}, point=point)
            self.ctx.check(r.ok and rm.sha(r.body) == files[p], 'pull_file returns something else while others are at work', ('C08', 'C01'))
        point('request')

    # -------------------------------------------------------- what it comes to
    def run(self):
        plan = self.plan
        nothing = lambda kind: None
        first = self.client('user0', 0)
        self.login(first)
        for k in range(plan['start']):
            self.attempt(first, ['attempt', 2 + k, 1 + k, 'commit'], nothing)
        if plan['left']:
            self.attempt(first, ['attempt', 3, 2, 'close'], nothing)
        else:
            first['conn'].close()
        baton = run([self.script(s) for s in plan['scripts']], plan['schedule'], self.ctx, self.sim)
        if baton.within:
            self.ctx.label('switched within a request')
        self.judge()
        return baton

    def judge(self):
        check = self.ctx.check
        ss = sorted(self.sessions, key=lambda s: s['b1'])
        for x, y in zip(ss, ss[1:]):
            check(x['r0'] is not None and y['b1'] > x['r0'], 'two clients held the lock at the same time', ('C08', 'C09'))
        head, files, pending = 'root', {}, None
        self.versions.append({'id': 'root', 'files': {}, 'c0': -1, 'c1': -1})
        for s in ss:
            check(s['rev'] == head, 'a commit was begun on %.8s while the newest version was %.8s' % (s['rev'], head), ('C08',))
            changes = {}
            if pending is not None and (pending['user'], pending['ip']) == (s['user'], s['ip']):
                lost = any(t1 > pending['r0'] and t0 < s['b1'] for t0, t1, w, rev in self.refusals) or any(
                    t1 > pending['r0'] and t0 < s['b1'] for t0, t1, ok in self.gcs) and False
                want = {p: rm.sha(d) for p, d in pending['changes'].items()}
                check(s['partial'] == want or lost and s['partial'] == {}, 'resuming: the server reports %r, it holds %r' % (sorted(s['partial']), sorted(want)),
                      ('C10', 'C08', 'C07'))
                if s['partial']:
                    changes = dict(pending['changes'])
            else:
                check(s['partial'] == {}, 'a new commit starts with the uploads of another', ('C10', 'C08'))
            pending = None
            for p, d in s['ops']:
                changes[p] = d
                if d is None and p not in files:
                    del changes[p]
            if s['end'] == 'close':
                pending = {'user': s['user'], 'ip': s['ip'], 'r0': s['r0'], 'changes': {p: d for p, d in changes.items() if d is not None}}
            elif s['end'] == 'commit' and changes:
                files = dict(files)
                for p, d in changes.items():
                    if d is None: files.pop(p)
                    else: files[p] = d
                check(s['head'] not in [None] + [v['id'] for v in self.versions], 'commit returned no new version', ('C01', 'C08'))
                head = s['head']
                self.versions.append({'id': head, 'files': files, 'c0': s['r0'], 'c1': s['r1']})
        # refusals
        for t0, t1, who, rev in self.refusals:
            if any(s['who'] is not who and s['b0'] < t1 and s['r1'] > t0 for s in ss) or any(
                    w is not who and b0 < t1 and b1 > t0 for b0, b1, w in self.busy) or any(g0 < t1 and g1 > t0 for g0, g1, ok in self.gcs):
                continue
            heads = self.candidates(t0, t1)
            check(any(v['id'] != rev for v in heads), 'a client which is up to date is refused although nobody else is committing', ('C08', 'C09', 'C07'))
        # what everybody saw
        for kind, t0, t1, got in self.reads:
            heads = self.candidates(t0, t1)
            if kind == 'head':
                check(got in [v['id'] for v in heads], 'the newest version is reported as %.8s, which it was not' % got, ('C08',))
            elif kind == 'chain':
                chains = [[v['id'] for v in reversed(self.versions[1:1 + self.versions.index(h)])] for h in heads]
                check(got in chains, 'a version list that never was: %r' % [g[:8] for g in got], ('C08', 'C02'))
            elif kind == 'files':
                check(got in [{p: rm.sha(d) for p, d in v['files'].items()} for v in heads], 'the files of the newest version are listed as %r' % sorted(got), ('C08', 'C01'))
            else:
                v = [v for v in self.versions if v['id'] == got[0]]
                check(v and got[1] == {p: rm.sha(d) for p, d in v[0]['files'].items()}, 'a version is listed with other files', ('C08', 'C01'))
        self.final(head)

    def candidates(self, t0, t1):
        out = []
        for k, v in enumerate(self.versions):
            nxt = self.versions[k + 1] if k + 1 < len(self.versions) else None
            if v['c0'] <= t1 and (nxt is None or nxt['c1'] >= t0):
                out.append(v)
        return out

    def final(self, head):
        check = self.ctx.check
        who = self.client('reader', 5)
        self.login(who)
        r, *_ = self.ask(who, 'list_versions', {})
        got = [v['id'] for v in r.json()['versions']]
        want = [v['id'] for v in reversed(self.versions[1:])]
        check(got == want, 'the version list is %r, successful commits were %r' % ([x[:8] for x in got], [x[:8] for x in want]), ('C08', 'C01', 'C02'))
        for v in self.versions[1:]:
            r, *_ = self.ask(who, 'list_files', {'show_head': '0', 'version_id': v['id']})
            check(r.ok, 'a version cannot be listed afterwards', ('C01', 'C08', 'C07'))
            check({p: f['hash'] for p, f in r.json()['files'].items()} == {p: rm.sha(d) for p, d in v['files'].items()},
                  'a version holds other files than were committed', ('C08', 'C01'))
            for p, d in v['files'].items():
                r, *_ = self.ask(who, 'pull_file', {'path': p, 'use_head': '0', 'version_id': v['id']})
                check(r.ok and r.body == d, 'a version holds other content than was committed', ('C08', 'C01', 'C07'))
        # and another one can commit
        r, *_ = self.ask(who, 'begin_commit', {'previous_revision': head, 'user': 'reader'})
        check(r.ok, 'after all connections are closed nobody can commit: %r' % r.headers.get('msg'), ('C09', 'C08', 'C07'))
        r, *_ = self.ask(who, 'push_file', {'path': '/last'}, b'last')
        check(r.ok, 'the last upload is refused', ('C08', 'C09'))
        r, *_ = self.ask(who, 'commit', {'mode': 'commit', 'commit_message': 'last'})
        check(r.ok, 'the last commit fails', ('C08', 'C09'))
        r, *_ = self.ask(who, 'list_versions', {})
        check([v['id'] for v in r.json()['versions']][1:] == want, 'the last commit is not made on the newest version', ('C08',))
        who['conn'].close()


def execute(plan, ctx):
    race = Race(plan, ctx)
    baton = race.run()
    overlap = any(x is not y and x['b0'] < (y['r1'] or 0) and y['b0'] < (x['r1'] or 0) for x in race.sessions for y in race.sessions)
    if baton.within and (race.refusals or overlap or len(race.versions) > 2):
        ctx.nontrivial()
    return race
