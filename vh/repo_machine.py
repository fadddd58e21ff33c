"""Histories of protocol requests against the real server code, next to a model of what a repository is.

A plan is {'users': n, 'repos': n, 'conns': [[user, ip, repo], ...], 'paths': [...], 'ops': [[kind, conn, a, b, c], ...]}.
Operands are plain integers that are reduced modulo whatever they select, so every plan is executable.

The oracles are tagged with the properties they belong to; a check only reports its own."""
import hashlib, json, os

import vh.boot as boot
from vh import core, srv
from vh.srv import Died, js

from hypothesis import strategies as st


# ------------------------------------------------------------------ contents and names
BIG = [65535, 65536, 65537, 131072, 1000000, 1000001]

# contents whose SHA-256 begins with the same byte, so that they are stored in the same directory
NEIGHBOURS = {1: b'content 1 v1149\n', 2: b'content 2 v90\n', 3: b'content 3 v253\n', 4: b'content 4 v159\n', 5: b'content 5 v105\n'}

def content(spec):
    """Bytes for a content spec: an int (0 = empty, 1..9 small, 10.. = boundary sizes) or text (latin-1)."""
    if isinstance(spec, str):
        return spec.encode('latin-1')
    if spec == 0:
        return b''
    if spec in NEIGHBOURS:
        return NEIGHBOURS[spec]
    if spec < 10:
        return b'content %d\n' % spec
    size = BIG[(spec - 10) % len(BIG)]
    seed = b'big %d ' % spec
    return (seed * (size // len(seed) + 1))[:size]


def sha(b):
    return hashlib.sha256(b).hexdigest()


NAME_CHARS = ['a', 'b', 'A', '0', '.', ' ', '-', '_', ':', '%', "'", '"', '\\', '\u00e9', '\u4e2d', '#', '?', '*', '[', '~', '+', '\t']

def hash_of(p):
    return hashlib.sha256(p.encode('utf8')).digest()[0] * 256 + hashlib.sha256(p.encode('utf8')).digest()[1]


def names():
    def ok(s):      # the server takes a backslash for a separator when it looks for dot components
        return not any(x in ('.', '..') for x in s.split('\\'))
    plain = st.sampled_from(['a', 'b', 'dir', 'file.txt', 'x.tar.gz', 'README', '.hidden', 'a b', 'caf\u00e9', 'a:b', 'n\u0303', 'A'])
    odd = st.text(st.sampled_from(NAME_CHARS), min_size=1, max_size=6).filter(ok)
    return st.one_of(plain, plain, odd)


def path_pool(min_size=2, max_size=7):
    """Paths with shared prefixes, including a file named like another one's directory."""
    parts = st.lists(names(), min_size=1, max_size=4)
    def build(groups):
        out = []
        for g in groups:
            p = '/' + '/'.join(g)
            if p not in out:
                out.append(p)
        return out
    @st.composite
    def pool(draw):
        n = draw(st.integers(min_size, max_size))
        groups = []
        for _ in range(n):
            how = draw(st.integers(0, 3)) if groups else 0
            if how == 0:
                groups.append(draw(parts))
            elif how == 1:      # a sibling
                g = groups[draw(st.integers(0, len(groups) - 1))]
                groups.append(g[:-1] + [draw(names())])
            elif how == 2:      # below an existing file name
                g = groups[draw(st.integers(0, len(groups) - 1))]
                groups.append((g + [draw(names())])[:6])
            else:               # same name elsewhere
                g = groups[draw(st.integers(0, len(groups) - 1))]
                groups.append([draw(names())] + g[-1:])
        return build(groups)
    return pool()


CONTENTS = st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(0, 6), st.integers(0, 15))


def ops(weights, nconn=8):
    kinds = []
    for k, w in weights.items():
        kinds += [k] * w
    return st.tuples(st.sampled_from(kinds), st.integers(0, nconn - 1), st.integers(0, 9), CONTENTS, st.integers(0, 7),
                     st.integers(0, 3)).map(list)


BASE_WEIGHTS = {'begin': 6, 'push': 8, 'delete': 4, 'commit': 5, 'abort': 2, 'close': 2, 'restart': 1, 'full': 6, 'session': 5, 'check': 1, 'many': 0, 'bulk': 0}

def plans(weights=None, min_ops=5, max_ops=24, users=2, repos=1, conns=3, ips=2):
    w = dict(BASE_WEIGHTS)
    w.update(weights or {})
    return st.fixed_dictionaries({
        'users': st.just(users), 'repos': st.just(repos),
        'override': st.booleans(),
        'conns': st.lists(st.tuples(st.integers(0, users - 1), st.integers(0, ips - 1), st.integers(0, repos - 1)).map(list),
                          min_size=1, max_size=conns),
        'paths': path_pool(),
        'ops': st.lists(ops(w, conns), min_size=min_ops, max_size=max_ops)})


# ------------------------------------------------------------------ the model
class Repo:
    def __init__(self):
        self.versions = []       # dicts id, parent, files {path: bytes}, changes {path: status}, user, msg
        self.active = None       # dict user, ip, changes {path: [status, bytes]}, resumed, refused
        self.holder = None       # connection index
        self.snap = None         # objects before the open commit was begun

    def head(self):
        return self.versions[-1]['id'] if self.versions else 'root'

    def head_files(self):
        return self.versions[-1]['files'] if self.versions else {}


def objects(path):
    out = {}
    for kind in ('index', 'files'):
        base = os.path.join(path, kind)
        if not os.path.isdir(base):
            continue
        for d in os.listdir(base):
            for f in os.listdir(os.path.join(base, d)):
                out[kind + '/' + d + f] = os.path.join(base, d, f)
    return out


def reachable(path):
    """The objects some version needs, found by reading the object files themselves."""
    need = set()
    headfile = os.path.join(path, 'head')
    if not os.path.exists(headfile):
        return need
    with open(headfile) as f:
        pointer = f.read()
    def load(h):
        need.add('index/' + h)
        with open(os.path.join(path, 'index', h[:2], h[2:])) as f:
            return json.load(f)
    def tree(h):
        if 'index/' + h in need:
            return
        t = load(h)
        for d in t['dirs'].values():
            tree(d)
        for f in t['files'].values():
            need.add('files/' + f['hash'])
    while pointer != 'root':
        c = load(pointer)
        tree(c['tree_root'])
        pointer = c['parent']
    return need


class Machine:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.users = ['user%d' % i for i in range(plan['users'])]
        self.repos = ['repo%d' % i for i in range(plan['repos'])]
        self.sim = srv.Sim(ctx, self.users + ['reader'], self.repos, db_override=plan.get('override', False))
        self.model = {r: Repo() for r in self.repos}
        self.spec = plan['conns']
        self.conns = [None] * len(self.spec)
        self.tokens = {}
        self.reader = None
        self.paths = plan['paths']
        self.light = False         # look at the result later

    # -------------------------------------------------------- plumbing
    def check(self, cond, msg, *tags):
        self.ctx.check(cond, msg, tags)

    def conn(self, i):
        if self.conns[i] is None or not self.conns[i].open:
            self.conns[i] = self.sim.connect('10.0.0.%d' % (1 + self.spec[i][1]))
        return self.conns[i]

    def token(self, i, repo):
        user, ip = self.users[self.spec[i][0]], self.spec[i][1]
        key = (user, ip, repo)
        if key not in self.tokens:
            c = self.sim.connect('10.0.0.%d' % (1 + ip))
            tok = self.sim.login(c, user, repo)
            c.close()
            self.check(tok is not None, 'a permitted user could not log in', 'C11', 'C12')
            self.tokens[key] = tok
        return self.tokens[key]

    def call(self, i, route, headers, body=b'', repo=None, trace=None):
        """A request by connection i; a dropped connection counts as a refusal without reply."""
        repo = repo or self.repos[self.spec[i][2]]
        tok = self.token(i, repo)
        h = {'session_token': tok, 'repository': repo}
        h.update(headers)
        return self.conn(i).request(route, h, body, trace=trace)

    def read(self, repo, route, headers, body=b'{}'):
        if self.reader is None or not self.reader.open:
            self.reader = self.sim.connect('10.0.9.9')
        key = ('reader', repo)
        if key not in self.tokens:
            self.tokens[key] = self.sim.login(self.reader, 'reader', repo)
        h = {'session_token': self.tokens[key], 'repository': repo}
        h.update(headers)
        return self.reader.request(route, h, body)

    def must(self, what, tags, f, *args, **kw):
        """A request that has to be accepted."""
        try:
            r = f(*args, **kw)
        except Died as e:
            self.check(False, '%s: the server dropped the connection: %s' % (what, e), *tags)
            raise core.OffTopic(what)
        self.check(r.ok, '%s was refused: %r' % (what, r.headers.get('msg')), *tags)
        return r

    def refused(self, f, *args, **kw):
        """True if the request was refused (with a failure reply or by dropping the connection)."""
        try:
            return not f(*args, **kw).ok, None
        except Died as e:
            return True, e

    def dropped(self, i):
        """Connection i is gone: it gives up its lock."""
        for m in self.model.values():
            if m.holder == i:
                m.holder = None

    # -------------------------------------------------------- operations
    def run(self):
        for op in self.plan['ops']:
            self.step(op)
        for r in self.repos:
            self.check_repo(r, full=True)

    def step(self, op):
        kind, i, a, b, c, who = (op + [0])[:6]
        i = i % len(self.spec)
        if who:
            kind, i = self.aim(kind, i, who)
        getattr(self, 'op_' + kind)(i, a, b, c)
        self.ctx.label('op ' + kind)
        repo = self.repos[self.spec[i][2]]
        self.check_chain(repo)

    def aim(self, kind, i, who):
        """Most operations are meant for whoever holds the lock; the others test everybody else."""
        m = self.model[self.repos[self.spec[i][2]]]
        if kind in ('push', 'delete', 'commit', 'abort', 'close', 'other', 'die'):
            if m.holder is not None:
                return kind, m.holder
            if kind == 'push':
                self.op_begin(i, 0, 1, 0)
            return kind, i
        if kind == 'begin' and m.holder is not None:
            if who == 1:
                self.op_close(m.holder, 0, 0, 0)
                return kind, i
            return 'push', m.holder
        return kind, i

    def op_begin(self, i, a, b, c, honest_only=False):
        """b selects the revision the client says it has, c whom it claims to be in the user header."""
        repo = self.repos[self.spec[i][2]]
        m = self.model[repo]
        user, ip = self.users[self.spec[i][0]], self.spec[i][1]
        b = b if isinstance(b, int) else 1
        stale = b in (5, 6, 9) and not honest_only
        rev = m.head()
        if stale:
            olds = [v['id'] for v in m.versions[:-1]] + (['root'] if m.versions else []) + ['0' * 64, '']
            rev = olds[a % len(olds)]
        claim = user
        if c == 7 and not honest_only:
            claim = self.users[(self.spec[i][0] + 1) % len(self.users)]
        if m.holder == i:
            return          # beginning twice on one connection: not something clients do
        if m.active is None and m.holder is None:
            m.snap = set(objects(self.sim.path(repo)))
        if m.holder is not None:
            before = set(objects(self.sim.path(repo)))
            ok, died = self.refused(self.call, i, 'begin_commit', {'previous_revision': rev, 'user': claim})
            if died: self.dropped(i)
            self.check(ok, 'two connections were given the commit lock', 'C09', 'C08')
            self.check(set(objects(self.sim.path(repo))) == before, 'a refused begin changed the stored objects', 'C09', 'C04')
            if m.active: m.active['refused'] += 1
            self.ctx.label('begin while locked')
            return
        if stale:
            ok, died = self.refused(self.call, i, 'begin_commit', {'previous_revision': rev, 'user': claim})
            if died: self.dropped(i)
            self.check(ok, 'a commit on an out of date version was accepted', 'C08')
            self.ctx.label('stale begin')
            if m.active is not None:
                self.ctx.label('stale begin over an open commit')
            m.active = None
            self.check_clean(repo, 'an out of date begin')
            return
        try:
            r = self.call(i, 'begin_commit', {'previous_revision': rev, 'user': claim})
        except Died as e:
            self.check(False, 'begin_commit: the server dropped the connection: %s' % e, 'C08', 'C09', 'C10')
        self.check(r.ok, 'begin_commit by an up to date client was refused although nobody holds the lock: %r' %
                   r.headers.get('msg'), 'C08', 'C09', 'C10')
        partial = r.json()['partial_commit']
        partial = {p['path']: p['hash'] for p in partial} if partial else {}
        m.holder = i
        if m.active is not None and m.active['user'] == user and m.active['ip'] == ip:
            ups = {p: [s, d] for p, (s, d) in m.active['changes'].items() if s != 'deleted'}
            dels = [p for p, (s, d) in m.active['changes'].items() if s == 'deleted']
            loose = m.active.pop('loose', {})
            for p, alts in loose.items():
                got = [d for d in alts if d is not None and sha(d) == partial.get(p)]
                if got:
                    ups[p] = ['changed' if p in m.head_files() else 'new', got[0]]
                elif p not in partial and None in alts:
                    ups.pop(p, None)
            if m.active.pop('gone', False) and partial == {}:
                ups = {}
            self.check(partial == {p: sha(d) for p, (s, d) in ups.items()},
                       'resuming: the server reports the uploads %r, it was sent %r' % (partial, sorted(ups)), 'C10')
            m.active['changes'] = ups
            m.active['resumed'] += 1
            self.ctx.label('resume')
            if ups: self.ctx.label('resume with uploads')
            if dels: self.ctx.label('resume dropping deletions')
        else:
            self.check(partial == {}, 'a new commit starts with uploads of somebody else: %r' % partial, 'C10')
            if m.active is not None:
                self.ctx.label('displaced')
                if m.active['changes']:
                    self.ctx.label('displaced with uploads')
                m.active = None
                self.check_clean(repo, 'a displaced commit')
            m.active = {'user': user, 'ip': ip, 'changes': {}, 'resumed': 0, 'refused': 0, 'removed': 0}

    def op_push(self, i, a, b, c, repo=None, path=None):
        repo = repo or self.repos[self.spec[i][2]]
        m = self.model[repo]
        path = path or self.paths[a % len(self.paths)]
        data = content(b)
        if m.holder != i or m.active is None:
            self.refuse_check(i, repo, 'push_file', {'path': path}, data)
            return
        r = self.must('push_file', ('C01', 'C10'), self.call, i, 'push_file', {'path': path}, data, repo=repo)
        info = json.loads(r.headers['file_info_json'])
        self.check(info['hash'] == sha(data), 'push_file answered a wrong hash', 'C01', 'C05')
        self.check(info['path'] == path, 'push_file answered another path', 'C01')
        if path in m.active['changes']:
            self.ctx.label('pushed or deleted again')
        m.active['changes'][path] = ['changed' if path in m.head_files() else 'new', data]

    def op_delete(self, i, a, b, c, repo=None, paths=None):
        repo = repo or self.repos[self.spec[i][2]]
        m = self.model[repo]
        if paths is None:
            n = 1 + c % 3
            paths = [self.paths[(a + k) % len(self.paths)] for k in range(n)]
            known = sorted(m.head_files())
            if known and c % 2:
                paths[-1] = known[a % len(known)]
        body = js({'files': json.dumps([{'path': p} for p in paths])})
        if m.holder != i or m.active is None:
            self.refuse_check(i, repo, 'delete_files', {}, body)
            return
        self.must('delete_files', ('C01', 'C10'), self.call, i, 'delete_files', {}, body, repo=repo)
        for p in paths:
            if p in m.active['changes']:
                self.ctx.label('pushed or deleted again')
                m.active['removed'] += 1
            if p in m.head_files():
                m.active['changes'][p] = ['deleted', m.head_files()[p]]
            else:
                m.active['changes'].pop(p, None)

    MESSAGES = ['', 'message', 'caf\u00e9 "quoted"', 'a: b', '0', 'x' * 300, 'two  words', '{"json": 1}']

    def op_commit(self, i, a, b, c, repo=None):
        repo = repo or self.repos[self.spec[i][2]]
        m = self.model[repo]
        msg = self.MESSAGES[c % len(self.MESSAGES)]
        if m.holder != i or m.active is None:
            self.refuse_check(i, repo, 'commit', {'mode': 'commit', 'commit_message': msg}, b'{}')
            return
        r = self.must('commit', ('C01', 'C10'), self.call, i, 'commit', {'mode': 'commit', 'commit_message': msg}, b'{}', repo=repo)
        act, m.active, m.holder = m.active, None, None
        if not act['changes']:
            self.check(r.headers.get('head', m.head()) == m.head(), 'a commit without changes made a new version', 'C01', 'C02')
            if act['removed'] or act['resumed']:
                self.ctx.label('empty commit after uploads')
            # the server keeps an empty commit open; it is of no consequence to anybody
            m.active = None
            self.empty_leftover(repo, act)
            return
        self.committed(repo, act, r.headers.get('head'), msg)

    def committed(self, repo, act, head, msg):
        m = self.model[repo]
        m.active, m.holder = None, None
        files = dict(m.head_files())
        for p, (s, d) in act['changes'].items():
            if s == 'deleted': files.pop(p)
            else: files[p] = d
        v = {'id': head, 'parent': m.head(), 'files': files, 'user': act['user'], 'msg': msg,
             'changes': {p: s for p, (s, d) in act['changes'].items()}, 'hashes': {p: sha(d) for p, (s, d) in act['changes'].items()}}
        self.check(v['id'] not in [x['id'] for x in m.versions] + ['root', None], 'commit returned no new version id', 'C01', 'C02')
        m.versions.append(v)
        extra = ()
        if act['resumed'] or act['removed']: extra += ('C10',)
        if act['refused']: extra += ('C09',)
        self.ctx.label('commit')
        if act['resumed']: self.ctx.label('commit after resume')
        if act['refused']: self.ctx.label('commit after refused requests')
        if self.light:
            return
        self.check_version(repo, len(m.versions) - 1, extra)
        self.check_objects(repo)

    def empty_leftover(self, repo, act):
        """Objects uploaded and withdrawn again may stay until they are collected: start from what is there."""

    def op_abort(self, i, a, b, c, repo=None):
        repo = repo or self.repos[self.spec[i][2]]
        m = self.model[repo]
        if m.holder != i or m.active is None:
            self.refuse_check(i, repo, 'commit', {'mode': 'abort', 'commit_message': ''}, b'{}')
            return
        self.must('abort', ('C04', 'C09'), self.call, i, 'commit', {'mode': 'abort', 'commit_message': ''}, b'{}', repo=repo)
        if m.active['changes']: self.ctx.label('abort with changes')
        m.active, m.holder = None, None
        self.check_clean(repo, 'an aborted commit')

    def op_full(self, i, a, b, c):
        """A whole commit in one operation (only when nobody holds the lock)."""
        m = self.model[self.repos[self.spec[i][2]]]
        if m.holder is not None and m.holder != i:
            return
        if m.holder is None:
            self.op_begin(i, a, 1, 0, honest_only=True)
        for k in range(1 + c % 3):
            self.op_push(i, a + k, b if k == 0 else (a + k) % 7, c)
        if c in (2, 4, 5):
            self.op_delete(i, a + c, b, c)
        self.op_commit(i, a, b, c)

    # kind of request, and the number of lines in the part where it ends (the first 150 lines look up the session)
    DEATHS = [('commit', 1300), ('commit', 600), ('commit', 1300), ('abort', 350), ('push', 300), ('delete', 200), ('begin', 800), ('commit', 900)]

    def op_die(self, i, a, b, c):
        """The server process ends in the middle of a request, and is started again."""
        repo = self.repos[self.spec[i][2]]
        m = self.model[repo]
        kind, span = self.DEATHS[c % len(self.DEATHS)]
        if m.holder is not None and m.holder != i:
            return
        if kind == 'begin':
            if m.holder is not None:
                return
            rev = m.head() if b % 3 or not m.versions else 'root'
            route, headers, body = 'begin_commit', {'previous_revision': rev, 'user': self.users[self.spec[i][0]]}, b''
        else:
            if m.holder is None:
                self.op_begin(i, a, 1, 0, honest_only=True)
            if not m.active['changes'] and kind in ('commit', 'abort'):
                for k in range(1 + a % 2):
                    self.op_push(i, a + k, b, c)
            if kind == 'push':
                path, data = self.paths[a % len(self.paths)], content(b)
                route, headers, body = 'push_file', {'path': path}, data
            elif kind == 'delete':
                paths = [p for p in self.paths if (hash_of(p) + a) % 2]
                route, headers, body = 'delete_files', {}, js({'files': json.dumps([{'path': p} for p in paths])})
            else:
                route, headers, body = 'commit', {'mode': kind, 'commit_message': 'died %d' % a}, b'{}'
        death = srv.Death(150 + span * hash_of('%d %d %d %d' % (a, b, c, len(m.versions))) // 65536)
        with srv.monitoring():
            try:
                self.call(i, route, headers, body, trace=death)
            except Died as e:
                self.check(death.count >= death.at, '%s: the server dropped the connection: %s' % (route, e), 'C01', 'C10', 'C04')
        self.ctx.label('died in ' + kind if death.count >= death.at else 'survived ' + kind)
        self.op_restart(i, 0, 0, 0)
        act = m.active
        if kind == 'commit':
            r = self.must('list_versions', ('C02', 'C01', 'C08'), self.read, repo, 'list_versions', {})
            ids = [v['id'] for v in r.json()['versions']]
            if ids[:1] not in ([], [m.head()]):
                self.ctx.label('died commit counts')
                self.committed(repo, act, ids[0], 'died %d' % a)
            else:
                self.check(death.count >= death.at or not act['changes'], 'a commit that was confirmed is gone', 'C01')
        elif act is None:
            pass
        elif kind == 'push':
            self.loosen(act, path, data)
        elif kind == 'delete':
            for p in paths:
                if p in act['changes'] or p in act.get('loose', {}):
                    self.loosen(act, p, None)
        else:           # abort or begin
            act['gone'] = True

    @staticmethod
    def loosen(act, path, data):
        """Whether the request took effect is not known: the upload is what it was or this."""
        alts = act.setdefault('loose', {}).setdefault(path, [])
        cur = act['changes'].get(path)
        for d in (data, cur[1] if cur is not None and cur[0] != 'deleted' else None):
            if d not in alts:
                alts.append(d)

    def op_many(self, i, a, b, c):
        """A row of small commits, sometimes a long one."""
        m = self.model[self.repos[self.spec[i][2]]]
        if m.holder is not None:
            self.op_close(m.holder, 0, 0, 0)
        n = (2, 3, 4, 5, 6, 9, 14, 56)[c % 8]
        if len(m.versions) + n > 75:
            n = 2
        self.light = True
        try:
            for k in range(n):
                self.op_begin(i, a, 1, 0, honest_only=True)
                if m.holder != i:
                    return
                p = self.paths[(a + k // 2 % 2) % len(self.paths)]      # few of them: others stay as they are for long
                if k == 0:
                    self.op_push(i, a + 2, 'once %d' % a, c)
                if k % 4 == 3 and p in m.head_files():
                    self.op_delete(i, a, b, c, paths=[p])
                else:
                    self.op_push(i, a, 'version %d %d' % (a, k), c, path=p)
                self.op_commit(i, a, b, k)
        finally:
            self.light = False
        if m.versions:
            self.check_version(self.repos[self.spec[i][2]], len(m.versions) - 1)
        if n > 50:
            self.ctx.label('a long history')

    def op_bulk(self, i, a, b, c):
        """A commit of many files, or one that deletes many (most of them unknown)."""
        m = self.model[self.repos[self.spec[i][2]]]
        if m.holder is not None and m.holder != i:
            return
        if m.holder is None:
            self.op_begin(i, a, 1, 0, honest_only=True)
            if m.holder != i:
                return
        if c % 2:
            known = sorted(m.head_files())[a % 3:]
            unknown = ['/no/such/%d' % k for k in range((3, 60, 1100)[a % 3])]
            self.op_delete(i, a, b, c, paths=unknown[:len(unknown) // 2] + known + unknown[len(unknown) // 2:])
        else:
            n = (12, 18, 30, 110)[c // 2]
            for k in range(n):
                self.op_push(i, a, k % 7, c, path='/bulk%s/%s%d' % ('/x' * (a % 2 * 30), 'name' * (60 if a > 7 else 1), k))
            self.ctx.label('%d files at once' % n)
        if a % 4 != 3:
            self.op_commit(i, a, b, c)

    ENDS = ['commit', 'close', 'abort', 'open', 'restart', 'commit', 'close', 'commit']

    def op_session(self, i, a, b, c):
        """Begin or resume, push and delete several files, and end in one of several ways."""
        m = self.model[self.repos[self.spec[i][2]]]
        if m.holder is not None and m.holder != i:
            return
        if m.holder is None:
            self.op_begin(i, a, 1, 0, honest_only=True)
        bb = b if isinstance(b, int) else 3
        for k in range((bb + a) % 3):
            self.op_push(i, a + k, b if k == 0 else (a + k) % 7, c)
        known = sorted(m.head_files())
        if known and (a + bb) % 2:
            self.op_delete(i, a, b, c, paths=[known[(a + k) % len(known)] for k in range(1 + a % 2)])
        if a >= 7:
            self.op_push(i, a + c, (a * 3 + c) % 9, c)
        end = self.ENDS[c % len(self.ENDS)]
        if end != 'open':
            getattr(self, 'op_' + end)(i, a, b, a)

    def op_close(self, i, a, b, c):
        if self.conns[i] is not None and self.conns[i].open:
            m = self.model[self.repos[self.spec[i][2]]]
            if m.holder == i: self.ctx.label('closed while committing')
            self.conns[i].close()
        self.dropped(i)

    def stop(self):
        """The server process ends."""
        self.sim.shutdown()
        self.reader = None
        self.conns = [None] * len(self.spec)
        for m in self.model.values():
            m.holder = None

    def op_restart(self, i, a, b, c):
        self.sim.restart()
        self.reader = None
        self.conns = [None] * len(self.spec)
        for m in self.model.values():
            m.holder = None

    def op_check(self, i, a, b, c):
        self.check_repo(self.repos[self.spec[i][2]], full=True)

    def op_other(self, i, a, b, c):
        """A mutating request of this connection against another repository than the one it works on."""
        others = [r for r in self.repos if r != self.repos[self.spec[i][2]]]
        if not others:
            return
        repo = others[a % len(others)]
        if self.model[repo].holder == i:
            return
        if self.model[self.repos[self.spec[i][2]]].holder == i:
            self.ctx.label('foreign request by a lock holder')
            if self.model[repo].active is not None:
                self.ctx.label('foreign request onto an open commit')
        kind = c % 4
        if kind == 0:   self.op_push(i, a, b, c, repo=repo)
        elif kind == 1: self.op_delete(i, a, b, c, repo=repo)
        elif kind == 2: self.op_commit(i, a, b, 1, repo=repo)
        else:           self.op_abort(i, a, b, c, repo=repo)

    # -------------------------------------------------------- oracles
    def refuse_check(self, i, repo, route, headers, body):
        m = self.model[repo]
        before = set(objects(self.sim.path(repo)))
        ok, died = self.refused(self.call, i, route, headers, body, repo=repo)
        if died:
            self.dropped(i)
        self.check(ok, '%s (%s) was accepted from a connection without the lock' % (route, headers.get('mode', '')), 'C09', 'C08')
        self.check(set(objects(self.sim.path(repo))) == before, 'a refused %s changed the stored objects' % route, 'C09')
        self.ctx.label('refused ' + route)
        if m.active:
            m.active['refused'] += 1
            self.ctx.label('refused while a commit is open')

    def check_clean(self, repo, what):
        m = self.model[repo]
        path = self.sim.path(repo)
        now = set(objects(path))
        left = now - m.snap
        self.check(not left, '%s left objects behind: %r' % (what, sorted(left)[:5]), 'C04')
        try:
            need = reachable(path)
        except (OSError, ValueError) as e:
            self.check(False, '%s broke the history: %s' % (what, e), 'C04', 'C01', 'C05')
        gone = need - now
        self.check(not gone, '%s removed objects of a version: %r' % (what, sorted(gone)[:5]), 'C04', 'C01', 'C05')
        self.ctx.label('checked clean')

    def check_objects(self, repo):
        path = self.sim.path(repo)
        m = self.model[repo]
        objs = objects(path)
        for name, full in objs.items():
            with open(full, 'rb') as f:
                data = f.read()
            self.check(sha(data) == name.split('/')[1], 'object %s is not stored under its hash' % name, 'C05')
        for v in m.versions:
            for p, d in v['files'].items():
                h = 'files/' + sha(d)
                self.check(h in objs, 'the content of %r in version %s is gone from the store' % (p, v['id'][:8]), 'C05', 'C01')
        if not hasattr(m, 'kept'):
            m.kept = set()
        gone = m.kept - set(objs)
        self.check(not gone, 'objects of committed versions were removed: %r' % sorted(gone)[:3], 'C05', 'C04')
        # every regular file of the store outside the bookkeeping is an object
        m.kept |= reachable(path)

    def check_chain(self, repo):
        m = self.model[repo]
        r = self.must('list_versions', ('C02', 'C01', 'C08'), self.read, repo, 'list_versions', {})
        got = r.json()['versions']
        want = [v['id'] for v in reversed(m.versions)]
        ids = [g['id'] for g in got]
        self.check(ids == want[:len(ids)] and (len(ids) == len(want) or len(ids) >= 50),
                   'version list is %r, expected %r' % ([x[:8] for x in ids], [x[:8] for x in want]), 'C02', 'C08')
        for g, v in zip(got, reversed(m.versions)):
            self.check(g['commit_by'] == v['user'], 'version by %r is listed as by %r' % (v['user'], g['commit_by']), 'C02')
            if v['msg'] != '':
                self.check(g['commit_message'] == v['msg'], 'commit message %r became %r' % (v['msg'], g['commit_message']), 'C02')

    def listing(self, repo, version_id, head=False):
        r = self.must('list_files', ('C01',), self.read, repo, 'list_files',
                      {'show_head': '1' if head else '0', 'version_id': version_id})
        return {p: f['hash'] for p, f in r.json()['files'].items()}, r.json()['files']

    def check_version(self, repo, k, extra=(), contents=True):
        m = self.model[repo]
        v = m.versions[k]
        got, raw = self.listing(repo, v['id'])
        want = {p: sha(d) for p, d in v['files'].items()}
        if got != want:
            diff = {p: (got.get(p), want.get(p)) for p in set(got) | set(want) if got.get(p) != want.get(p)}
            self.check(False, 'version %d lists wrong files (got, expected): %r' % (k, diff), 'C01', *extra)
        self.check(all(f.get('path', p) == p for p, f in raw.items()), 'listed file entries name other paths', 'C01')
        if k == len(m.versions) - 1:
            got, _ = self.listing(repo, v['id'], head=True)
            self.check(got == want, 'newest version lists wrong files', 'C01', *extra)
        if contents:
            some = sorted(v['files'].items())
            if len(some) > 30:
                some = [(p, d) for n, (p, d) in enumerate(some) if n % 9 == k % 9 or p in self.paths]
            for p, d in some:
                r = self.must('pull_file', ('C01',), self.read, repo, 'pull_file', {'path': p, 'use_head': '0', 'version_id': v['id']})
                self.check(r.body == d, 'version %d returns wrong bytes for %r' % (k, p), 'C01', 'C05', *extra)
                info = json.loads(r.headers['file_info_json'])
                self.check(info['hash'] == sha(d) and info['path'] == p, 'pull_file describes %r wrongly: %r' % (p, info), 'C01')
            for p in self.paths + ['/no such file', '/']:
                if p not in v['files']:
                    ok, _ = self.refused(self.read, repo, 'pull_file', {'path': p, 'use_head': '0', 'version_id': v['id']})
                    self.check(ok, 'a path that is not in the version was served: %r' % p, 'C01')
        r = self.must('list_changes', ('C02',), self.read, repo, 'list_changes', {'show_head': '0', 'version_id': v['id']})
        ch = r.json()['changes']
        self.check(len(ch) == len({c['path'] for c in ch}), 'a path occurs twice in the change log', 'C02')
        got = {c['path']: c['status'] for c in ch}
        self.check(got == v['changes'], 'change log of version %d is %r, expected %r' % (k, got, v['changes']), 'C02')
        for c in ch:
            if c['status'] != 'deleted':
                self.check(c['hash'] == v['hashes'][c['path']], 'change log carries a wrong hash', 'C02')

    def check_since(self, repo, k, unchanged):
        """Changes between version k (-1 = root) and the newest one, applied to k, give the newest one."""
        m = self.model[repo]
        rev = 'root' if k < 0 else m.versions[k]['id']
        body = js({'client_changes': json.dumps({})})
        r = self.must('find_changed', ('C02',), self.read, repo, 'find_changed',
                      {'previous_revision': rev, 'include_unchanged': '1' if unchanged else '0'}, body)
        res = r.json()
        self.check(res['head'] == m.head(), 'find_changed names another head', 'C02', 'C08')
        if m.head() == 'root':
            return
        self.check(res['commit_by'] == m.versions[-1]['user'], 'find_changed names another committer', 'C02')
        sc = res['sorted_changes']
        state = {} if k < 0 else {p: sha(d) for p, d in m.versions[k]['files'].items()}
        touched = set()
        for v in m.versions[k + 1:]:
            touched |= set(v['changes'])
        seen = set()
        for key, infos in sc.items():
            for f in infos:
                p = f['path']
                self.check(p not in seen, 'a path occurs twice in the reported changes', 'C02')
                seen.add(p)
                if key == 'client_pull_files':
                    if f['status'] != 'unchanged':
                        self.check(p in touched, 'an untouched path is reported as changed: %r' % p, 'C02')
                        state[p] = f['hash']
                    else:
                        self.check(p not in touched and state.get(p) == f['hash'], '%r is reported unchanged' % p, 'C02')
                elif key == 'to_delete_on_client':
                    self.check(p in touched, 'an untouched path is reported as deleted: %r' % p, 'C02')
                    state.pop(p, None)
                else:
                    self.check(False, 'a client without changes is told %s: %r' % (key, p), 'C02')
        want = {p: sha(d) for p, d in m.head_files().items()}
        self.check(state == want, 'changes since version %d do not lead to the newest version' % k, 'C02')
        if unchanged:
            missing = set(want) - seen
            self.check(not missing, 'unchanged files missing from the full list: %r' % sorted(missing), 'C02')

    def check_repo(self, repo, full=False):
        m = self.model[repo]
        self.check_chain(repo)
        for k in range(len(m.versions)):
            self.check_version(repo, k)
        for k in range(-1, len(m.versions)):
            self.check_since(repo, k, (k + len(m.versions)) % 2 == 0)
        self.check_objects(repo)
