import hashlib, json, os, sys
import vh.boot as boot
from hypothesis import strategies as st
from vh import core, srv
from vh.repo_machine import objects, sha
from vh.srv import Died, js

LEVEL = 'exploration'
RULE = ('a sequence in which at least one hostile path, identifier or list (dot components, absolute or encoded paths, names of '
        'internal files, ids of other objects, malformed lists) reached the server and at least one commit was completed after it')
BUDGET = {'quick': 3200, 'thorough': 80000}
ASSUMPTIONS = ['the checking process is unprivileged; hostile absolute paths point at sentinel files in its scratch directory']

SENTINEL = b'SENTINEL-7f3a9c-outside'

COMP = st.sampled_from(['..', '..', '..', '.', '', 'a', 'd', 'index', 'files', 'head', 'new_head', 'tmp_file', 'index_tmp', 'lock_file',
                        'server_transient.db', 'repo1', 'repo0', 'outside', 'secret', '...', '.. ', ' ..', '..;', '%2e%2e', '%2E.', '..%2f',
                        '\u002e\u002e', '\uff0e\uff0e', '..\\', '\\', '..\x00', '~', '$HOME', '*', 'C:', '.bvn', 'etc', 'passwd', 'deep'])
SEP = st.sampled_from(['/', '/', '/', '/', '//', '\\', '/./', '/../'])
PRE = st.sampled_from(['/', '/', '', '@ROOT@/', '@OUT@/', '@REPO@/', '@REPO1@/', '//', '\\', 'file://', '../', './'])
KNOWN = st.sampled_from(['/a', '/d/b', '/d/deep/c', '/secret', '@OUT@/secret', '../../outside/secret', '/../../outside/secret',
                         '../repo1/head', '/../head', '@REPO@/head', '@REPO1@/secret', '/d/../a', '/./a', '/d/./b', '/d//b', 'a', 'd/b', '', '/'])

@st.composite
def hostile_path(draw):
    if draw(st.integers(0, 3)) == 0:
        p = draw(KNOWN)
    else:
        comps = draw(st.lists(COMP, min_size=1, max_size=6))
        p = draw(PRE) + comps[0]
        for c in comps[1:]:
            p += draw(SEP) + c
    if draw(st.integers(0, 9)) == 0:      # byte-level mutation
        i = draw(st.integers(0, len(p)))
        p = p[:i] + draw(st.text(st.characters(max_codepoint=0x2ff, exclude_categories=['Cs']), min_size=1, max_size=2)) + p[i:]
    return p


def version_ids():
    sym = st.sampled_from(['@HEAD@', '@FIRST@', '@TREE@', '@FILE@', '@COMMIT1@', '@SUBTREE@'])
    lit = st.sampled_from(['', 'root', '.', '..', '/', 'a', 'ab', '@H2@', '0' * 64, 'f' * 64, '0' * 63, 'head', '../head', '../files', 'A' * 64])
    mut = st.tuples(sym, st.sampled_from(['+', '-', 'up', '/', '../', 'nul', 'nl', 'pre', 'split', 'abs'])).map(lambda t: t[0] + '|' + t[1])
    junk = st.text(st.sampled_from('0123456789abcdefG/.\\ \x00'), max_size=70)
    return st.one_of(sym, sym, lit, mut, junk, hostile_path())


def json_junk():
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from(['/a', '/d/b', 'path', '', '..', '/d/../a']), hostile_path())
    item = st.one_of(st.fixed_dictionaries({'path': st.one_of(st.sampled_from(['/a', '/d/b', '/d/deep/c']), hostile_path())}),
                     st.fixed_dictionaries({'path': leaf}), st.just({}), leaf, st.lists(leaf, max_size=2),
                     st.fixed_dictionaries({'path': st.fixed_dictionaries({'x': leaf})}), st.fixed_dictionaries({'path': st.lists(leaf, max_size=2)}))
    return st.one_of(st.lists(item, max_size=4), st.lists(item, max_size=4), item)


def strategy(tier):
    pull = st.tuples(st.just('pull'), hostile_path(), st.one_of(st.just('@HEAD@'), version_ids()), st.booleans()).map(list)
    lst = st.tuples(st.sampled_from(['list_files', 'list_changes']), version_ids()).map(list)
    fc = st.tuples(st.just('find_changed'), version_ids(), st.booleans(), json_junk()).map(list)
    begin = st.tuples(st.just('begin'), st.one_of(st.just('@HEAD@'), st.just('@HEAD@'), version_ids())).map(list)
    push = st.tuples(st.just('push'), hostile_path(), st.integers(0, 6)).map(list)
    dele = st.tuples(st.just('delete'), json_junk()).map(list)
    rawd = st.tuples(st.just('rawdelete'), st.sampled_from(['', '{', '[]', '{"files": "["}', '{"files": []}', '{"files": 5}', 'null', '{}'])).map(list)
    commit = st.tuples(st.just('commit'), st.sampled_from(['commit', 'commit', 'commit', 'abort', '../x', ''])).map(list)
    route = st.tuples(st.just('route'), st.sampled_from(['', '../pull_file', 'nothing', '__init__', 'pull_file/../x', '\x00'])).map(list)
    repo = st.tuples(st.just('repo'), st.sampled_from(['repo1', '../repo1', '', '@REPO1@', 'repo0/', './repo0', 'repo0\x00'])).map(list)
    op = st.one_of(pull, pull, lst, lst, fc, begin, push, push, push, dele, dele, rawd, commit, route, repo)
    return st.fixed_dictionaries({'ops': st.lists(op, min_size=3, max_size=16 if tier == 'quick' else 30), 'hold': st.booleans()})


# ------------------------------------------------------------------ which files the server touches
_watch = {'on': False, 'events': []}
_installed = [False]

def _hook(event, args):
    if _watch['on'] and event in ('open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.listdir', 'os.scandir', 'shutil.move',
                                  'shutil.copyfile', 'shutil.rmtree', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime'):
        for a in args[:2]:
            if isinstance(a, bytes):
                a = os.fsdecode(a)
            if isinstance(a, str) and len(a) > 1 and ('/' in a or event == 'open'):
                _watch['events'].append((event, a))
                if event in ('open', 'os.listdir', 'os.scandir', 'os.remove', 'os.rmdir', 'os.mkdir'):
                    break


def install():
    if not _installed[0]:
        _installed[0] = True
        sys.addaudithook(_hook)


SYSTEM = tuple(os.path.realpath(p) + os.sep for p in {sys.prefix, sys.base_prefix, '/usr/lib', '/usr/share', boot.REPO, core.VERIF, boot.HYP}) + \
    ('/dev/urandom', '/etc/localtime', '/dev/null')


class Runner:
    def __init__(self, plan, ctx):
        install()
        self.ctx, self.plan = ctx, plan
        self.sim = srv.Sim(ctx, ['mallory', 'victim', 'good'], ['repo0', 'repo1'], grants={'mallory': ['repo0'], 'victim': ['repo1'], 'good': ['repo0', 'repo1']})
        self.repo, self.repo1 = self.sim.path('repo0'), self.sim.path('repo1')
        self.out = os.path.join(self.sim.root, 'outside')
        os.makedirs(self.out + '/deep')
        for p in ('secret', 'head', 'a', 'deep/secret'):
            with open(os.path.join(self.out, p), 'wb') as f:
                f.write(SENTINEL)
        for p in ('secret', 'a', 'b'):
            with open(os.path.join(self.sim.root, 'repos', p), 'wb') as f:
                f.write(SENTINEL)
        self.versions = []
        self.tok = {}
        c = self.good = self.sim.connect('10.1.1.1')
        for u, r in (('good', 'repo0'), ('good', 'repo1')):
            self.tok[u, r] = self.sim.login(c, u, r)
        self.commit_as_good('repo1', {'/a': SENTINEL + b' repo1', '/secret': SENTINEL})
        self.id1 = self.head('repo1')
        self.commit_as_good('repo0', {'/a': b'aaa', '/d/b': b'bbb'})
        self.commit_as_good('repo0', {'/d/deep/c': b'ccc'})
        self.mal = self.connect()
        self.hostile = False
        self.outside0 = self.outside()

    def connect(self):
        c = self.sim.connect('10.6.6.6')
        if ('mallory', 'repo0') not in self.tok:
            self.tok['mallory', 'repo0'] = self.sim.login(c, 'mallory', 'repo0')
        return c

    def head(self, repo):
        with open(os.path.join(self.sim.path(repo), 'head')) as f:
            return f.read()

    def commit_as_good(self, repo, files):
        c = self.good
        h = {'session_token': self.tok['good', repo], 'repository': repo, 'user': 'good'}
        r = c.request('begin_commit', dict(h, previous_revision=self.sim_head(repo)), b'{}')
        self.ctx.check(r.ok, 'an honest client can not begin a commit: %r' % r)
        for p, d in files.items():
            self.ctx.check(c.request('push_file', dict(h, path=p), d).ok, 'an honest client can not push')
        r = c.request('commit', dict(h, mode='commit', commit_message='m'), b'{}')
        self.ctx.check(r.ok, 'an honest client can not commit')
        if repo == 'repo0':
            base = dict(self.versions[-1][1]) if self.versions else {}
            base.update({p: sha(d) for p, d in files.items()})
            self.versions.append((r.headers['head'], base))

    def sim_head(self, repo):
        p = os.path.join(self.sim.path(repo), 'head')
        return self.head(repo) if os.path.exists(p) else 'root'

    def outside(self):
        """Everything under the scratch root that is not repo0's own."""
        snap = {}
        for base, dirs, files in os.walk(self.sim.root):
            if base == self.repo:
                dirs[:] = []
                continue
            for f in files:
                p = os.path.join(base, f)
                if base == self.repo1 and (f.startswith('server_transient') or f == 'lock_file'):
                    continue
                with open(p, 'rb') as fh:
                    snap[p] = hashlib.sha256(fh.read()).hexdigest()
            for d in dirs:
                snap[os.path.join(base, d)] = 'dir'
        return snap

    # ------------------------------------------------------------
    def fill(self, s):
        for k, v in (('@ROOT@', self.sim.root), ('@OUT@', self.out), ('@REPO@', self.repo), ('@REPO1@', self.repo1)):
            s = s.replace(k, v)
        return s

    def version(self, s):
        mut = None
        if '|' in s and s.startswith('@'):
            s, mut = s.split('|')
        def tree(i):
            with open(os.path.join(self.repo, 'index', i[:2], i[2:])) as f:
                return json.load(f)
        if s == '@HEAD@': s = self.versions[-1][0]
        elif s == '@FIRST@': s = self.versions[0][0]
        elif s == '@TREE@': s = tree(self.versions[0][0])['tree_root']
        elif s == '@SUBTREE@': s = tree(tree(self.versions[0][0])['tree_root'])['dirs']['d']
        elif s == '@FILE@': s = sha(b'aaa')
        elif s == '@COMMIT1@': s = self.id1
        elif s == '@H2@': s = self.versions[0][0][:2]
        else: s = self.fill(s)
        if mut == '+': s += '0'
        if mut == '-': s = s[:-1]
        if mut == 'up': s = s.upper()
        if mut == '/': s += '/'
        if mut == '../': s = '../index/' + s
        if mut == 'nul': s += '\x00'
        if mut == 'nl': s += '\n'
        if mut == 'pre': s = s[:10]
        if mut == 'split': s = s[:2] + '/' + s[2:]
        if mut == 'abs': s = os.path.join(self.repo, 'index', s[:2], s[2:])
        return s

    def ask(self, route, headers, body=b'{}', repo='repo0', what=''):
        if not self.mal.open:
            self.mal = self.connect()
        h = {'session_token': self.tok['mallory', 'repo0'], 'repository': repo, 'user': 'mallory'}
        h.update(headers)
        _watch['events'] = []
        _watch['on'] = True
        try:
            r = self.mal.request(route, h, body)
        except Died as e:
            r = e
            self.began = False
        finally:
            _watch['on'] = False
        self.ctx.label(route if len(route) < 16 else 'route')
        allowed = os.path.realpath(self.repo) + os.sep
        for event, p in _watch['events']:
            full = os.path.realpath(p)
            if not (full + os.sep).startswith(allowed) and not full.startswith(SYSTEM):
                self.ctx.check(False, '%s: the server touched %s (%s)' % (what, p.replace(self.sim.root, '<scratch>'), event))
        if not isinstance(r, Died):
            blob = json.dumps(r.headers).encode() + r.body
            self.ctx.check(SENTINEL not in blob and b'SENTINEL' not in blob, '%s discloses a file outside of the repository' % what)
            for p in self.sim.served:
                self.ctx.check(os.path.realpath(p).startswith(allowed + 'files' + os.sep), '%s: served %s' % (what, p))
        self.sim.served = []
        self.ctx.check(self.outside() == self.outside0, '%s changed files outside of the repository' % what)
        return r

    def ok(self, r):
        return not isinstance(r, Died) and r.ok

    began = False

    def step(self, op):
        kind = op[0]
        if kind == 'pull':
            path, ver = self.fill(op[1]), self.version(op[2])
            r = self.ask('pull_file', {'path': path, 'use_head': '1' if op[3] else '0', 'version_id': ver}, what='pull_file %r' % op[1:])
            if op[3]: ver = self.versions[-1][0]
            files = dict(self.versions).get(ver)
            known = files is not None and (path in files or '/' + path in files)
            if known:
                self.ctx.check(self.ok(r), 'a file of the version was refused: %r' % op)
                self.ctx.check(sha(r.body) == files[path if path in files else '/' + path], 'wrong content for %r' % op)
            else:
                self.hostile = True
                self.ctx.check(not self.ok(r), 'pull_file served path %r of version %r, which does not exist' % (op[1], op[2]))
        elif kind in ('list_files', 'list_changes'):
            ver = self.version(op[1])
            r = self.ask(kind, {'show_head': '0', 'version_id': ver}, what='%s %r' % (kind, op[1]))
            if ver in dict(self.versions):
                self.ctx.check(self.ok(r), 'an existing version was refused')
            else:
                self.hostile = True
                self.ctx.check(not self.ok(r), '%s accepted %r, which is no version' % (kind, op[1]))
        elif kind == 'find_changed':
            ver = self.version(op[1])
            r = self.ask('find_changed', {'previous_revision': ver, 'include_unchanged': '1' if op[2] else '0'},
                         js({'client_changes': json.dumps({} if len(op) < 4 or ver not in dict(self.versions) else op[3])}), what='find_changed %r' % op[1])
            if ver not in dict(self.versions) and ver != 'root':
                self.hostile = True
                self.ctx.check(not self.ok(r), 'find_changed accepted %r, which is no version' % op[1])
        elif kind == 'begin':
            ver = self.version(op[1])
            r = self.ask('begin_commit', {'previous_revision': ver}, what='begin_commit %r' % op[1])
            if ver != self.versions[-1][0]:
                self.hostile = True
                self.ctx.check(not self.ok(r), 'begin_commit accepted %r' % op[1])
            if self.ok(r): self.began = True
        elif kind == 'push':
            if not self.began:
                self.step(['begin', '@HEAD@'])
            path = self.fill(op[1])
            r = self.ask('push_file', {'path': path}, b'evil %d' % op[2], what='push_file %r' % op[1])
            if any(c in ('.', '..') for c in path.split('/')):
                self.hostile = True
                self.ctx.label('push with dot component')
                self.ctx.check(not self.ok(r), 'a path with dot components was accepted: %r' % op[1])
        elif kind in ('delete', 'rawdelete'):
            if not self.began:
                self.step(['begin', '@HEAD@'])
            if kind == 'delete':
                body = js({'files': json.dumps(self.deep_fill(op[1]))})
            else:
                body = op[1].encode()
            self.hostile = True
            self.ask('delete_files', {}, body, what='delete_files %r' % op[1])
        elif kind == 'commit':
            r = self.ask('commit', {'mode': op[1], 'commit_message': 'x'}, what='commit')
            if self.ok(r):
                self.began = False
                self.note_version()
                if op[1] == 'commit' and self.hostile:
                    self.ctx.nontrivial()
        elif kind == 'route':
            self.hostile = True
            r = self.ask(op[1], {'path': '/a', 'use_head': '1'}, what='route %r' % op[1])
        elif kind == 'repo':
            self.hostile = True
            r = self.ask('list_versions', {}, repo=self.fill(op[1]), what='repository %r' % op[1])
            self.ctx.check(not self.ok(r), 'repository %r was opened' % op[1])
        self.history('%r' % (op,))

    def deep_fill(self, x):
        if isinstance(x, str): return self.fill(x)
        if isinstance(x, list): return [self.deep_fill(i) for i in x]
        if isinstance(x, dict): return {k: self.deep_fill(v) for k, v in x.items()}
        return x

    def note_version(self):
        """A commit by mallory made a version: whatever it is, it is history from now on."""
        h = self.head('repo0')
        if h != self.versions[-1][0]:
            r = self.ask_good('list_files', {'show_head': '0', 'version_id': h})
            self.versions.append((h, {p: f['hash'] for p, f in r.json()['files'].items()}))

    def ask_good(self, route, headers):
        h = {'session_token': self.tok['good', 'repo0'], 'repository': 'repo0', 'user': 'good'}
        h.update(headers)
        if not self.good.open:
            self.good = self.sim.connect('10.1.1.1')
        try:
            r = self.good.request(route, h, b'{}')
        except Died as e:
            self.ctx.check(False, 'an honest client is not served any more (%s): %s' % (route, e))
        self.ctx.check(r.ok, 'an honest client is not served any more (%s): %r' % (route, r))
        return r

    def history(self, what, contents=False):
        r = self.ask_good('list_versions', {})
        self.ctx.check([v['id'] for v in r.json()['versions']] == [v for v, _ in reversed(self.versions)], '%s altered the version list' % what)
        for v, files in self.versions if contents else self.versions[:1]:
            r = self.ask_good('list_files', {'show_head': '0', 'version_id': v})
            self.ctx.check({p: f['hash'] for p, f in r.json()['files'].items()} == files, '%s altered a version' % what)
            if contents:
                for p, h in files.items():
                    if p.startswith('/') and len(p) > 1:
                        r = self.ask_good('pull_file', {'path': p, 'use_head': '0', 'version_id': v})
                        self.ctx.check(sha(r.body) == h, '%s altered the content of %r' % (what, p))

    def run(self):
        for op in self.plan['ops']:
            self.step(op)
        if self.plan['hold'] and self.began:
            self.mal.close()
        elif self.began and self.mal.open:
            self.ask('commit', {'mode': 'commit', 'commit_message': 'y'}, what='commit')
            self.note_version()
            if self.hostile:
                self.ctx.nontrivial()
        self.mal.close()
        self.history('the sequence', contents=True)
        self.commit_as_good('repo0', {'/after': b'after'})
        self.history('the sequence', contents=True)


def execute(plan, ctx):
    Runner(plan, ctx).run()
