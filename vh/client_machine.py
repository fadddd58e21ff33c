"""Working copies: the real client commands, each in a process of its own, against the real server code.

A command is `bvn <args>` (bversion.client.run) in a forked child.  In the child only the socket is replaced (by a pipe to
this process, which hands every request to vh.srv) and the terminal (answers come from here).  This process sees every
request and prompt, may change files, lose the connection or kill the child at any of them, and keeps a model of what
every version and every working copy holds.

Plans are lists of integers reduced modulo whatever they select, so every plan is executable."""
import base64, fnmatch, io, json, multiprocessing.connection, os, re, shutil, signal, sqlite3, sys

import vh.boot as boot
from vh import core, crash, srv
from vh.repo_machine import content, hash_of, path_pool, CONTENTS, sha
from vh.srv import Died, js

from bversion import client as bclient
from bversion.http import client_http_request as chr_mod
from bversion.http.http_common import generate_headers, parse_headers, read_body

from hypothesis import strategies as st

boot.check_module_location(bclient)

HOST = 'server.example'
ANSI = re.compile(r'\x1b\[[0-9;]*m')
REPO = 'repo'
NEVER = float('nan')


# ------------------------------------------------------------------ the child's side
class Terminal(io.StringIO):
    def isatty(self):
        return False


class PipeHTTP:
    """Stands in for bversion.http.http_client.HTTPClient."""
    pipe = None
    stops = None

    def connect(self, host, port, tls=False):
        self.pipe.send(('connect', host, port, bool(tls)))
        if self.pipe.recv() != 'ok':
            raise ConnectionRefusedError(111, 'Connection refused')

    def send_headers(self, uri, headers):
        self.uri, self.raw, self.out = uri, generate_headers(headers), []
        self.pipe.send(('head', uri))
        self.pipe.recv()

    def send(self, data):
        self.out.append(bytes(data))
        self.pipe.send(('chunk', self.uri, sum(map(len, self.out))))
        self.pipe.recv()

    def read_responce(self):
        self.pipe.send(('rq', self.uri, self.raw, b''.join(self.out)))
        res = self.pipe.recv()
        if self.stops:
            self.stops.next_request()
        if res[0] == 'dead':
            raise Exception('Socket closed')
        _, raw, length, body = res
        return ({'protocol': b'HTTP/1.1', 'status': [b'200'], 'headers': parse_headers(raw.split(b'\r\n')[:-1])},
                read_body(io.BytesIO(body).read, length, b''))

    def close(self):
        pass


class LineStops:
    """Makes the client wait at generated lines: {number of the last request (-1: none yet): [lines executed since]}"""
    def __init__(self, pipe, stops):
        self.pipe, self.stops = pipe, {int(k): set(v) for k, v in stops.items()}
        self.request, self.count = -1, 0
        self.due = self.stops.get(-1)

    def next_request(self):
        self.request += 1
        self.count = 0
        self.due = self.stops.get(self.request)

    def trace(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(core.SUT_PREFIX) else None

    def local(self, frame, event, arg):
        if event == 'line' and self.due is not None:
            self.count += 1
            if self.count in self.due:
                self.pipe.send(('line', self.request, self.count, self.mentioned(frame)))
                self.pipe.recv()
        return self.local

    @staticmethod
    def mentioned(frame):
        """Strings the client is dealing with at the moment, innermost first: some may be names of files."""
        out = []
        while frame is not None and len(out) < 200:
            if frame.f_code.co_filename.startswith(core.SUT_PREFIX):
                for v in list(frame.f_locals.values()):
                    if isinstance(v, dict):
                        v = v.get('path')
                    if isinstance(v, str) and v not in out:
                        out.append(v)
            frame = frame.f_back
        return out


def child_main(pipe, args, cwd, armed, api, wire=None, stops=None):
    null = os.open(os.devnull, os.O_RDWR)
    for fd in os.listdir('/proc/self/fd'):
        fd = int(fd)
        if fd > 2 and fd not in (null, pipe.fileno()):
            try: os.dup2(null, fd)
            except OSError: pass
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.alarm(60)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, 15)        # a loop that gets nowhere
    out = sys.stdout = Terminal()
    import builtins, getpass

    def ask(kind):
        def f(prompt='', *a, **k):
            pipe.send(('ask', kind, out.getvalue()))
            ans = pipe.recv()
            if ans is None:
                raise EOFError('EOF when reading a line')
            return ans
        return f
    builtins.input = ask('input')
    getpass.getpass = ask('getpass')
    PipeHTTP.pipe = pipe
    if wire is None:
        chr_mod.HTTPClient = PipeHTTP
    else:
        wire()
    sys.argv = ['bvn'] + args
    val = None
    try:
        os.chdir(cwd)
        if armed is not None:
            crash.arm(*armed)
        if stops:
            PipeHTTP.stops = LineStops(pipe, stops)
            sys.settrace(PipeHTTP.stops.trace)
        try:
            val = bclient.run() if api is None else api(bclient)
            res = ('done', None)
        except SystemExit as e:
            res = ('exit', str(e.code))
        except BaseException as e:      # pylint: disable=broad-except
            if not core.from_sut(e) or type(e).__name__ == 'Hangs':
                import traceback
                res = ('error', traceback.format_exc()[-3000:])
            else:
                res = ('raised', core.describe(e))
        n = 0
        if armed is not None:
            n = crash.count()
            crash.off()
        pipe.send(('end', res[0], res[1], ANSI.sub('', out.getvalue()), n, val))
    finally:
        os._exit(0)


# ------------------------------------------------------------------ this side
class Result:
    """How a command ended: done, exit (SystemExit with a message), raised, killed."""
    def __init__(self):
        self.how, self.msg, self.out, self.points, self.value = None, None, '', 0, None
        self.requests, self.prompts = [], []
        self.lost = False          # a fault was injected
    @property
    def ok(self):
        return self.how == 'done'
    def __repr__(self):
        return '%s %s' % (self.how, self.msg)


class Server:
    """What a client process can reach."""
    def __init__(self, sim):
        self.sim = sim

    def run(self, args, cwd, ip='10.0.0.1', answer=None, hook=None, armed=None, api=None, reach=True, wire=None, stops=None):
        """Run a command.  answer(kind, printed so far) supplies input (None: end of file).
        hook(when, number, route, headers, body) is called for 'head' / 'chunk' / 'before' / 'after' of every request, for 'line' of every stop and
        may return 'kill', 'drop', ('cut', n) or 'fail'."""
        res = Result()
        here, there = multiprocessing.connection.Pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                here.close()
                child_main(there, args, cwd, armed, api, wire, stops)
            finally:
                os._exit(1)
        there.close()
        conn = None
        dead = False
        n = 0

        def stop():
            os.kill(pid, signal.SIGKILL)
        status = None
        try:
            while True:
                try:
                    msg = here.recv()
                except (EOFError, ConnectionResetError):
                    break
                kind = msg[0]
                if kind == 'end':
                    res.how, res.msg, res.out, res.points, res.value = msg[1:]
                    continue
                if kind == 'connect':
                    res.address = msg[1:]
                    good = reach and msg[1] == HOST
                    here.send('ok' if good else 'no')
                    if good:
                        conn = self.sim.connect(ip)
                    continue
                if kind == 'ask':
                    text = ANSI.sub('', msg[2])
                    res.prompts.append((msg[1], text))
                    here.send(None if answer is None else answer(msg[1], text))
                    continue
                if kind == 'line':
                    hook('line', n, None, None, msg[1:])
                    here.send('ok')
                    continue
                if kind in ('head', 'chunk'):
                    act = hook(kind, n, msg[1].lstrip('/'), None, msg[2:]) if hook and not dead else None
                    if act == 'kill':
                        res.lost = True
                        stop()
                    else:
                        here.send('ok')
                    continue
                _, uri, raw, body = msg
                route = uri.lstrip('/')
                if dead:
                    here.send(('dead',))
                    continue
                headers = parse_headers(raw.split(b'\r\n')[:-1])
                res.requests.append((route, headers))
                act = hook('before', n, route, headers, body) if hook else None
                cut = None
                if act == 'kill' or act == 'drop':
                    res.lost = dead = True
                    conn.close()
                    if act == 'kill':
                        stop()
                    else:
                        here.send(('dead',))
                    n += 1
                    continue
                if isinstance(act, tuple):
                    res.lost, cut = True, act[1] % len(body) if body else None
                want = int(headers['content-length'])
                if want != len(body):
                    stop()
                    raise core.Violation('%s announced a body of %d bytes and sent %d: %s' % (
                        route, want, len(body), 'both sides wait forever' if len(body) < want else 'the rest is taken for the next request'))
                died = None
                if act == 'fail':
                    res.lost = True
                    reply = srv.Reply({'status': 'fail', 'msg': 'injected failure'}, b'{}')
                else:
                    try:
                        reply = conn.request(route, headers, body, cut)
                    except Died as e:
                        died = e
                if died is not None or cut is not None:
                    res.died = died
                    dead = True
                    if conn.open:
                        conn.close()
                    here.send(('dead',))
                    n += 1
                    continue
                act = hook('after', n, route, headers, body) if hook else None
                if act == 'kill' or act == 'drop':
                    res.lost = dead = True
                    conn.close()
                    if act == 'kill':
                        stop()
                    else:
                        here.send(('dead',))
                else:
                    data, length = reply.body, len(reply.body)
                    if isinstance(act, tuple):
                        res.lost = dead = True
                        data = data[:act[1] % length] if length else data
                        conn.close()
                    rawr = generate_headers({'content-length': str(length), **reply.headers})
                    try:
                        here.send(('reply', rawr, length, data))
                    except BrokenPipeError:
                        pass
                n += 1
            _, status = os.waitpid(pid, 0)
        finally:
            if status is None:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            here.close()
            if conn is not None and conn.open:
                conn.close()
        if res.how is None:
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137 or os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
                res.how, res.lost = 'killed', True
            elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGALRM, signal.SIGPROF):
                raise core.Violation('bvn %s does not end' % args)
            else:
                raise RuntimeError('a client process ended with status %d' % status)
        if res.how == 'error':
            raise RuntimeError('in a client process: ' + res.msg)
        return res


# ------------------------------------------------------------------ the model
def matches(path, filters):
    return any(fnmatch.fnmatchcase(path, f) for f in filters)


def below(path):
    """The proper ancestors of a path."""
    parts = path.split('/')
    return ['/'.join(parts[:i]) for i in range(2, len(parts))]


def clashes(paths):
    s = set(paths)
    return any(a in s for p in s for a in below(p))


class WC:
    def __init__(self, idx, user, ip, path):
        self.idx, self.user, self.ip, self.path = idx, user, ip, path
        self.base = {}          # path -> (content, mtime): what the manifest should say
        self.files = {}         # path -> (content, mtime): what is there
        self.past = {}          # what it said before
        self.rev = 0

    def untrack(self):
        """Every command that looks for changes forgets files that are left out and gone."""
        pull = self.pull_filters()
        for p in [p for p in self.base if p not in self.files and matches(p, pull)]:
            del self.base[p]

    def remember(self):
        self.past.update((p, v) for p, v in self.base.items() if v[1] == v[1])

    def full(self, p):
        return self.path + p

    def ignore_filters(self):
        out = ['/.bvn/*', '/.bvn_pull_ignore']
        for f in ('/.bvn_ignore', '/.bvn_pull_ignore'):
            if f in self.files:
                out += self.files[f][0].decode('utf8').splitlines()
        return out

    def pull_filters(self):
        f = self.files.get('/.bvn_pull_ignore')
        return [] if f is None else f[0].decode('utf8').splitlines()

    def status(self):
        ign = self.ignore_filters()
        pull = self.pull_filters()
        out = {}
        for p, (_, mt) in self.files.items():
            if matches(p, ign):
                continue
            if p not in self.base:
                out[p] = 'new'
            elif self.base[p][1] != mt:
                out[p] = 'changed'
        for p in self.base:
            if not matches(p, pull) and (p not in self.files or matches(p, ign)):
                out[p] = 'deleted'
        return out

    def tracked(self):
        ign = self.ignore_filters()
        return {p: c for p, (c, _) in self.files.items() if not matches(p, ign)}

    def scan(self):
        """What is on disk outside .bvn: {path: (bytes, mtime)}"""
        out = {}
        for d, dirs, names in os.walk(self.path):
            if d == self.path:
                dirs[:] = [x for x in dirs if x != '.bvn']
            for n in names:
                full = os.path.join(d, n)
                s = os.lstat(full)
                with open(full, 'rb') as f:
                    out[full[len(self.path):]] = (f.read(), s.st_mtime)
        return out


def brief(tree):
    return {p: (c if len(c) < 40 else sha(c)[:8]) for p, c in sorted(tree.items())}

def contents_of(tree):
    return {p: v[0] for p, v in tree.items()}

def differences(got, want):
    out = []
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p):
            show = lambda v: None if v is None else (v if len(v) < 40 else 'sha %s' % sha(v)[:8])
            out.append('%s is %r, should be %r' % (p, show(got.get(p)), show(want.get(p))))
    return '; '.join(out[:4])


class Machine:
    exact = True        # contents changed only together with modification times

    def __init__(self, ctx, plan, users=2):
        self.ctx, self.plan = ctx, plan
        self.users = ['user%d' % i for i in range(users)]
        self.sim = srv.Sim(ctx, self.users, [REPO])
        self.server = Server(self.sim)
        self.versions = [{'id': 'root', 'files': {}, 'touched': set()}]
        self.wcs = []
        self.tick, self.clock = 0, 1500000000.0
        self.paths = plan['paths']
        self.pending = set()        # paths in commits that were interrupted
        self.commits = self.conflicts = self.updates = 0
        root = ctx.newdir()
        for i, w in enumerate(plan['wcs']):
            u, ip = w[0] % len(self.users), w[1]
            path = os.path.join(root, 'wc%d' % i)
            self.wcs.append(self.new_wc(i, self.users[u], '10.0.0.%d' % (ip + 1), path))

    def new_wc(self, i, user, ip, path):
        os.makedirs(os.path.join(path, '.bvn'))
        with open(os.path.join(path, '.bvn', 'client_configuration.json'), 'w') as f:
            json.dump({'server_domain': 'http://%s:8090' % HOST, 'user': user, 'repository': REPO,
                       'private_key': self.key(user)}, f)
        return WC(i, user, ip, path)

    @staticmethod
    def key(user):
        return base64.b64encode(b'n' + srv.keypair(user)[1]).decode()

    # ------------------------------------------------------------ edits
    def mtime(self):
        # always another one, often close to the last
        self.tick += 1
        self.clock += [7.25, 2 ** -10, 0.03125, 2 ** -20, 1.0, 0.25, 86400][(self.tick * 3 + len(self.paths)) % 7]
        return self.clock

    def put(self, w, path, data, mtime=None):
        full = w.full(path)
        if os.path.isdir(full):
            shutil.rmtree(full)
            for p in [p for p in w.files if p.startswith(path + '/')]:
                del w.files[p]
        for a in below(path):
            if a in w.files:
                os.remove(w.full(a))
                del w.files[a]
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as f:
            f.write(data)
        mt = self.mtime() if mtime is None else mtime
        os.utime(full, (mt, mt))
        w.files[path] = (data, os.stat(full).st_mtime)

    def remove(self, w, path, prune=False):
        os.remove(w.full(path))
        del w.files[path]
        if prune:
            d = os.path.dirname(w.full(path))
            while d != w.path and not os.listdir(d):
                os.rmdir(d)
                d = os.path.dirname(d)

    def pick(self, w, i, user_files=True):
        ps = sorted(p for p in w.files if not p.startswith(('/.bvn', '/.shttpfs')))
        return ps[i % len(ps)] if ps else None

    def edit(self, w, kind, a, b, c):
        """One change by the user.  True if something changed."""
        if kind == 'write':
            self.put(w, self.paths[a % len(self.paths)], content(b))
            return True
        if kind == 'bulk':
            n = hash_of(json.dumps([a, b, c]))
            base = '/bulk%d' % (a % 2) + '/deep' * (25 if a % 4 == 3 else 0) + '/' + 'x' * (200 if a % 4 == 2 else 1)
            for k in range((15, 15, 40, 130)[n % 4]):
                self.put(w, '%s%d' % (base, k), content(k % 7 + c % 2))
            return True
        p = self.pick(w, a)
        if p is None:
            return False
        if kind == 'deltree':           # everything below a directory
            top = p.split('/')[1]
            for q in [q for q in w.files if q.startswith('/%s/' % top)]:
                self.remove(w, q, prune=bool(c % 2))
        elif kind == 'delete':
            self.remove(w, p, prune=bool(c % 2))
        elif kind == 'modify':
            self.put(w, p, content(b))
        elif kind == 'touch':
            self.put(w, p, w.files[p][0])
        elif kind == 'move':
            to = self.paths[b % len(self.paths)]
            if to == p or to in below(p) or p in below(to):
                return False
            data, mt = w.files[p]
            self.remove(w, p, prune=bool(c % 2))
            keep = to not in w.base or w.base[to][1] != mt
            self.put(w, to, data, mt if keep and c >= 2 else None)
        elif kind == 'restore':          # exactly as it was at the last synchronisation
            w.remember()
            qs = sorted(q for q in w.past if not any(x in w.files for x in below(q)) and not os.path.isdir(w.full(q)))
            if not qs:
                return False
            q = qs[a % len(qs)]
            self.put(w, q, *w.past[q])
        elif kind == 'mkdir':
            q = self.paths[b % len(self.paths)] + ['', '/e'][c % 2]
            if q in w.files or any(x in w.files for x in below(q)):
                return False
            os.makedirs(w.full(q), exist_ok=True)
        return True

    # ------------------------------------------------------------ observations
    @staticmethod
    def recorded(w):
        """The revision the working copy says it has."""
        con = sqlite3.connect(os.path.join(w.path, '.bvn', 'manifest.db'))
        try:
            return con.execute('select have_revision from meta').fetchone()[0]
        finally:
            con.close()

    def check_disk(self, w, what):
        got = contents_of(w.scan())
        want = contents_of(w.files)
        self.ctx.check(got == want, '%s: in working copy %d %s' % (what, w.idx, differences(got, want)))

    def refresh_mtimes(self, w):
        """Take the modification times of files the client wrote."""
        for p, (c, mt) in w.scan().items():
            if p in w.files:
                w.files[p] = (w.files[p][0], mt)

    def server_tree(self, version):
        c = self.sim.connect('10.9.9.9')
        tok = self.sim.login(c, self.users[0], REPO)
        r = c.request('list_files', {'session_token': tok, 'repository': REPO, 'show_head': '0', 'version_id': version}, b'{}')
        assert r.ok, r
        out = {}
        for p, info in r.json()['files'].items():
            h = info['hash']
            with open(os.path.join(self.sim.path(REPO), 'files', h[:2], h[2:]), 'rb') as f:
                out[p] = f.read()
            self.ctx.check(sha(out[p]) == h, 'object %s does not hold what its name says' % h)
        c.close()
        self.sim.conns.remove(c)
        return out

    def server_versions(self):
        """Ids, oldest first."""
        c = self.sim.connect('10.9.9.9')
        tok = self.sim.login(c, self.users[0], REPO)
        r = c.request('list_versions', {'session_token': tok, 'repository': REPO}, b'{}')
        c.close()
        self.sim.conns.remove(c)
        assert r.ok, r
        return [v['id'] for v in reversed(r.json()['versions'])]

    def check_versions(self, what):
        """No version appeared."""
        got, want = self.server_versions(), [v['id'] for v in self.versions[1:]]
        self.ctx.check(got == want, '%s: the server has versions %s, expected %s' % (what, got, want))

    def bvn(self, w, args, **kw):
        kw.setdefault('ip', w.ip)
        kw.setdefault('cwd', w.path)
        w.untrack()
        return self.server.run(list(args), **kw)

    @staticmethod
    def parse_status(out):
        got = {}
        for line in out.split('\n'):
            m = re.match(r'^(new|changed|deleted|unchanged) : (/.*)$', line, re.S)
            if m:
                if m.group(2) in got:
                    raise core.Violation('%s is reported twice' % m.group(2))
                got[m.group(2)] = m.group(1)
        return got

    def check_status(self, w, what):
        r = self.bvn(w, ['status'])
        self.ctx.check(r.ok, '%s: status fails: %r' % (what, r))
        got, want = self.parse_status(r.out), w.status()
        self.ctx.check(got == want, '%s: status of working copy %d reports %s, expected %s' % (what, w.idx, got, want))
        if not want:
            self.ctx.check('Nothing changed' in r.out, '%s: status prints %r' % (what, r.out))

    # ------------------------------------------------------------ update
    def server_changes(self, w):
        t = set()
        for v in self.versions[w.rev + 1:]:
            t |= v['touched']
        return t

    def conflict_sets(self, w):
        old, new = self.versions[w.rev]['files'], self.versions[-1]['files']
        loc = w.status()
        t = self.server_changes(w)
        permitted = {p for p in t if p in loc and not (loc[p] == 'deleted' and p not in new)}
        required = {p for p in permitted if old.get(p) != new.get(p)}
        return required, permitted

    def expected_after_update(self, w, take_server, full=False):
        """Files ({path: content}) after an update in which the conflicts in take_server are resolved to the server."""
        new = self.versions[-1]['files']
        loc = w.status()
        pull = w.pull_filters()
        want = {p: c for p, (c, _) in w.files.items()}
        scope = self.server_changes(w)
        if full:
            scope = scope | set(new)
        synced, dropped = {}, set()
        for p in scope:
            if matches(p, pull):
                if p not in new:
                    dropped.add(p)
                continue
            if p in loc and p not in take_server:
                if loc[p] == 'deleted' and p not in new:
                    dropped.add(p)
                continue
            if p in new:
                want[p] = new[p]
                synced[p] = new[p]
            else:
                want.pop(p, None)
                dropped.add(p)
        return want, synced, dropped

    CONFLICT = re.compile(r'^Path:  (/.*)\nClient (Changed|Deleted) server (Changed|Deleted)$', re.M)

    def reported(self, text):
        return {m.group(1): (m.group(2), m.group(3)) for m in self.CONFLICT.finditer(text)}

    def settle(self, w, want, synced, dropped, kept=()):
        """The model after an update that ended well.  Conflicts in kept were resolved to the client: the file differs
        from the revision, whatever the user does about it, except giving it the same content and synchronising."""
        self.refresh_from(w, want)
        for p in kept:
            if p in self.versions[-1]['files']:
                w.base[p] = (self.versions[-1]['files'][p], NEVER)
            else:
                w.base.pop(p, None)
        for p in synced:
            w.base[p] = (synced[p], w.files[p][1])
        for p in dropped:
            w.base.pop(p, None)
        w.rev = len(self.versions) - 1

    def refresh_from(self, w, want):
        disk = w.scan()
        got = contents_of(disk)
        self.ctx.check(got == want, 'after an update working copy %d is wrong: %s' % (w.idx, differences(got, want)))
        w.files = disk

    def no_loss(self, w, before, loc, given_up=(), recovering=False):
        """Whatever else happened: local edits are untouched, every other file is in its old or new state.
        If the recovery of an earlier interruption was interrupted, a file may be missing until it is resumed."""
        got = contents_of(w.scan())
        new = self.versions[-1]['files']
        for p in loc:
            if p in given_up:
                continue
            if loc[p] == 'deleted':
                self.ctx.check(got.get(p) == before.get(p), 'the local deletion of %s was undone' % p)
            else:
                self.ctx.check(got.get(p) == before[p], 'the local edit of %s was lost: it is now %s' % (p, differences({p: got.get(p)}, {p: before[p]})))
        for p in set(got) | set(before):
            if p in loc and p not in given_up:
                continue
            ok = [before.get(p), new.get(p)] + ([None] if recovering else [])
            self.ctx.check(got.get(p) in ok, 'after an interrupted or failed update %s is neither old nor new: %r' % (p, None if got.get(p) is None else got[p][:60]))

    def update(self, w, choice='client', full=False, picks=None, **kw):
        """Run an update to its end, answering conflicts; all of the oracles for it.  Returns the result."""
        ctx = self.ctx
        w.remember()
        before = contents_of(w.files)
        loc = w.status()
        required, permitted = self.conflict_sets(w)
        asked = []

        def answer(kind, text):
            asked.append(text)
            ctx.check(contents_of(w.scan()) == before, 'the working copy changed before the user was asked')
            ctx.check('type \'server\' to discard' in text, 'unexpected question: %r' % text[-200:])
            return choice
        r = self.bvn(w, ['update'] + (['-f'] if full else []), answer=answer, **kw)
        rep = set()
        if picks is not None:
            ctx.check(not asked, 'asked although there is a resolution file')
            rep = set(picks)
        if asked:
            rep = set(self.reported(asked[0]))
            self.conflicts += 1
            ctx.check(len(asked) == 1, 'asked %d times' % len(asked))
        ctx.check(required <= rep, 'update reports no conflict for %s' % sorted(required - rep))
        ctx.check(rep <= permitted, 'update invents a conflict for %s' % sorted(rep - permitted))
        self.check_conflict_text(w, asked, loc)
        take = {p for p in rep if picks[p] == 'server'} if picks is not None else rep if choice == 'server' else set()
        want, synced, dropped = self.expected_after_update(w, take, full)
        if clashes(want):
            ctx.label('file in the way of a directory')
            self.no_loss(w, before, loc, take)
            return None
        ctx.check(r.ok, 'update fails: %r' % r)
        self.updates += 1
        self.settle(w, want, synced, dropped, rep - take)
        return r

    def check_conflict_text(self, w, asked, loc):
        if not asked:
            return
        new = self.versions[-1]['files']
        for p, (mine, theirs) in self.reported(asked[0]).items():
            self.ctx.check(mine == ('Deleted' if loc.get(p) == 'deleted' else 'Changed')
                           and theirs == ('Changed' if p in new else 'Deleted'), 'conflict of %s is described as client %s server %s' % (p, mine, theirs))

    def absorb(self, w, given_up=(), full=False, kept=()):
        """Bring the model up to date after an update that stopped part way (and was recovered by a later command)."""
        new = self.versions[-1]['files']
        loc = w.status()
        scope = (self.server_changes(w) | (set(new) if full else set()) | set(given_up)) - (set(loc) - set(given_up))
        st_ = self.bvn(w, ['status'])
        self.ctx.check(st_.ok, 'status fails after an interrupted update: %r' % st_)
        shown = self.parse_status(st_.out)
        if self.recorded(w) == self.versions[-1]['id'] and w.rev != len(self.versions) - 1:
            # it was already complete
            self.settle(w, *self.expected_after_update(w, set(given_up), full), kept)
            self.ctx.check(shown == w.status(), 'status after an update interrupted at its end is %s, expected %s' % (shown, w.status()))
            return 0
        disk = w.scan()
        done = 0
        for p in sorted(set(disk) | set(w.files) | set(w.base)):
            was, now = w.files.get(p), disk.get(p)
            if now != was:
                self.ctx.check(p in scope and (None if now is None else now[0]) == new.get(p), 'an interrupted update left %s' % differences(
                    {p: None if now is None else now[0]}, {p: None if was is None else was[0]}))
                done += 1
                if now is None:
                    w.base.pop(p, None)
                else:
                    w.base[p] = now
            elif now is None and p in w.base and p not in shown and p not in new:
                w.base.pop(p)
        w.files = disk
        want = w.status()
        self.ctx.check(shown == want, 'status after an interrupted update is %s, expected %s' % (shown, want))
        return done

    # ------------------------------------------------------------ commit
    def record_commit(self, w, vid, files, touched, pushed):
        self.versions.append({'id': vid, 'files': files, 'touched': set(touched)})
        self.commits += 1

    def commit(self, w, msg='message', **kw):
        """Run a commit that is not interfered with; all of the oracles for it."""
        ctx = self.ctx
        loc = w.status()
        before = contents_of(w.files)
        r = self.bvn(w, ['commit', '-m', msg], **kw)
        got = contents_of(w.scan())
        ctx.check(got == before, 'commit changed the working copy: %s' % differences(got, before))
        if not loc:
            ctx.check(r.ok and 'Nothing to commit' in r.out, 'commit without changes: %r %r' % (r, r.out[-300:]))
            self.check_versions('commit without changes')
            return r
        if w.rev != len(self.versions) - 1:
            ctx.check(r.how == 'exit', 'commit from an old revision is not refused: %r' % r)
            self.check_versions('refused commit')
            return r
        ctx.check(r.ok and 'Commit ok' in r.out, 'commit fails: %r %r' % (r, r.out[-300:]))
        ids = self.server_versions()
        ctx.check(ids[:-1] == [v['id'] for v in self.versions[1:]] and len(ids) == len(self.versions), 'history after a commit: %s' % ids)
        files = dict(self.versions[-1]['files'])
        for p, s in loc.items():
            if s == 'deleted':
                files.pop(p, None)
            else:
                files[p] = before[p]
        tree = self.server_tree(ids[-1])
        ctx.check(tree == files, 'the committed version is wrong: %s' % differences(tree, files))
        self.record_commit(w, ids[-1], files, set(loc) | self.pending, None)
        self.pending = set()
        for p, s in loc.items():
            if s == 'deleted':
                w.base.pop(p, None)
            else:
                w.base[p] = w.files[p]
        w.rev = len(self.versions) - 1
        self.check_head_is_working_copy(w)
        return r

    def check_head_is_working_copy(self, w):
        """A committing working copy holds exactly the new version (except what it omits)."""
        if not self.exact:
            return
        pull = w.pull_filters()
        head = {p: c for p, c in self.versions[-1]['files'].items() if not matches(p, pull)}
        mine = w.tracked()
        omitted = getattr(w, 'omitted', set())          # once filtered, rule gone, no full update since
        head = {p: c for p, c in head.items() if p not in omitted or p in mine}
        self.ctx.check(mine == head, 'the committed version differs from the working copy: %s' % differences(head, mine))

    def sync_all(self, choice='client'):
        """Everybody updates and commits until nothing changes; all trees must be equal then."""
        for _ in range(2):
            for w in self.wcs:
                if self.update(w, choice) is None:
                    return False
                self.commit(w)
        for w in self.wcs:
            if self.update(w, choice) is None:
                return False
        for w in self.wcs:
            self.check_status(w, 'after everybody updated')
            self.ctx.check(w.tracked() == {p: c for p, c in self.versions[-1]['files'].items() if not matches(p, w.pull_filters())},
                           'working copy %d differs from the newest version' % w.idx)
        return True


# ------------------------------------------------------------------ plans
def ok_path(p):
    return not p.startswith('/.bvn') and not p.startswith('/.shttpfs')

def edit_ops(weights=None):
    w = {'write': 6, 'modify': 4, 'delete': 4, 'move': 2, 'touch': 1, 'restore': 0, 'mkdir': 0, 'bulk': 0, 'deltree': 1}
    w.update(weights or {})
    kinds = [k for k, n in w.items() for _ in range(n)]
    return st.tuples(st.sampled_from(kinds), st.integers(0, 9), CONTENTS, st.integers(0, 3)).map(list)

def pools(**kw):
    return path_pool(**kw).map(lambda ps: [p for p in ps if ok_path(p)] or ['/a'])
