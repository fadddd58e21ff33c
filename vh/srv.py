"""The real server code (bversion.server.endpoint and everything below it) driven in process.

Every connection has a thread of its own, as under bversion.http.http_server.HTTPServer (the server keeps
its database handle in thread-local storage), but only one request runs at a time: the order of the plan is
the schedule.  An exception out of the endpoint does what HTTPServer does: shutdown handler, connection gone."""
import base64, contextlib, hashlib, io, json, os, queue, sqlite3, sys, threading, weakref

import vh.boot as boot
import pysodium
from vh import core

from bversion import server as bserver
from bversion.http import http_server
from bversion.http.http_common import read_body

boot.check_module_location(bserver)

# ------------------------------------------------------------------ watching threads step through the library
TOOL = 4
_inside = {}         # file name -> does it belong to the library?
_watched = {}        # thread id -> function called with 'line' or 'call' before each step

def _step(kind):
    def event(code, *args):
        name = code.co_filename
        if name not in _inside:
            _inside[name] = os.path.realpath(name).startswith(core.SUT_PREFIX)
        if not _inside[name]:
            return sys.monitoring.DISABLE
        f = _watched.get(threading.get_ident())
        if f is not None:
            f(kind)
        return None
    return event


_users = [0]

@contextlib.contextmanager
def monitoring():
    m = sys.monitoring
    if _users[0] == 0:
        if m.get_tool(TOOL) is None:
            m.use_tool_id(TOOL, 'vh')
            m.register_callback(TOOL, m.events.LINE, _step('line'))
            m.register_callback(TOOL, m.events.PY_START, _step('call'))
        m.set_events(TOOL, m.events.LINE | m.events.PY_START)
    _users[0] += 1
    try:
        yield
    finally:
        _users[0] -= 1
        if _users[0] == 0:
            m.set_events(TOOL, 0)


def watched(job, step):
    if step is None:
        return job()
    _watched[threading.get_ident()] = step
    try:
        return job()
    finally:
        del _watched[threading.get_ident()]


class Dead(BaseException):
    """The process ends here."""

class Death:
    """A step function: from the n-th line on nothing is executed any more."""
    def __init__(self, at):
        self.at, self.count = at, 0
    def __call__(self, kind):
        if kind == 'line':
            self.count += 1
            if self.count >= self.at:
                raise Dead()


# ------------------------------------------------------------------ database connections of a thread
_local = threading.local()
lock_waits = [0]        # how often the database was busy

def note_lock(exc):
    if 'locked' in str(exc):
        lock_waits[0] += 1

def _busy(name):
    inner = getattr(sqlite3.Cursor, name)
    def method(self, *a, **kw):
        _local.depth = getattr(_local, 'depth', 0) + 1
        try:
            return inner(self, *a, **kw)
        except sqlite3.OperationalError as e:
            note_lock(e)
            raise
        finally:
            _local.depth -= 1
    method.__name__ = name
    return method

def _fetching(name, last):
    """Between execute and the last row the statement holds a lock."""
    inner = _busy(name)
    def method(self, *a, **kw):
        if not hasattr(_local, 'open'):
            _local.open = weakref.WeakSet()
        done = True
        try:
            res = inner(self, *a, **kw)
            done = last(self, res)
            return res
        finally:
            if done:
                _local.open.discard(self)
            else:
                _local.open.add(self)
    method.__name__ = name
    return method

class _Cursor(sqlite3.Cursor):
    """Knows when a statement is running: row factories and the like are called from within."""

for _n, _last in [('execute', lambda cur, res: cur.description is None), ('executemany', lambda cur, res: True), ('executescript', lambda cur, res: True),
                  ('fetchone', lambda cur, res: res is None), ('fetchmany', lambda cur, res: not res), ('fetchall', lambda cur, res: True),
                  ('__next__', lambda cur, res: False), ('close', lambda cur, res: True)]:
    setattr(_Cursor, _n, _fetching(_n, _last))

class _Connection(sqlite3.Connection):
    def cursor(self, factory=_Cursor):
        return super().cursor(factory)

    def commit(self):
        try:
            super().commit()
        except sqlite3.OperationalError as e:
            note_lock(e)
            raise

    # these would not use the method above
    def execute(self, *a):
        return self.cursor().execute(*a)
    def executemany(self, *a):
        return self.cursor().executemany(*a)
    def executescript(self, *a):
        return self.cursor().executescript(*a)

_connect = sqlite3.connect

def _tracking_connect(*a, **kw):
    if len(a) < 6:
        kw.setdefault('factory', _Connection)
    if len(a) < 2:
        kw.setdefault('timeout', 0.3)       # only one thread runs at a time: waiting is of no use
    con = _connect(*a, **kw)
    if not hasattr(_local, 'cons'):
        _local.cons = []
    try:
        _local.cons.append(weakref.ref(con))
    except TypeError:
        pass
    return con

sqlite3.connect = _tracking_connect

def in_transaction():
    """Is the calling thread in the middle of a database transaction or statement?"""
    if getattr(_local, 'depth', 0) > 0 or len(getattr(_local, 'open', ())) > 0:
        return True
    for ref in getattr(_local, 'cons', []):
        con = ref()
        try:
            if con is not None and con.in_transaction:
                return True
        except sqlite3.Error:
            pass
    return False


def drop_connections():
    for ref in getattr(_local, 'cons', []):
        con = ref()
        if con is not None:
            try:
                con.rollback()
                con.close()
            except sqlite3.Error:
                pass
    _local.cons = []


_keys = {}

def keypair(name):
    """A fixed key pair for each name."""
    if name not in _keys:
        _keys[name] = pysodium.crypto_sign_seed_keypair(hashlib.sha256(b'vh' + name.encode()).digest())
    return _keys[name]


class Died(Exception):
    """The server dropped the connection instead of answering."""
    def __init__(self, exc):
        Exception.__init__(self, core.describe(exc))
        self.exc = exc


class Reply:
    def __init__(self, headers, body):
        self.headers = headers
        self.body = body
        self.ok = headers.get('status') == 'ok'
    def json(self):
        return json.loads(self.body)
    def __repr__(self):
        return 'Reply(%r, %r)' % (self.headers, self.body[:200])


def as_str(v):
    return v.decode('utf8') if isinstance(v, bytes) else str(v)


class Conn:
    """One client connection."""
    def __init__(self, sim, ip, port):
        self.sim, self.ip, self.port = sim, ip, port
        self.context = http_server.ConnectionContext()
        self.q_in, self.q_out = queue.SimpleQueue(), queue.SimpleQueue()
        self.open = True
        self.thread = threading.Thread(target=self._serve, daemon=True)
        self.thread.start()

    def _serve(self):
        while True:
            job = self.q_in.get()
            if job is None:
                break
            try:
                self.q_out.put((True, job()))
            except BaseException as e:        # pylint: disable=broad-except
                self.q_out.put((False, e))
        self.q_out.put((True, None))

    def _call(self, job):
        self.q_in.put(job)
        ok, val = self.q_out.get()
        if not ok:
            raise val
        return val

    def call_traced(self, job, step):
        return self._call(lambda: watched(job, step))

    def request(self, route, headers, body=b'', cut=None, trace=None):
        """cut: the connection is lost after this many bytes of the body.  trace: called at every step of the library."""
        assert self.open
        hdrs = {k.lower(): as_str(v) for k, v in headers.items()}
        hdrs.setdefault('content-length', str(len(body)))
        length = int(hdrs['content-length'])
        rq = http_server.Request(self.ip, self.port, '/' + route, hdrs,
                                 read_body(io.BytesIO(body if cut is None else body[:cut]).read, length, b''))

        def job():
            try:
                rsp = bserver.endpoint(rq, self.context)
                rq.body.dump()
                if in_transaction():
                    self.sim.left_open.append(route)
                out = rsp.body
                if isinstance(out, http_server.ServeFile):
                    self.sim.served.append(out.path)
                    with open(out.path, 'rb') as f:
                        out = f.read()
                elif isinstance(out, str):
                    raise TypeError('response body is text')
                return Reply({as_str(k): as_str(v) for k, v in rsp.headers.items()}, out)
            except Exception as e:
                self.context.shutdown_handler()
                raise Died(e) from e

        try:
            return self.call_traced(job, trace)
        except Died:
            self._end()
            raise
        except Dead as e:
            # what the operating system does: nothing of the process is left, files are closed and unlocked
            e.__traceback__ = e.__context__ = None
            self._call(self.context.shutdown_handler)
            self._call(drop_connections)
            self._end()
            raise Died(e) from None

    def close(self):
        if self.open:
            self._call(self.context.shutdown_handler)
            self._end()

    def _end(self):
        self.open = False
        self.q_in.put(None)
        self.q_out.get()
        self.thread.join()


class Sim:
    """A configured server: repositories under root, users with keys."""
    def __init__(self, ctx, users, repos, db_override=False, grants=None):
        self.ctx = ctx
        self.root = ctx.newdir()
        self.users = users
        self.repo_names = repos
        self.conns = []
        self.served = []
        self.left_open = []         # requests that ended inside a transaction
        self.port = 40000
        self.config = {'repositories': {}, 'users': {}}
        for r in repos:
            path = os.path.join(self.root, 'repos', r.replace('/', '%'))
            os.makedirs(path)
            ent = {'path': path}
            if db_override:
                ent['transient_db_path_override'] = os.path.join(self.root, r.replace('/', '%') + '_transient.db')
            self.config['repositories'][r] = ent
        for u in users:
            self.config['users'][u] = {'public_key': base64.b64encode(keypair(u)[0]).decode(),
                                       'uses_repositories': list(repos) if grants is None else list(grants.get(u, []))}
        ctx.cleanups.append(self.shutdown)
        self.start()

    def path(self, repo):
        return self.config['repositories'][repo]['path']

    def start(self):
        t = Conn(self, '0.0.0.0', 0)
        t._call(lambda: bserver.init_server(self.config))
        t._end()

    def connect(self, ip='10.0.0.1'):
        self.port += 1
        c = Conn(self, ip, self.port)
        self.conns.append(c)
        return c

    def shutdown(self):
        for c in self.conns:
            c.close()
        self.conns = []

    def relocate(self, root):
        """Serve a copy of everything at another place (the server is not running)."""
        for r in self.repo_names:
            ent = self.config['repositories'][r]
            for k, v in ent.items():
                if isinstance(v, str) and v.startswith(self.root + os.sep):
                    ent[k] = root + v[len(self.root):]
        self.root = root

    def restart(self):
        self.shutdown()
        self.start()

    def in_server_thread(self, f):
        t = Conn(self, '0.0.0.0', 0)
        try:
            return t._call(f)
        finally:
            t._end()

    # ------------------------------------------------------------ protocol helpers
    def login(self, conn, user, repo):
        r = conn.request('begin_auth', {'repository': repo}, b'{}')
        if not r.ok:
            return None
        tok = r.headers['auth_token']
        sig = base64.b64encode(pysodium.crypto_sign_detached(tok, keypair(user)[1])).decode()
        r = conn.request('authenticate', {'client_version': '3', 'repository': repo, 'user': user, 'auth_token': tok,
                                          'signature': sig}, b'{}')
        return r.headers['session_token'] if r.ok else None


def js(obj):
    return json.dumps(obj).encode('utf8')
