"""C26: the HTTP transport delivers requests and responses unaltered."""
import json, os
from hypothesis import strategies as st
import vh.boot as boot
from vh import net, core
from vh.net import Net, Shape
from bversion.http.client_http_request import client_http_request
from bversion.http.http_server import Responce, ServeFile

LEVEL = 'generated sessions over real sockets with generated segmentation, against what was put in'
RULE = ('at least three requests on one connection, with at least one non-empty body each way, and bytes split, put together or '
        'partially accepted on at least one side')
BUDGET = {'quick': 6000, 'thorough': 100000}
ASSUMPTIONS = ['header names are ASCII words that differ from the ones the transport itself sends, header values are any text that can be encoded',
               'plain HTTP (TLS sockets are not exercised)']

OWN = {'accept-encoding', 'host', 'content-type', 'content-length', 'user-agent', 'connection'}
EDGES = [0, 1, 2, 3, 10, 500, 900, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 9999, 10000, 10001, 65535, 65536, 65537]
BIG = [200001, 999999, 1000000, 1000001, 2100000]
ROUTES = ['begin_auth', 'authenticate', 'find_changed', 'push_file', 'pull_file', 'delete_files', 'begin_commit', 'commit', 'list_versions',
          'list_changes', 'list_files', 'x', 'a_b-c.d~e']
VALUES = ['', ' ', '/a path/with spaces ', ' leading', 'trailing\t', 'two\nlines', 'cr\rlf\r\nInjected: yes', '\r\n\r\n', 'percent-encoded:',
          'percent-encoded:%41', '%41', 'a:b:c', ': ', '"quoted"', 'caf\u00e9', '\u65e5\u672c', '\U0001f600', '\x00', '\x7f', '\u2028', '\x85', '\u00a0x\u00a0', '0', 'None',
          'x' * 300, '\u00e9' * 700, '\x1f', '\x0b', '\x0c y']


def body_bytes(size, seed):
    """Content with line ends and header-like text in it."""
    if seed % 4 == 0:
        unit = b'\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nabc'
    elif seed % 4 == 1:
        unit = bytes(range(256))
    elif seed % 4 == 2:
        unit = b'\0'
    else:
        unit = b'POST / HTTP/1.1\r\n%d' % seed
    return (unit * (size // len(unit) + 1))[seed % 7:][:size].ljust(size, b'.')


def sizes(tier):
    return st.one_of(st.sampled_from(EDGES), st.sampled_from(EDGES), st.integers(0, 3000), st.integers(0, 70000),
                     st.sampled_from(EDGES + BIG))


def shapes():
    sched = st.one_of(st.just([]), st.lists(st.sampled_from([1, 2, 3, 4, 5, 7, 16, 100, 1000, 1023, 1024, 4096, 0]), min_size=1, max_size=6))
    return st.fixed_dictionaries({'recv': sched, 'send': sched, 'merge': st.booleans(), 'sendfile': st.sampled_from(['os', 'send'])})


def headers():
    name = st.one_of(st.sampled_from(['repository', 'session_token', 'path', 'version_id', 'commit_message', 'X-Odd', 'previous_revision', 'File_Info_Json']),
                     st.text('abcXYZ019-_', min_size=1, max_size=12)).filter(lambda n: n.lower() not in OWN)
    value = st.one_of(st.sampled_from(VALUES), st.text(st.characters(exclude_categories=['Cs']), max_size=12))
    return st.lists(st.tuples(name, value).map(list), max_size=5, unique_by=lambda kv: kv[0].lower())


def requests(tier):
    return st.fixed_dictionaries({
        'conn': st.integers(0, 2), 'route': st.sampled_from(ROUTES), 'headers': headers(),
        'kind': st.sampled_from(['json', 'json', 'nodata', 'file', 'file', 'file']),
        'size': sizes(tier), 'seed': st.integers(0, 99), 'text': st.text(st.characters(exclude_categories=['Cs']), max_size=8),
        'server': st.sampled_from(['all', 'all', 'json', 'pieces', 'part', 'none']), 'piece': st.sampled_from([1, 7, 1000, 1024, 5000, 1000000]),
        'rheaders': headers(), 'rbytes': st.booleans(),
        'rkind': st.sampled_from(['bytes', 'bytes', 'file']), 'rsize': sizes(tier), 'rseed': st.integers(0, 99),
        'client': st.sampled_from(['body', 'body', 'writer', 'writer', 'unread'])})


def strategy(tier):
    return st.fixed_dictionaries({
        'shapes': st.lists(st.tuples(shapes(), shapes()).map(list), min_size=1, max_size=3),
        'reqs': st.lists(requests(tier), min_size=1, max_size=8 if tier == 'quick' else 20)})


class Session:
    """Client calls and the server's side of them."""
    def __init__(self, plan, ctx, cuts=None):
        self.ctx, self.plan = ctx, plan
        self.dir = ctx.newdir()
        self.conns = {}
        self.calls = []
        self.wrong = None
        self.q = None
        self.downs = 0
        self.cuts = cuts
        Net.reset()
        net.start()
        Net.handler = self.handle
        ctx.cleanups.append(self.close)

    def close(self):
        for c in self.conns.values():
            try: c.c.close()
            except OSError: pass
        closed = net.wait_closed(Net.accepted)
        Net.handler = None
        return closed

    def conn(self, k):
        if k not in self.conns:
            cl, se = self.plan['shapes'][k]
            Net.server_shape = Shape(**se)
            Net.client_shape = Shape(**cl, cut=self.cuts)
            self.conns[k] = client_http_request('http://%s:1234' % Net.host)
        return self.conns[k]

    def path(self, name):
        return os.path.join(self.dir, name)

    def sent_body(self, q):
        if q['kind'] == 'json':
            return json.dumps({'text': q['text'], 'n': 'x' * q['size']}).encode()
        if q['kind'] == 'nodata':
            return b'{}'
        return body_bytes(q['size'], q['seed'])

    # ------------------------------------------------------------ the server's side
    def handle(self, rq, context):
        """In the server's thread."""
        q = self.q
        self.calls.append(q)

        def down():
            self.downs += 1
        context.shutdown_handler = down
        want = {k.lower(): v for k, v in q['headers']}
        got = {k: v for k, v in rq.headers.items() if k not in OWN}
        body = self.sent_body(q)
        if rq.uri != '/' + q['route']:
            self.wrong = 'the server was asked for %r instead of %r' % (rq.uri, '/' + q['route'])
        if got != want:
            self.wrong = 'the server got the headers %r instead of %r' % (got, want)
        if rq.remote_addr != '127.0.0.1':
            self.wrong = 'the server takes %r for the address of the client' % (rq.remote_addr,)
        how = q['server']
        if how == 'json' and q['kind'] == 'json':
            if rq.get_json() != json.loads(body):
                self.wrong = 'the server got other data than was sent'
        elif how in ('all', 'json'):
            data = rq.body.read_all()
            if data != body:
                self.wrong = 'the server got a body of %d bytes instead of %d%s' % (len(data), len(body), '' if len(data) != len(body) else ', with other content')
        elif how in ('pieces', 'part'):
            data = b''
            while how == 'pieces' or len(data) < len(body) // 2:
                d = rq.body.read(max(q['piece'], len(body) // 1000))
                if d is None:
                    break
                data += d
            if how == 'pieces' and data != body or not body.startswith(data):
                self.wrong = 'the server got other pieces than were sent'
        self.complete = True
        rh = {k: (v.encode('utf8') if q['rbytes'] else v) for k, v in q['rheaders']}
        rbody = body_bytes(q['rsize'], q['rseed'])
        if q['rkind'] == 'file':
            p = self.path('serve%d' % len(self.calls))       # it may still be on its way during the next request
            with open(p, 'wb') as f:
                f.write(rbody)
            return Responce(rh, ServeFile(p))
        return Responce(rh, rbody)

    # ------------------------------------------------------------ the client's side
    def call(self, q):
        """One request.  Raises what the client raises."""
        ctx = self.ctx
        self.q, self.wrong, self.complete = q, None, False
        n = len(self.calls)
        c = self.conn(q['conn'] % len(self.plan['shapes']))
        h = dict(q['headers'])
        if q['kind'] == 'file':
            p = self.path('upload')
            with open(p, 'wb') as f:
                f.write(self.sent_body(q))
            got, gh = c.send_file(q['route'], h, p)
        else:
            data = None if q['kind'] == 'nodata' else json.loads(self.sent_body(q))
            if q['client'] == 'body':
                got, gh = c.request(q['route'], h, data)
            else:
                w, gh = c.request(q['route'], h, data, gen=True)
                got = None
                if q['client'] == 'writer':
                    w(self.path('download'))
                    with open(self.path('download'), 'rb') as f:
                        got = f.read()
        ctx.check(len(self.calls) == n + 1, 'one request was acted on %d times' % (len(self.calls) - n))
        ctx.check(self.wrong is None, self.wrong)
        ctx.check(self.complete, 'a response to a request the server did not complete')
        want = {k.lower(): v for k, v in q['rheaders']}
        gh = {k: v for k, v in gh.items() if k not in OWN}
        ctx.check(gh == want, 'the client got the headers %r instead of %r' % (gh, want))
        if got is not None:
            rbody = body_bytes(q['rsize'], q['rseed'])
            ctx.check(got == rbody, 'the client got a body of %d bytes instead of %d%s' % (len(got), len(rbody), '' if len(got) != len(rbody) else ', with other content'))


def execute(plan, ctx):
    s = Session(plan, ctx)
    per = {}
    both = False
    for q in plan['reqs']:
        try:
            s.call(q)
        except net.Hangs:
            ctx.check(False, Net.hung)
        except core.Violation:
            raise
        except Exception as e:
            if s.wrong:
                ctx.check(False, s.wrong)
            ctx.check(False, 'a request fails: ' + core.describe(e))
        k = q['conn'] % len(plan['shapes'])
        per[k] = per.get(k, 0) + 1
        both = both or (len(s.sent_body(q)) > 2 and q['rsize'] > 0)
    ctx.check(s.close(), 'the server does not notice that a connection was closed')
    if max(per.values()) >= 3 and both and any(x['recv'] or x['send'] or x['merge'] for p in plan['shapes'] for x in p):
        ctx.nontrivial()
    if Net.hung:
        ctx.check(False, Net.hung)
