"""The real HTTP server and client over loopback TCP, with sockets that deliver, accept and lose bytes as a plan says.

Sock replaces socket.socket before the code under test is imported.  A Shape says how many bytes each recv() may return
and each send() may accept, whether small writes are put together, and after which byte the connection is lost."""
import select, socket, struct, sys, threading

import vh.boot as boot
from vh import core

HANG = 20           # seconds after which a peer that waits for bytes is said to wait forever
SHAPED = 1500       # calls that are shaped on each socket, the rest is not
real_socket = socket.socket


class Shape:
    def __init__(self, recv=(), send=(), merge=False, sendfile='os', cut=None):
        self.recv, self.send, self.merge, self.sendfile = list(recv), list(send), merge, sendfile
        self.cut = cut              # (direction 'out' / 'in', bytes, how 'fin' / 'rst' / 'silent')
        self.i = self.j = 0
    def next_recv(self, n):
        if not self.recv or self.i > SHAPED:
            return n
        k = self.recv[self.i % len(self.recv)]
        self.i += 1
        return min(n, k) if k else n
    def next_send(self, n):
        if not self.send or self.j > SHAPED:
            return n
        k = self.send[self.j % len(self.send)]
        self.j += 1
        return min(n, k) if k else n


class Net:
    """What happens on this process's sockets."""
    host = 'server.example'
    port = None
    ready = threading.Event()
    listening = None
    lock = threading.Lock()
    client_shape = None         # for the next connect()
    server_shape = None         # for the next accept()
    accepted = []
    handler = None
    silent = False              # the client does not say anything any more
    hung = None
    lost = False                # the cut was reached
    sent = received = 0
    active = 0                  # counts calls that moved bytes

    @classmethod
    def reset(cls):
        cls.client_shape = cls.server_shape = None
        cls.accepted = []
        cls.silent = cls.lost = False
        cls.hung = None
        cls.sent = cls.received = 0


class Hangs(BaseException):
    pass


class Sock(real_socket):
    shape = None
    role = None                 # 'client' / 'server'
    dead = None
    nominal = None
    empties = 0

    def __init__(self, *a, **k):
        real_socket.__init__(self, *a, **k)
        self.buf = []
        self.nsent = self.nrecv = 0

    # ------------------------------------------------------------ connection
    def bind(self, address):
        real_socket.bind(self, address)
        if self.family == socket.AF_INET:
            Net.port = self.getsockname()[1]

    def listen(self, *a):
        real_socket.listen(self, *a)
        if self.family == socket.AF_INET:
            Net.listening = self
            Net.ready.set()

    def accept(self):
        select.select([self], [], [])
        with Net.lock:
            return self._accept1()

    def _accept1(self):
        fd, addr = self._accept()
        s = Sock(self.family, self.type, self.proto, fileno=fd)
        s.setblocking(True)
        s.role = 'server'
        s.shape = Net.server_shape or Shape()
        Net.server_shape = None
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        Net.accepted.append(s)
        return s, addr

    def connect(self, address):
        if Net.port is not None and address[0] == Net.host:
            address = ('127.0.0.1', Net.port)
            self.role = 'client'
            self.shape = Net.client_shape or Shape()
            real_socket.connect(self, address)
            self.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        else:
            real_socket.connect(self, address)

    def settimeout(self, value):
        if self.role == 'server':
            self.nominal = value
        else:
            real_socket.settimeout(self, value)

    def gettimeout(self):
        return self.nominal if self.role == 'server' else real_socket.gettimeout(self)

    # ------------------------------------------------------------ losing it
    def lose(self):
        how = self.shape.cut[2]
        self.dead = how
        Net.lost = True
        if how == 'rst':
            self.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            real_socket.close(self)
        elif how == 'fin':
            try: self.shutdown(socket.SHUT_RDWR)
            except OSError: pass
        else:
            Net.silent = True

    def gone(self, sending):
        if self.dead == 'rst':
            raise ConnectionResetError(104, 'Connection reset by peer')
        if sending:
            raise BrokenPipeError(32, 'Broken pipe')
        if self.dead == 'silent':
            raise ConnectionResetError(104, 'Connection reset by peer')
        return self.empty()

    def empty(self):
        self.empties += 1
        if self.empties > 500:
            Net.hung = 'the %s reads from a closed connection for ever' % self.role
            raise Hangs()
        return b''

    # ------------------------------------------------------------ bytes out
    def flush(self):
        if self.buf:
            data = b''.join(self.buf)
            self.buf = []
            real_socket.sendall(self, data)

    def _out(self, data):
        """All of data, unless the connection is lost on the way."""
        Net.active += 1
        if self.dead:
            self.gone(True)
        cut = self.shape.cut if self.shape else None
        if cut is not None and cut[0] == 'out' and self.nsent + len(data) >= cut[1]:
            part = bytes(data[:cut[1] - self.nsent])
            real_socket.sendall(self, part)
            self.nsent += len(part)
            self.lose()
            if len(part) < len(data):
                self.gone(True)
            return
        real_socket.sendall(self, data)
        self.nsent += len(data)
        Net.sent += len(data)

    def send(self, data, flags=0):
        if self.role is None:
            return real_socket.send(self, data, flags)
        data = memoryview(data).cast('B')
        if len(data) == 0:
            return 0
        data = data[:self.shape.next_send(len(data))]
        if self.shape.merge:
            self.buf.append(bytes(data))
        else:
            self._out(data)
        return len(data)

    def sendall(self, data, flags=0):
        if self.role is None:
            return real_socket.sendall(self, data, flags)
        data = memoryview(data).cast('B')
        if self.shape.merge:
            self.buf.append(bytes(data))
        else:
            self._out(data)
        return None

    def sendfile(self, file, offset=0, count=None):
        self.flush()
        if self.shape is not None and (self.shape.sendfile == 'send' or self.shape.cut):
            n = self._sendfile_use_send(file, offset, count)
            self.flush()
            return n
        return real_socket.sendfile(self, file, offset, count)

    # ------------------------------------------------------------ bytes in
    def _wait(self):
        waited, seen = 0.0, Net.active
        while True:
            r, _, _ = select.select([self], [], [], 0.02 if self.role == 'server' else 1.0)
            if r:
                return
            if self.role == 'server':
                if Net.silent:
                    if self.nominal is None:
                        Net.hung = 'the server waits for a client that is gone, without any limit'
                        raise Hangs()
                    raise TimeoutError('timed out')
                waited += 0.02
            else:
                waited += 1.0
            if Net.active != seen:
                waited, seen = 0.0, Net.active
            if waited > HANG * (1 if self.role == 'client' else 3):
                Net.hung = Net.hung or 'the %s waits for bytes that never come' % self.role
                raise Hangs()

    def _in(self, n):
        if self.dead:
            return self.gone(False)
        self.flush()
        k = self.shape.next_recv(n)
        cut = self.shape.cut
        if cut is not None and cut[0] == 'in':
            if self.nrecv >= cut[1]:
                self.lose()
                return self.gone(False)
            k = min(k, cut[1] - self.nrecv)
        try:
            data = real_socket.recv(self, k, socket.MSG_DONTWAIT)
        except BlockingIOError:
            self._wait()
            data = real_socket.recv(self, k)
        self.nrecv += len(data)
        Net.active += 1
        if self.role == 'client':
            Net.received += len(data)
        return data if data != b'' else self.empty()

    def recv(self, n, flags=0):
        if self.role is None or flags:
            return real_socket.recv(self, n, flags)
        if n <= 0:
            return b''
        return self._in(n)

    def recv_into(self, buffer, nbytes=0, flags=0):
        if self.role is None or flags:
            return real_socket.recv_into(self, buffer, nbytes, flags)
        view = memoryview(buffer).cast('B')
        data = self._in(nbytes or len(view))
        view[:len(data)] = data
        return len(data)

    def close(self):
        if self.role is not None and not self.dead and self.fileno() != -1:
            try: self.flush()
            except OSError: pass
        real_socket.close(self)


socket.socket = Sock
sys.unraisablehook = lambda *a: None
threading.excepthook = lambda *a: None

from bversion.http import http_server, http_client          # pylint: disable=wrong-import-position
boot.check_module_location(http_server)
boot.check_module_location(http_client)


def start():
    """One server for this process; Net.handler answers."""
    if Net.port is None:
        Net.ready.clear()
        t = threading.Thread(target=http_server.HTTPServer, args=('127.0.0.1', 0, lambda rq, cx: Net.handler(rq, cx)), daemon=True)
        t.start()
        if not Net.ready.wait(30):
            raise RuntimeError('the server does not start')


def wait_closed(socks, seconds=15):
    """True when the server has given up all of these connections."""
    import time
    t = boot.real_time() + seconds
    def busy():
        with Net.lock:
            return select.select([Net.listening], [], [], 0)[0] or any(s.fileno() != -1 for s in socks)
    while busy():
        if boot.real_time() > t:
            return False
        time.sleep(0.001)
    return True
