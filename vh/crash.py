"""Crash and fault injection at the level of system calls that change files, in forked children."""
import ctypes, errno, os, pickle, signal, subprocess, sys, warnings

from vh import core

warnings.filterwarnings('ignore', category=DeprecationWarning)

COUNT, KILL, TORN, FAIL = 0, 1, 2, 3
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EACCES]


def build(tmp):
    so = os.path.join(tmp, 'crash.so')
    src = os.path.join(core.VERIF, 'native', 'crash.c')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, src, '-ldl'], check=True, capture_output=True)
    return so


_lib = None

def lib():
    global _lib
    if _lib is None:
        l = ctypes.CDLL(None)
        l.vf_arm.argtypes = [ctypes.c_long] * 3
        l.vf_count.restype = ctypes.c_long
        _lib = l
    return _lib


def arm(point=0, mode=COUNT, err=0):
    lib().vf_arm(point, mode, err)

def off():
    lib().vf_off()

def count():
    return lib().vf_count()


class Outcome:
    """How a child ended: killed (at the armed point), or a value, or an exception."""
    def __init__(self, killed=False, value=None, exc=None, sut=False):
        self.killed, self.value, self.exc, self.sut = killed, value, exc, sut
    def unwrap(self):
        """The value; violations and everything else the child raised are raised here."""
        if self.exc is not None:
            raise self.exc
        return self.value


class SutException(Exception):
    """An exception out of the code under test, in a child."""


def child(fn):
    """Run fn() in a forked process."""
    rd, wr = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(core.CASE_SECONDS - 10)
            try:
                res = ('value', fn())
            except core.Violation as e: res = ('violation', str(e))
            except core.OffTopic as e:  res = ('offtopic', str(e))
            except core.Reject as e:    res = ('reject', str(e))
            except SystemExit as e:     res = ('exit', str(e))
            except BaseException as e:  # pylint: disable=broad-except
                import traceback
                res = ('sut' if core.from_sut(e) else 'error', core.describe(e) if core.from_sut(e) else traceback.format_exc()[-3000:])
            off()
            with os.fdopen(wr, 'wb') as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(wr)
    data = b''
    try:
        while True:
            d = os.read(rd, 1 << 16)
            if not d: break
            data += d
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(rd)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137:
        return Outcome(killed=True)
    if not data:
        raise RuntimeError('a child ended with status %d and no result' % status)
    kind, val = pickle.loads(data)
    if kind == 'value':     return Outcome(value=val)
    if kind == 'violation': return Outcome(exc=core.Violation(val))
    if kind == 'offtopic':  return Outcome(exc=core.OffTopic(val))
    if kind == 'reject':    return Outcome(exc=core.Reject(val))
    if kind == 'exit':      return Outcome(exc=SystemExit(val), sut=True)
    if kind == 'sut':       return Outcome(exc=core.Violation('unexpected exception from the code under test: ' + val), sut=True)
    raise RuntimeError('in a child: ' + val)
