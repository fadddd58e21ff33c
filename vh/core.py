"""Violations, scratch space, case statistics and the Hypothesis driver."""
import contextlib, hashlib, io, json, os, random, shutil, signal, sys, tempfile, traceback
import vh.boot as boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUT_PREFIX = os.path.join(os.path.realpath(boot.REPO), 'bversion') + os.sep


class Violation(Exception):
    """The property under test does not hold for this plan."""


class OffTopic(Exception):
    """The code disagrees with the model about something that belongs to another property: abandon the case."""


class Reject(Exception):
    """The plan turned out not to be a case of this property."""


class CaseTimeout(BaseException):
    pass


def from_sut(exc):
    """True if the exception came out of the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(SUT_PREFIX):
            return True
        tb = tb.tb_next
    if exc.__cause__ is not None and from_sut(exc.__cause__):
        return True
    return False


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if os.path.realpath(f.filename).startswith(SUT_PREFIX)]
    loc = ''
    if where:
        loc = ' at %s:%s' % (os.path.relpath(os.path.realpath(where[-1].filename), boot.REPO), where[-1].name)
    return '%s: %s%s' % (type(exc).__name__, str(exc)[:300], loc)


# ------------------------------------------------------------------ scratch
def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Scratch:
    """One directory per worker process; one fresh, uniquely named sub directory per case."""
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='vh_', dir=os.environ.get('VH_SCRATCH') or scratch_base())
        self.n = 0

    def new(self):
        self.n += 1
        d = os.path.join(self.root, 'case%d' % self.n)
        os.mkdir(d)
        return d

    def drop(self, d):
        assert d.startswith(self.root + os.sep)
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


# ------------------------------------------------------------------ contexts handed to executors
class Ctx:
    """What an executor gets besides its plan."""
    def __init__(self, scratch, tags=None):
        self.scratch = scratch
        self.tags = tags           # oracle tags that belong to the property, None = all
        self.labels = {}
        self.is_nontrivial = False
        self.evals = 1
        self.dirs = []
        self.sig = None
        self.cleanups = []

    def newdir(self):
        d = self.scratch.new()
        self.dirs.append(d)
        return d

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self):
        self.is_nontrivial = True

    def check(self, cond, msg, tag=None):
        """An oracle.  A failed oracle of another property only ends the case."""
        if cond:
            return
        tags = (tag,) if isinstance(tag, str) else tag
        if tags is not None and self.tags is not None and not set(tags) & set(self.tags):
            raise OffTopic(str(tags) + ': ' + str(msg))
        raise Violation(str(msg))

    def done(self):
        for f in reversed(self.cleanups):
            f()
        self.cleanups = []
        for d in self.dirs:
            self.scratch.drop(d)
        self.dirs = []


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)
    def writable(self):
        return True


@contextlib.contextmanager
def quiet():
    """Discard whatever the code under test prints."""
    so, se = sys.stdout, sys.stderr
    sys.stdout = NullOut()
    try:
        yield
    finally:
        sys.stdout = so


def canon(plan):
    return json.dumps(plan, sort_keys=True, separators=(',', ':'))


def plan_hash(plan):
    return hashlib.sha256(canon(plan).encode('utf8', 'surrogatepass')).hexdigest()[:16]


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.cases = 0
        self.nontrivial = set()
        self.labels = {}
        self.offtopic = 0
        self.offtopic_samples = []
        self.rejected = 0
        self.samples = []

    def record(self, plan, ctx):
        self.cases += 1
        self.evaluations += ctx.evals
        for k, v in ctx.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        if ctx.is_nontrivial:
            h = plan_hash(plan if ctx.sig is None else ctx.sig)
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                n = len(self.nontrivial)
                if n <= 2 or (n in (20, 100)):
                    if len(canon(plan)) < 6000:
                        self.samples.append(plan)

    def as_dict(self):
        return {'evaluations': self.evaluations, 'cases': self.cases, 'nontrivial': sorted(self.nontrivial),
                'labels': self.labels, 'offtopic': self.offtopic, 'offtopic_samples': self.offtopic_samples,
                'rejected': self.rejected, 'samples': self.samples}


CASE_SECONDS = 120

# Raised while interpreting replies, files or records the code under test wrote: its result is not of the promised
# shape.  Anything else raised by the harness (resources, bugs of its own) stays an error of the check.
DATA_ERRORS = (KeyError, IndexError, ValueError, TypeError, AttributeError, FileNotFoundError, NotADirectoryError, IsADirectoryError)


def execute_case(prop, plan, scratch, stats=None):
    """Run one plan.  Returns None or a violation message; raises on harness errors."""
    ctx = Ctx(scratch, getattr(prop, 'TAGS', None))
    boot.set_clock_offset(0)
    random.seed(plan_hash(plan))

    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_SECONDS)
    cwd = '/'
    try:
        with quiet():
            prop.execute(plan, ctx)
        return None
    except Violation as e:
        return str(e)
    except OffTopic as e:
        if stats is not None:
            stats.offtopic += 1
            if len(stats.offtopic_samples) < 3:
                stats.offtopic_samples.append(str(e)[:300])
        return None
    except Reject:
        if stats is not None:
            stats.rejected += 1
        return None
    except (KeyboardInterrupt, CaseTimeout):
        raise
    except Exception as e:          # pylint: disable=broad-except
        if from_sut(e):
            if getattr(prop, 'SUT_EXCEPTION_IS_VIOLATION', True):
                return 'unexpected exception from the code under test: ' + describe(e)
            return None
        if isinstance(e, DATA_ERRORS):
            # the harness could not make sense of what the code under test produced
            return 'malformed result from the code under test: %s: %s at %s' % (
                type(e).__name__, str(e)[:200], traceback.extract_tb(e.__traceback__)[-1].name)
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        boot.set_clock_offset(0)
        ctx.done()
        if stats is not None:
            stats.record(plan, ctx)
