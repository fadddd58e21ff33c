"""Process bootstrap: module paths, a movable clock, and the imports of the code under test from /repo.

Import this before anything from bversion.  The only things replaced here are the clock (time.time gets
an offset the plans can move) and argon2's cost for tests that are not about key derivation (not replaced
here: see c28/c29, which reuse one salt instead)."""
import os, sys, time

REPO = os.environ.get('VERIF_REPO', '/repo')
HYP  = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
if HYP not in sys.path:
    sys.path.append(HYP)

# ------------------------------------------------------------------ clock
real_time = time.time
_offset = 0.0

def _shifted_time():
    return real_time() + _offset

time.time = _shifted_time

def set_clock_offset(seconds):
    global _offset
    _offset = float(seconds)

def advance_clock(seconds):
    global _offset
    _offset += float(seconds)


class Module_location_error(Exception):
    pass


def check_module_location(mod):
    if not os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + '/'):
        raise Module_location_error(mod.__file__)
