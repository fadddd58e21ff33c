"""Containment: the code under test runs as an unprivileged user that owns nothing but its scratch directory."""
import os, sys

UID = 65534

def drop():
    """Give up root for good.  True if this process is now unprivileged."""
    if os.geteuid() != 0:
        return True
    try:
        os.setgroups([])
    except OSError:
        pass
    try:
        os.setgid(UID)
        os.setuid(UID)
    except OSError:
        return False
    os.environ['HOME'] = '/nonexistent'
    os.environ['USER'] = os.environ['LOGNAME'] = 'nobody'
    return True


def hand_over(path):
    """Let the unprivileged user own a scratch directory."""
    if os.geteuid() == 0:
        try:
            os.chown(path, UID, UID)
        except OSError:
            pass
