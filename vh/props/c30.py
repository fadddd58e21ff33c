"""C30: a generated key works, and only with its password."""
import base64, builtins, getpass, unicodedata
from hypothesis import strategies as st
import vh.boot as boot
import pysodium
from bversion import crypto

boot.check_module_location(crypto)

LEVEL = 'generated passwords, wrong passwords and alterations: round trip through generation and unlocking, rejection'
RULE = 'a key encrypted under a password was unlocked with it, and a wrong password or an alteration was tried'
BUDGET = {'quick': 500, 'thorough': 16000}
ASSUMPTIONS = ['Argon2, XSalsa20-Poly1305 and Ed25519 (libsodium) do what they promise']

EDIT = ['same', 'same', 'append', 'cut', 'case', 'nul', 'double', 'strip', 'empty', 'nfd', 'space', 'first', 'last', 'mid', 'bytes']


def strategy(tier):
    pw = st.one_of(st.text(st.characters(exclude_categories=['Cs']), max_size=12),
                   st.sampled_from(['', ' ', 'password', 'caf\u00e9', 'cafe\u0301', '\u65e5\u672c\u8a9e', 'x' * 64, 'x' * 65, 'x' * 500, '\x00', 'a\x00b', '\U0001f511', 'y', 'n', '\u00df', 'A' * 128]))
    k = st.integers(0, 10 ** 6)
    return st.fixed_dictionaries({
        'encrypt': st.sampled_from([True] * 9 + [False]), 'password': pw, 'noise': st.lists(st.sampled_from(['', 'yes', 'Q', ' ', 'yn', '0']), max_size=2),
        'upper': st.booleans(), 'mistypes': st.lists(st.tuples(st.sampled_from(EDIT), pw, k).map(list), max_size=1), 'twice': st.sampled_from([True, False, False]),
        'wrong': st.lists(st.tuples(st.sampled_from(EDIT), pw, k).map(list), min_size=1, max_size=2),
        'alter': st.lists(st.tuples(st.sampled_from(['bit', 'bit', 'bit', 'marker', 'cut', 'append', 'swap', 'zero']), k, k).map(list), max_size=2)})


def wrong(kind, p, other, k):
    if kind == 'append': return p + 'x'
    if kind == 'cut':    return p[:-1]
    if kind == 'case':   return p.swapcase()
    if kind == 'nul':    return p + '\x00'
    if kind == 'double': return p + p
    if kind == 'strip':  return p.strip()
    if kind == 'empty':  return ''
    if kind == 'nfd':    return unicodedata.normalize('NFD', p) if unicodedata.normalize('NFD', p) != p else unicodedata.normalize('NFKC', p)
    if kind == 'space':  return ' ' + p
    if kind == 'bytes':  return p.encode('utf8').decode('latin-1')
    i = {'first': 0, 'last': len(p) - 1}.get(kind, k % max(1, len(p)))
    if kind in ('first', 'last', 'mid') and p:
        c = chr(ord(p[i]) + 1)
        if 0xd800 <= ord(c) < 0xe000: c = 'x'
        return p[:i] + c + p[i + 1:]
    return other


def altered(blob, kind, a, b):
    d = bytearray(blob)
    if kind == 'bit':
        d[a % len(d)] ^= 1 << b % 8
    elif kind == 'marker':
        d[0] = b'nY\x00z '[a % 5]
    elif kind == 'cut':
        del d[-(1 + a % (len(d) - 1)):]
    elif kind == 'append':
        d += bytes([b % 256]) * (1 + a % 3)
    elif kind == 'swap':
        i, j = a % len(d), b % len(d)
        d[i], d[j] = d[j], d[i]
    else:
        d[a % len(d)] = 0
    return bytes(d)


class Terminal:
    """Answers to what is asked."""
    def __init__(self, ctx, answers, passwords):
        self.ctx, self.answers, self.passwords = ctx, list(answers), list(passwords)
        self.asked = 0
    def input(self, prompt=''):
        if not self.answers:
            raise EOFError
        return self.answers.pop(0)
    def getpass(self, prompt='', stream=None):
        self.asked += 1
        if not self.passwords:
            raise EOFError
        return self.passwords.pop(0)
    def __enter__(self):
        self.old = builtins.input, getpass.getpass
        builtins.input, getpass.getpass = self.input, self.getpass
        if getattr(crypto, 'getpass', None) is self.old[1]:
            crypto.getpass = self.getpass
        return self
    def __exit__(self, *a):
        builtins.input, getpass.getpass = self.old
        if getattr(crypto, 'getpass', None) == self.getpass:
            crypto.getpass = self.old[1]


def unlock(ctx, blob, password):
    """The key, or None if it is rejected."""
    with Terminal(ctx, [], [password]) as t:
        try:
            return crypto.unlock_private_key(base64.b64encode(blob).decode()), t.asked
        except (Exception, SystemExit):     # pylint: disable=broad-except
            return None, t.asked


def good(ctx, secret, public, what):
    ctx.check(secret is not None, '%s: the key cannot be unlocked' % what)
    msg = b'a message to sign'
    try:
        sig = pysodium.crypto_sign_detached(msg, secret)
        pysodium.crypto_sign_verify_detached(sig, msg, public)
    except Exception as e:      # pylint: disable=broad-except
        ctx.check(False, '%s: the key does not sign for its public key: %r' % (what, e))


def execute(plan, ctx):
    p = plan['password']
    enc = plan['encrypt']
    answer = 'y' if enc else 'n'
    typed = []
    for m in plan['mistypes']:
        m = wrong(m[0], p, *m[1:])
        if m != p:
            typed += [p, m]
    with Terminal(ctx, plan['noise'] + [answer.upper() if plan['upper'] else answer], typed + [p, p]) as t:
        stored64, public64 = crypto.make_keypair()
        ctx.check(not t.answers and (t.asked == 0 if not enc else not t.passwords), 'generating a key asks %d times for a password' % t.asked)
    stored, public = base64.b64decode(stored64), base64.b64decode(public64)
    ctx.check(len(public) == pysodium.crypto_sign_PUBLICKEYBYTES, 'the public key has %d bytes' % len(public))
    secret, asked = unlock(ctx, stored, p)
    ctx.check(asked == (1 if enc else 0), 'unlocking asks %d times for a password' % asked)
    good(ctx, secret, public, 'unlocking')
    ctx.check(secret[32:] == public, 'the private key belongs to another public key')
    if not enc:
        ctx.label('no password')
        return
    for i in range(0, len(secret) - 8):
        ctx.check(secret[i:i + 8] not in stored and secret[i:i + 8] not in bytes(stored64), 'part of the private key is stored as it is')
    if len(p.encode()) >= 6:
        ctx.check(p.encode() not in stored, 'the password is stored with the key')
    if plan['twice']:
        ctx.evals += 1
        with Terminal(ctx, ['y'], [p, p]):
            stored2 = base64.b64decode(crypto.make_keypair()[0])
        for i in range(1, len(stored) - 7):
            ctx.check(stored[i:i + 8] not in stored2, 'two keys generated with the same password have a part in common')
    tried = 0
    for kind, other, k in plan['wrong']:
        q = wrong(kind, p, other, k)
        if q == p:
            continue
        tried += 1
        ctx.evals += 1
        got, _ = unlock(ctx, stored, q)
        ctx.check(got is None, 'the key can be unlocked with %r instead of %r' % (q, p))
        ctx.label('wrong password')
    for kind, a, b in plan['alter']:
        bad = altered(stored, kind, a, b)
        if bad == stored:
            continue
        tried += 1
        ctx.evals += 1
        got, _ = unlock(ctx, bad, p)
        ctx.check(got is None, 'an altered key (%s) is accepted%s' % (kind, '' if got == secret else ' and is another key'))
        ctx.label('altered: ' + kind)
    if tried:
        ctx.nontrivial()
