"""C23: checkout creates an exact, usable working copy."""
import base64, os
import pysodium
from hypothesis import strategies as st
from vh import client_machine as cm, srv

LEVEL = 'generated repositories, addresses and credentials against a model'
RULE = 'a checkout of a repository with at least one file succeeded and was committed from, or one with a single thing wrong was refused'
BUDGET = {'quick': 1200, 'thorough': 16000}

GOOD = ['http://server.example:8090/repo', 'http://server.example/repo', 'http://server.example:8090/repo/', 'http://server.example:8090//repo',
        'HTTP://Server.Example:8090/repo', 'http://server.example:8090/repo?x', 'https://server.example/repo']
BAD = ['server.example/repo', 'ftp://server.example/repo', 'http://server.example:8090/', 'http://server.example:8090', 'http://server.example:8090/repo/sub',
       'http:///repo', 'repo', '', '/repo', 'http://other.example/repo', 'http://server.example:8090/other', 'http://server.example:8090/Repo',
       'http://server.example:8090/..', 'http://server.example:8090/%72epo', 'http://server.example:8090/.']
WRONG = ['url', 'user', 'emptyuser', 'stranger', 'otherkey', 'truncated', 'notbase64', 'emptykey', 'flipped', 'nourl', 'eof1', 'eof2', 'exists', 'file', 'outdated', 'wrongpw', 'refused']


def strategy(tier):
    edits = st.lists(cm.edit_ops(), min_size=1, max_size=4)
    write = st.tuples(st.just('write'), st.integers(0, 9), cm.CONTENTS, st.just(0)).map(list)
    return st.fixed_dictionaries({
        'wcs': st.just([[0, 0]]),
        'paths': cm.pools(min_size=2),
        'versions': st.lists(st.lists(st.one_of(write, cm.edit_ops({'bulk': 1})), min_size=1, max_size=5), min_size=0, max_size=3),
        'user': st.integers(0, 1),
        'url': st.integers(0, 99),
        'encrypted': st.sampled_from([False] * 5 + [True]),
        'space': st.integers(0, 3),
        'cwd': st.integers(0, 3),
        'wrong': st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(WRONG), st.integers(0, 99)).map(list)),
        'stop': st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 9), st.sampled_from(['before', 'after'])).map(list)),
        'edits': edits,
        'elsewhere': st.one_of(st.just([]), edits)})


PASSWORD = 'correct horse'
_encrypted = {}

def encrypted_key(user):
    if user not in _encrypted:
        salt, nonce = b's' * 16, b'n' * 24
        key = pysodium.crypto_pwhash(32, PASSWORD, salt, pysodium.crypto_pwhash_argon2i_OPSLIMIT_INTERACTIVE,
                                     pysodium.crypto_pwhash_argon2i_MEMLIMIT_INTERACTIVE, pysodium.crypto_pwhash_ALG_ARGON2I13)
        _encrypted[user] = base64.b64encode(b'y' + salt + nonce + pysodium.crypto_secretbox(srv.keypair(user)[1], nonce, key)).decode()
    return _encrypted[user]


def listing(d):
    out = []
    for base, dirs, names in os.walk(d):
        out += [os.path.join(base, x) for x in dirs + names]
    return sorted(out)


def execute(plan, ctx):
    m = cm.Machine(ctx, plan)
    a = m.wcs[0]
    for es in plan['versions']:
        for e in es:
            m.edit(a, *e)
        m.commit(a)
    user = m.users[plan['user']]
    key, typed = m.key(user), user
    password = None
    wrong, x = plan['wrong'] or (None, 0)
    url = GOOD[plan['url'] % len(GOOD)]
    if plan['encrypted'] or wrong == 'wrongpw':
        key, password = encrypted_key(user), PASSWORD
    if wrong == 'url':
        url = BAD[x % len(BAD)]
    elif wrong == 'user':
        typed = ['nobody', user.upper(), user + 'x', user[:-1], '../' + user][x % 5]
    elif wrong == 'stranger':            # exists, but has no access to the repository
        m.sim.config['users'][user]['uses_repositories'] = []
    elif wrong == 'otherkey':
        key = m.key(m.users[1 - plan['user']])
    elif wrong == 'truncated':
        key = base64.b64encode(base64.b64decode(key)[:x % len(base64.b64decode(key))]).decode()
    elif wrong == 'notbase64':
        key = ['a', '!!!!', key[:-3], 'n' + key][x % 4]
    elif wrong == 'emptykey':
        key = ['', ' ', '\t'][x % 3]
    elif wrong == 'emptyuser':
        typed = ['', ' ', '\t'][x % 3]
    elif wrong == 'flipped':
        raw = bytearray(base64.b64decode(key))
        raw[1 + x % 32] ^= 1 << x % 8           # the secret part
        key = base64.b64encode(bytes(raw)).decode()
    elif wrong == 'wrongpw':
        password = ['', 'Correct horse', 'correct horse ', 'x'][x % 4]

    top = os.path.join(ctx.newdir(), 'home')
    os.makedirs(os.path.join(top, 'sub dir'))
    cwd = [top, top, os.path.join(top, 'sub dir'), top][plan['cwd']]
    target = os.path.join(cwd, 'repo')
    if wrong == 'exists':
        os.makedirs(os.path.join(target, 'mine'))
    elif wrong == 'file':
        with open(target, 'wb') as f:
            f.write(b'mine')
    before = listing(top)
    blank = ['', ' ', '  ', '\t'][plan['space']]
    answers = [blank + typed + blank, blank + key + blank]
    if wrong in ('eof1', 'eof2'):
        answers = answers[:int(wrong[-1]) - 1]
    prompts = []

    def answer(kind, text):
        prompts.append(kind)
        if kind == 'getpass':
            return password
        return answers.pop(0) if answers else None
    seen = {'n': 0, 'hit': False}

    def hook(when, n, route, headers, body):
        if wrong == 'refused' and when == 'before' and n == x % 2:
            return 'fail'
        if wrong is None and plan['stop'] is not None and route == 'pull_file' and when == plan['stop'][1]:
            seen['n'] += 1
            if seen['n'] == plan['stop'][0] + 1:
                seen['hit'] = True
                return 'drop'
        return None
    args = ['checkout'] + ([] if wrong == 'nourl' else [url])
    from bversion import version_numbers
    keep = version_numbers.minimum_client_version
    if wrong == 'outdated':
        version_numbers.minimum_client_version = version_numbers.client_version + 1
    try:
        r = m.server.run(args, cwd, answer=answer, hook=hook)
    finally:
        version_numbers.minimum_client_version = keep
        m.sim.config['users'][user]['uses_repositories'] = [cm.REPO]
    if wrong:
        ctx.check(not r.ok, 'checkout with something wrong (%s) succeeds' % wrong)
        ctx.check(listing(top) == before, 'checkout with something wrong (%s) created %s' % (wrong, sorted(set(listing(top)) ^ set(before))))
        ctx.nontrivial()
        ctx.label('wrong: ' + wrong)
        m.check_disk(a, 'a refused checkout')
        m.check_versions('a refused checkout')
        return
    w = cm.WC(1, user, '10.0.0.1', target)
    m.wcs.append(w)
    tree = m.versions[-1]['files']
    ctx.check(sorted(os.listdir(cwd)) == sorted({'repo'} | {os.path.basename(p) for p in before if os.path.dirname(p) == cwd}), 'checkout created %s' % os.listdir(cwd))
    host, port, tls = r.address
    ctx.check(host == 'server.example' and port == (8090 if ':8090' in url else 443 if url.startswith('https') else 80)
              and tls == url.startswith('https'), 'checkout of %s connects to %s' % (url, r.address))
    kw = {'answer': lambda kind, text: password if kind == 'getpass' else 'client'}
    if seen['hit']:
        # broken off: it is a working copy already, update completes it
        ctx.check(not r.ok, 'checkout succeeds without a connection')
        for p, (c, _) in w.scan().items():
            ctx.check(tree.get(p) == c, 'a broken off checkout left %s with wrong contents' % p)
        r = m.bvn(w, ['update'], **kw)
        ctx.label('broken off')
    ctx.check(r.ok, 'checkout fails: %r' % r)
    got = cm.contents_of(w.scan())
    ctx.check(got == tree, 'a checkout differs from the newest version: %s' % cm.differences(got, tree))
    w.files = w.scan()
    w.base, w.rev = dict(w.files), len(m.versions) - 1
    s = m.bvn(w, ['status'], **kw)
    ctx.check(s.ok and 'Nothing changed' in s.out, 'status after a checkout: %r %r' % (s, s.out))
    s = m.bvn(w, ['update'], **kw)
    ctx.check(s.ok and 'Nothing to update' in s.out and cm.contents_of(w.scan()) == tree, 'update after a checkout: %r %r' % (s, s.out))
    if plan['elsewhere']:
        for e in plan['elsewhere']:
            m.edit(a, *e)
        m.commit(a)
        s = m.bvn(w, ['update'], **kw)
        want = m.versions[-1]['files']
        ctx.check(s.ok and cm.contents_of(w.scan()) == want, 'update after a checkout: %r %s' % (s, cm.differences(cm.contents_of(w.scan()), want)))
        w.files = w.scan()
        w.base, w.rev = dict(w.files), len(m.versions) - 1
    for e in plan['edits']:
        m.edit(w, *e)
    n = m.commits
    m.commit(w, msg='from the checkout', **kw)
    if m.commits > n:
        c = m.sim.connect('10.9.9.9')
        tok = m.sim.login(c, m.users[0], cm.REPO)
        v = c.request('list_versions', {'session_token': tok, 'repository': cm.REPO}, b'{}').json()['versions'][0]
        ctx.check(v['commit_by'] == user and v['commit_message'] == 'from the checkout', 'the commit of %s is recorded as %s' % (user, v))
        if tree:
            ctx.nontrivial()
            ctx.label('used: ' + user + (' encrypted key' if plan['encrypted'] else ''))
    if m.update(a) is None:
        return
    ctx.check(a.tracked() == w.tracked(), 'the working copies differ')
