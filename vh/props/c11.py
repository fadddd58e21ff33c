import base64
import vh.boot as boot
import pysodium
from hypothesis import strategies as st
from vh import core, interleave, srv
from vh.srv import Died

LEVEL = 'exploration'
RULE = ('requests using the same login token were in progress at the same time, or a sequence containing at least one accepted login and at least one attempt that differs from an acceptable one in '
        'exactly one respect (token used before, expired, other address, other repository, other signer, altered token or '
        'signature, user without permission)')
BUDGET = {'quick': 12000, 'thorough': 120000}
ASSUMPTIONS = ['Ed25519 signatures (libsodium) cannot be forged', 'attempts between 27 and 33 seconds after issue are not judged',
               'in the cases with several requests at the same time no switch happens within a database transaction']

USERS = ['alice', 'bob', 'carol', 'nobody']       # nobody is not configured
GRANTS = {'alice': ['repo0', 'repo1'], 'bob': ['repo0'], 'carol': []}
MARGIN = 3


def strategy(tier):
    ip, repo, user = st.integers(0, 1), st.integers(0, 2), st.integers(0, 3)
    issue = st.tuples(st.just('issue'), ip, st.integers(0, 1)).map(list)
    advance = st.tuples(st.just('advance'), st.sampled_from([1, 5, 14, 20, 26, 34, 61, 3600, 7100, 7300])).map(list)
    flaw = st.sampled_from(['none'] * 6 + ['sig_bit', 'sig_empty', 'sig_other', 'sig_cut', 'tok_alter', 'tok_unknown', 'tok_case', 'old_client',
                                           'no_user', 'signer', 'signer', 'repo', 'ip', 'user', 'user', 'sig_junk'])
    auth = st.tuples(st.just('auth'), st.integers(0, 5), flaw, user, st.integers(0, 9)).map(list)
    val = st.tuples(st.just('validate'), st.integers(0, 3), st.sampled_from(['none', 'none', 'none', 'ip', 'repo', 'alter', 'empty', 'logintoken', 'old_client']),
                    st.integers(0, 9)).map(list)
    revoke = st.tuples(st.sampled_from(['revoke', 'grant']), st.integers(0, 2), st.integers(0, 1)).map(list)
    restart = st.just(['restart'])
    op = st.one_of(issue, issue, auth, auth, auth, auth, val, advance, revoke, restart)
    logins = st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=3)
    races = st.integers(2, 3).flatmap(lambda k: st.fixed_dictionaries({
        'override': st.booleans(), 'scripts': st.lists(logins, min_size=k, max_size=k), 'schedule': interleave.schedules(k, 6)}))
    alone = st.fixed_dictionaries({'override': st.booleans(),
                                  'ops': st.lists(op, min_size=4, max_size=20 if tier == 'quick' else 40).map(lambda o: [['issue', 0, 0]] + o)})
    return st.integers(0, 7).flatmap(lambda k: races if k == 0 else alone)


def race(plan, ctx):
    """Several connections use the same few login tokens at the same time: [token, flaw, address]"""
    sim = srv.Sim(ctx, USERS[:3], ['repo0', 'repo1'], db_override=plan['override'], grants=GRANTS)
    first = sim.connect('192.168.0.7')
    tokens = [first.request('begin_auth', {'repository': 'repo0'}, b'{}').headers['auth_token'] for _ in range(3)]
    conns = [[sim.connect('192.168.0.%d' % (7 + ip)) for ip in range(2)] for _ in plan['scripts']]
    now, log = [0], []

    def script(i):
        def go(point):
            for k, flaw, ip in plan['scripts'][i]:
                ip = int(ip == 3)
                user = ['alice', 'bob'][i % 2]
                sig = base64.b64encode(pysodium.crypto_sign_detached(tokens[k], srv.keypair('carol' if flaw == 3 else user)[1])).decode()
                now[0] += 1
                t0 = now[0]
                try:
                    r = conns[i][ip].request('authenticate', {'client_version': '3', 'repository': 'repo0', 'user': user, 'auth_token': tokens[k],
                                                              'signature': sig}, b'{}', trace=point)
                except Died as e:
                    if 'locked' in str(e):
                        raise core.OffTopic('the database was busy') from None
                    raise
                now[0] += 1
                log.append((k, flaw != 3 and ip == 0, t0, now[0], r))
                point('request')
        return go
    baton = interleave.run([script(i) for i in range(len(plan['scripts']))], plan['schedule'], ctx, sim)
    seen = set()
    for k in range(3):
        tries = [x for x in log if x[0] == k]
        good = [x for x in tries if x[1]]
        ok = [x for x in tries if x[4].ok]
        ctx.check(all(x[1] for x in ok), 'a login is accepted which must not be, while others are at work')
        ctx.check(len(ok) <= 1, 'a login token opened %d sessions for requests at the same time' % len(ok))
        ctx.check(len(ok) == 1 or not good, 'a valid login is refused while others are at work')
        for x in ok:
            s = x[4].headers['session_token']
            ctx.check(s not in seen, 'a session token is given out twice')
            seen.add(s)
            r = first.request('authenticate', {'client_version': '3', 'repository': 'repo0', 'session_token': s}, b'{}')
            ctx.check(r.ok, 'the session of a login among others is refused')
        if baton.within and any(x is not y and x[2] < y[3] and y[2] < x[3] for x in good for y in good):
            ctx.label('the same token at the same time')
            ctx.nontrivial()


def execute(plan, ctx):
    if 'scripts' in plan:
        race(plan, ctx)
        return
    sim = srv.Sim(ctx, USERS[:3], ['repo0', 'repo1'], db_override=plan['override'], grants=GRANTS)
    conns = [None, None]
    now = [0.0]
    tokens, sessions, given = [], [], set()
    ever_ok = near = False

    def conn(ip):
        if conns[ip] is None or not conns[ip].open:
            conns[ip] = sim.connect('192.168.0.%d' % (7 + ip))
        return conns[ip]

    def ask(ip, headers, what):
        try:
            return conn(ip).request('authenticate', headers, b'{}')
        except Died:
            return None

    for op in plan['ops']:
        kind = op[0]
        ctx.label(kind)
        if kind == 'issue':
            repo = 'repo%d' % op[2]
            r = conn(op[1]).request('begin_auth', {'repository': repo}, b'{}')
            ctx.check(r.ok, 'begin_auth refused')
            t = r.headers['auth_token']
            ctx.check(t not in given and len(t) >= 20, 'login token given out twice or too short')
            given.add(t)
            tokens.append({'t': t, 'repo': repo, 'ip': op[1], 'at': now[0], 'used': False})
        elif kind == 'advance':
            boot.advance_clock(op[1])
            now[0] += op[1]
        elif kind in ('revoke', 'grant'):
            g = sim.config['users'][USERS[op[1]]]['uses_repositories']
            repo = 'repo%d' % op[2]
            if kind == 'revoke' and repo in g: g.remove(repo)
            if kind == 'grant' and repo not in g: g.append(repo)
        elif kind == 'restart':
            sim.restart()
            conns = [None, None]
        elif kind == 'auth':
            _, k, flaw, u, x = op
            if not tokens:
                continue
            tok = tokens[-1 - k % len(tokens)]
            repo, ip, t = tok['repo'], tok['ip'], tok['t']
            permitted = [n for n in USERS[:3] if repo in sim.config['users'][n]['uses_repositories']]
            user = permitted[u % len(permitted)] if permitted else USERS[u % 3]
            if flaw == 'user': user = USERS[u]
            signer = user
            if flaw == 'signer': signer = USERS[(USERS.index(user) + 1 + x % 3) % 4]
            if flaw == 'repo': repo = ['repo0', 'repo1', 'repo9'][(['repo0', 'repo1'].index(repo) + 1 + x % 2) % 3]
            if flaw == 'ip': ip = 1 - ip
            if flaw == 'tok_alter':
                i = x % len(t)
                t = t[:i] + ('A' if t[i] != 'A' else 'B') + t[i + 1:]
            if flaw == 'tok_unknown': t = base64.b64encode(b'q' * 35).decode()
            if flaw == 'tok_case': t = t.swapcase()
            sig = pysodium.crypto_sign_detached(t, srv.keypair(signer)[1])
            if flaw == 'sig_bit':
                b = bytearray(sig); b[x * 7 % 64] ^= 1 << (x % 8); sig = bytes(b)
            if flaw == 'sig_empty': sig = b''
            if flaw == 'sig_cut': sig = sig[:63]
            if flaw == 'sig_other': sig = pysodium.crypto_sign_detached(t + 'x', srv.keypair(signer)[1])
            sig64 = base64.b64encode(sig).decode()
            if flaw == 'sig_junk': sig64 = ['%', 'AAAA====', '\u00e9', ' '][x % 4]
            h = {'client_version': '3', 'repository': repo, 'user': user, 'auth_token': t, 'signature': sig64}
            if flaw == 'old_client': h['client_version'] = '2'
            if flaw == 'no_user': del h['user']
            age = now[0] - tok['at']
            genuine = t == tok['t']
            valid_sig = flaw not in ('sig_bit', 'sig_empty', 'sig_cut', 'sig_other', 'sig_junk') and signer == user and user in USERS[:3]
            fresh = age < 30 - MARGIN
            stale = age > 30 + MARGIN
            allowed = user in USERS[:3] and repo in sim.config['users'][user]['uses_repositories']
            ok_but_age = (genuine and valid_sig and allowed and not tok['used'] and repo == tok['repo'] and ip == tok['ip'] and
                          flaw not in ('old_client', 'no_user'))
            r = ask(ip, h, flaw)
            ok = r is not None and r.ok
            ctx.label('auth ' + flaw)
            if tok['used']: ctx.label('auth with a used token')
            if stale: ctx.label('auth with an expired token')
            if ok_but_age and not fresh and not stale:
                tok['used'] = tok['used'] or ok
                continue
            want = ok_but_age and fresh
            ctx.check(ok == want, '%s login by %r in %r from address %d (flaw %s, token issued for %s to address %d, %.0f s ago, used %s) was %s' % (
                'valid' if want else 'invalid', user, repo, ip, flaw, tok['repo'], tok['ip'], age, tok['used'], 'accepted' if ok else 'refused'))
            if not ok:
                if r is not None:
                    ctx.check('session_token' not in r.headers and r.body == b'', 'a refused login reveals a session')
                near = near or (not want)
                continue
            tok['used'] = True
            s = r.headers['session_token']
            ctx.check(s not in given and len(s) >= 20, 'session token given out twice or too short')
            given.add(s)
            sessions.append({'s': s, 'repo': repo, 'ip': ip, 'at': now[0], 'user': user})
            ever_ok = True
        elif kind == 'validate':
            _, k, flaw, x = op
            if not sessions:
                continue
            se = sessions[-1 - k % len(sessions)]
            s, ip, repo = se['s'], se['ip'], se['repo']
            if flaw == 'ip': ip = 1 - ip
            if flaw == 'repo': repo = 'repo1' if repo == 'repo0' else 'repo0'
            if flaw == 'empty': s = ''
            if flaw == 'alter':
                i = x % len(s)
                s = s[:i] + ('A' if s[i] != 'A' else 'B') + s[i + 1:]
            if flaw == 'logintoken': s = tokens[x % len(tokens)]['t']
            h = {'client_version': '2' if flaw == 'old_client' else '3', 'repository': repo, 'session_token': s}
            r = ask(ip, h, flaw)
            ok = r is not None and r.ok
            age = now[0] - se['at']
            if flaw == 'none' and abs(age - 7200) < MARGIN:
                continue
            want = flaw == 'none' and age < 7200
            if flaw == 'none' and se['repo'] not in sim.config['users'][se['user']]['uses_repositories']:
                continue          # whether a withdrawn permission ends the session is C12's business
            ctx.label('validate ' + flaw)
            ctx.check(ok == want, 're-validation (flaw %s, %.0f s old) was %s' % (flaw, age, 'accepted' if ok else 'refused'))
            if ok:
                ctx.check(r.headers.get('session_token') == s, 're-validation returned another session')
            elif r is not None:
                ctx.check('session_token' not in r.headers, 'a refused re-validation reveals a session')
    if ever_ok and near:
        ctx.nontrivial()
