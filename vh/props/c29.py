"""C29: backups are encrypted and tampering is always detected."""
import io, json, struct, zlib
from hypothesis import strategies as st
from vh import core, s3
from vh.s3 import Env
from vh.props import c28
from vh.repo_machine import CONTENTS, path_pool
from bversion import repo_manager

LEVEL = 'generated data, chunk sizes, passwords and alterations against a fake S3 service: round trip, secrecy of everything sent, detection'
RULE = ('data of at least one chunk was stored and either came back identical or an alteration of it was detected (distinct: data, chunk size '
        'and alteration)')
BUDGET = {'quick': 900, 'thorough': 80000}
ASSUMPTIONS = ['XChaCha20-Poly1305 and Argon2 (libsodium) do what they promise', 'names of objects (hashes, names of repositories) are not secret',
               'an object cut off exactly between chunks or exchanged for another one is only detected by verifying the restored repository (directories '
               'exchanged for each other are not judged)',
               'alterations that raise the cost of deriving the key are not judged']

HEAD = 24       # header of the secret stream
TAG = 17
KINDS = ['bit', 'bit', 'bit', 'byte', 'headbit', 'lenbit', 'swap', 'repeat', 'drop', 'cut', 'cut', 'append', 'noencrypt', 'chunksize', 'version', 'salt',
         'stream', 'splice', 'password', 'space', 'ops']


def strategy(tier):
    chunk = st.one_of(st.sampled_from([1, 2, 7, 16, 17, 64, 255, 1000, 4096, 65536]), st.integers(1, 300))
    size = st.one_of(st.integers(0, 60), st.integers(0, 2000), st.sampled_from([1000, 4096, 65536, 65537, 200000]))
    data = st.fixed_dictionaries({'chunk': chunk, 'size': size, 'rel': st.one_of(st.none(), st.tuples(st.integers(0, 4), st.integers(-1, 1)).map(list)),
                                  'seed': st.integers(0, 9), 'raw': st.one_of(st.none(), st.binary(max_size=40).map(lambda b: b.decode('latin-1')))})
    k = st.integers(0, 10 ** 6)
    alter = st.tuples(st.sampled_from(KINDS), k, k).map(list)
    obj = st.fixed_dictionaries({'kind': st.just('object'), 'data': data, 'alter': st.lists(alter, min_size=1, max_size=4), 'other': k})
    pw = st.one_of(st.text(st.characters(exclude_categories=['Cs']), min_size=1, max_size=12), st.sampled_from(['p', 'pass word', 'caf\u00e9', 'x' * 200, '\x00', '\x00a']))
    word = st.fixed_dictionaries({'kind': st.just('password'), 'data': data, 'one': pw, 'two': pw, 'rel': st.integers(0, 6)})
    version = st.tuples(st.integers(0, 2), st.lists(st.tuples(st.just('put'), st.integers(0, 9), CONTENTS).map(list), min_size=1, max_size=4)).map(list)
    repo = st.fixed_dictionaries({'kind': st.just('repository'), 'names': st.just(['repo']), 'flags': st.just([True]), 'paths': path_pool(min_size=3),
                                  'override': st.just(False), 'fresh': st.just(None), 'big': st.just(0),
                                  'versions': st.lists(version, min_size=1, max_size=3), 'chunk': st.sampled_from([16, 100, 1000]),
                                  'alters': st.lists(st.tuples(st.integers(0, 999), st.one_of(alter, st.tuples(st.sampled_from(['boundary', 'exchange']), k, k).map(list))).map(list),
                                                     min_size=1, max_size=4)})
    return st.one_of(*[obj] * 12, *[repo] * 6, word)


def make(d):
    if d['raw'] is not None:
        return d['raw'].encode('latin-1')
    n = d['size'] if d['rel'] is None else max(0, d['rel'][0] * d['chunk'] + d['rel'][1])
    n = min(n, d['chunk'] * 1500)
    unit = [b'secret text number %d. ' % d['seed'], b'\0', bytes(range(256)), b'{"V":"1"}'][d['seed'] % 4]
    return (unit * (n // len(unit) + 1))[:n]


def setup(password=s3.PASSWORD, chunk=1000):
    repo_manager.init(s3.config({}, password=password, chunk=chunk))
    return repo_manager.init_backup()


def upload(conn, key, data):
    repo_manager.streaming_upload(conn, repo_manager.config, key, io.BytesIO(data))

def download(conn, key):
    """The data, or None if that fails."""
    out = io.BytesIO()
    try:
        repo_manager.streaming_download(conn, repo_manager.config, key, None, out)
    except (Exception, SystemExit):     # pylint: disable=broad-except
        return None
    return out.getvalue()


def windows(data, n=12):
    return {data[i:i + n] for i in range(0, len(data) - n + 1, max(1, len(data) // 400))}


def secret(ctx, seen, plains, what):
    """Nothing that was sent contains any of the plain texts or is compressible (so it does not depend on them)."""
    for op, kw in seen:
        blobs = [(k, v) for k, v in kw.items() if isinstance(v, (bytes, bytearray))]
        texts = ' '.join(str(v) for k, v in kw.items() if k != 'Key' and not isinstance(v, (bytes, bytearray))).encode('utf8', 'replace')
        for p in plains:
            for k, v in blobs:
                for w in windows(p):
                    ctx.check(w not in v, '%s: %r of the plain text is in what is stored' % (what, w))
            if len(p) >= 8:
                ctx.check(p[:40] not in texts, '%s: plain text in a parameter of %s' % (what, op))


def parts(blob, chunk):
    """Length field and header, chunks (the first with the header of the stream)."""
    n = struct.unpack('!I', blob[:4])[0]
    head, rest = blob[:4 + n], blob[4 + n:]
    first = rest[:HEAD + TAG + chunk]
    rest = rest[len(first):]
    return head, [first] + [rest[i:i + chunk + TAG] for i in range(0, len(rest), chunk + TAG)]


def with_header(header):
    b = json.dumps(header, separators=(',', ':')).encode()
    return struct.pack('!I', len(b)) + b


def altered(blob, chunk, alter, other):
    """An altered object, or None if the alteration does not apply.  other: another object under the same key."""
    kind, a, b = alter
    head, chunks = parts(blob, chunk)
    body = b''.join(chunks)
    header = json.loads(head[4:])
    # the parameters that decide about the cost of deriving the key
    costly = head.find(b'"O"'), head.find(b'"S":"', head.find(b'"M"'))
    def flip(data, pos, bit):
        d = bytearray(data)
        d[pos] ^= 1 << bit
        return bytes(d)
    if kind == 'bit' and body:
        return head + flip(body, a % len(body), b % 8)
    if kind == 'byte' and body:
        i = a % len(body)
        return head + body[:i] + bytes([(body[i] + 1 + b % 255) % 256]) + body[i + 1:]
    if kind == 'stream':
        return head + flip(body, a % min(HEAD, len(body)), b % 8)
    if kind == 'headbit':
        i = 4 + a % (len(head) - 4)
        if costly[0] <= i < costly[1]:
            return None
        return flip(head, i, b % 8) + body
    if kind == 'lenbit':
        return flip(head, a % 4, b % 8) + body
    if kind == 'swap' and len(chunks) > 1:
        i, j = a % len(chunks), b % len(chunks)
        if i == j:
            j = (i + 1) % len(chunks)
        c = list(chunks)
        c[i], c[j] = c[j], c[i]
        return head + b''.join(c)
    if kind == 'repeat':
        i, j = a % len(chunks), 1 + b % len(chunks)
        c = list(chunks)
        c.insert(max(j, i + 1), chunks[i] if i else chunks[i][HEAD:])
        return head + b''.join(c)
    if kind == 'drop' and len(chunks) > 2:
        c = list(chunks)
        del c[1 + a % (len(c) - 2)]
        return head + b''.join(c)
    if kind == 'cut':
        total = len(head) + len(body)
        i = a % total
        ends, n = set(), len(head)
        for c in chunks:
            n += len(c)
            ends.add(n)
        return None if i in ends else (head + body)[:i]
    if kind == 'append':
        return blob + [b'\0', b'x' * TAG, chunks[-1], b'\0' * (chunk + TAG), body][a % 5]
    if kind == 'noencrypt':
        del header['E']
        return with_header(header) + [body, b'chosen by somebody else'][a % 2]
    if kind == 'chunksize':
        header['S'] = str([1, chunk + 1, max(1, chunk - 1), chunk + TAG, 10 ** 9][a % 5])
        return None if header['S'] == str(chunk) else with_header(header) + body
    if kind == 'version':
        header['V'] = ['0', '2', '01'][a % 3]
        return with_header(header) + body
    if kind == 'salt':
        import base64
        salt = bytearray(base64.b64decode(header['E']['S']))
        salt[a % len(salt)] ^= 1 << b % 8
        header['E']['S'] = base64.b64encode(bytes(salt)).decode()
        return with_header(header) + body
    if kind == 'ops':
        header['E']['O'] = 1
        header['E']['A'] = ['ARGON2I13', 'none'][a % 2]
        return None if with_header(header) == head else with_header(header) + body
    if kind == 'space':
        return struct.pack('!I', len(head) - 4 + 1) + head[4:] + [b' ', b'\n'][a % 2] + body
    if kind == 'splice' and other:
        h2, c2 = parts(other, chunk)
        c = list(chunks)
        i = a % len(c)
        if len(c2) <= i or c2[i] == c[i]:
            return None
        if i == 0 and (len(c) == 1 or len(c2) == 1):
            return None         # the whole stream of the other object
        c[i] = c2[i]
        return head + b''.join(c)
    return None


def with_object(plan, ctx):
    data, chunk = make(plan['data']), plan['data']['chunk']
    if data == b'':
        data = b'x'         # empty files are not stored
    Env.reset(s3.base_store())
    Env.seen = []
    conn = setup(chunk=chunk)
    upload(conn, 'repo/files/x', data)
    Env.store.put('repo/files/other', b'')
    blob = Env.store.get('repo/files/x')
    ctx.check(len(Env.store.objects['repo/files/x']) == 1 and not Env.store.uploads, 'one upload makes one object')
    secret(ctx, Env.seen, [data], 'an upload')
    secret(ctx, Env.seen, [s3.PASSWORD.encode(), bytes(repo_manager.config['crypto'].get('stream_crypt_key') or b'')], 'an upload')
    if len(data) > 3000 and chunk > 100:
        z = zlib.compress(blob, 9)
        ctx.check(len(z) > 0.93 * len(blob), 'what is stored for %d bytes can be compressed from %d to %d bytes: it depends on the data' % (len(data), len(blob), len(z)))
    again = download(conn, 'repo/files/x')
    ctx.check(again == data, 'data of %d bytes in chunks of %d comes back %s' % (len(data), chunk, 'not at all' if again is None else 'as %d other bytes' % len(again)))
    upload(conn, 'repo/files/x', data)
    blob2 = Env.store.get('repo/files/x')
    h, c = parts(blob2, chunk)
    w = set(c[0][i:i + 8] for i in range(len(c[0]) - 8))
    b = b''.join(parts(blob, chunk)[1])
    ctx.check(not any(x in b for x in w), 'the same data is stored in the same way twice')
    if len(data) >= chunk:
        ctx.nontrivial()
    # another object with the same length, for exchanges of chunks
    for al in plan['alter']:
        if al[0] == 'password':
            continue
        bad = altered(blob, chunk, al, blob2)
        if bad is None or bad == blob:
            continue
        ctx.evals += 1
        Env.store.put('repo/files/x', bad)
        got = download(conn, 'repo/files/x')
        ctx.check(got is None, 'an altered object (%s) is accepted and yields %s' % (al[0], 'the same data' if got == data else 'other data'))
        ctx.nontrivial()
        ctx.label(al[0])


def with_password(plan, ctx):
    data, chunk = make(plan['data']) or b'x', plan['data']['chunk']
    one, two = plan['one'], plan['two']
    rel = plan['rel']
    if rel == 0: two = one + ' '
    if rel == 1: two = one[:-1] or 'q'
    if rel == 2: two = one.swapcase()
    if rel == 3: two = one + '\x00'
    if rel == 4: two = one + one
    Env.reset(s3.Store())
    Env.store.versioning = 'Enabled'
    Env.seen = []
    conn = setup(one, chunk)
    upload(conn, 'repo/files/x', data)
    plains = [data] + ([one.encode()] if len(one.encode()) >= 6 else [])
    secret(ctx, Env.seen, plains, 'an upload')
    forget()
    conn = setup(one, chunk + 3)
    got = download(conn, 'repo/files/x')
    ctx.check(got == data, 'data does not come back with the right password')
    if two != one:
        forget()
        conn = setup(two, chunk)
        got = download(conn, 'repo/files/x')
        ctx.check(got is None, 'data can be restored with another password: %r instead of %r' % (two, one))
        ctx.label('wrong password')
        ctx.nontrivial()


def forget():
    """As in another process."""
    from bversion.backup import crypto
    cache = getattr(crypto, 'password_cache', None)
    if isinstance(cache, dict):
        cache.clear()


def with_repository(plan, ctx):
    w = c28.World(dict(plan, runs=[]), ctx)
    for _, edits in plan['versions']:
        w.commit('repo', edits)
    if not w.versions['repo']:
        return
    Env.seen = []
    run = {'chunk': plan['chunk'], 'page': 1000}
    ctx.check(w.backup(run, None), 'backup does not end')
    plains = [s3.PASSWORD.encode()]
    for _, files in w.versions['repo']:
        for p, d in files.items():
            plains.append(d[:2000])
            if len(p.encode()) >= 10:
                plains.append(p.encode())
    secret(ctx, Env.seen, [p for p in plains if len(p) >= 10], 'a backup')
    Env.seen = None
    good = Env.store.copy()
    keys = sorted(k for k in good.objects if '/' in k and '/commits/' not in k)
    for which, al in plan['alters']:
        Env.store = good.copy()
        key = keys[which % len(keys)]
        blob = good.get(key)
        if al[0] == 'boundary':
            head, chunks = parts(blob, plan['chunk'])
            if len(chunks) < 2:
                continue
            bad = head + b''.join(chunks[:1 + al[1] % (len(chunks) - 1)])
        elif al[0] == 'exchange':
            source = keys[al[1] % len(keys)]
            if '/files/' not in key + source:
                continue        # directories exchanged for each other can contain themselves without end
            bad = good.get(source)
        else:
            bad = altered(blob, plan['chunk'], al, good.get(keys[al[2] % len(keys)]))
        if bad is None or bad == blob:
            continue
        ctx.evals += 1
        Env.store.put(key, bad)
        found = attempt(w, run)
        ctx.check(found, 'a repository with an altered object (%s of %s) is restored, and verified without complaint' % (al[0], key.split('/')[1]))
        ctx.nontrivial()
        ctx.label('restore with ' + al[0])
    Env.store = good
    w.restore(run)
    w.compare()


def attempt(w, run):
    """Restore: True if that fails, or a verification reports it."""
    import shutil, sys, os
    path = w.sim.path('repo') + '_restore'
    shutil.rmtree(path, ignore_errors=True)
    repo_manager.init(s3.config(w.repositories(), chunk=run['chunk']))
    old = sys.argv
    sys.argv = ['bvn_repo', 'restore']
    try:
        repo_manager.run()
    except (Exception, SystemExit):     # pylint: disable=broad-except
        return True
    finally:
        sys.argv = old
    db = os.path.join(w.ctx.newdir(), 'transient.db')
    try:
        out = w.verify({'repo': {'path': path, 'transient_db_path_override': db}})
    except Exception:                   # pylint: disable=broad-except
        return True
    return 'No issues' not in out


def execute(plan, ctx):
    {'object': with_object, 'password': with_password, 'repository': with_repository}[plan['kind']](plan, ctx)
