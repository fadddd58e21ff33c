"""C28: backup followed by restore reproduces the repository."""
import json, os, shutil, sys
from hypothesis import strategies as st
from vh import core, s3, srv
from vh.s3 import Env, Killed
from vh.repo_machine import content, path_pool, CONTENTS, sha
from bversion import repo_manager

LEVEL = 'generated histories, backup runs and failures against a fake S3 service and a model of every version'
RULE = 'at least two versions were backed up, at least two runs were needed or one of them failed, and the restored repository was compared'
BUDGET = {'quick': 1800, 'thorough': 40000}
ASSUMPTIONS = ['the S3 service keeps what it acknowledged and lists it at once', 'single page of unfinished uploads (1000)',
               'nobody else writes below the same names in the bucket']

NAMES = ['repo', 'repo2', 'repo/files', 'repo/commits', 'repo/index', 'rep', 'with space', 'caf\u00e9', 'Repo', 'repo/head']
CHUNKS = [16, 100, 1000, 65536, None]


def strategy(tier):
    edit = st.tuples(st.sampled_from(['put'] * 4 + ['del'] + ['same']), st.integers(0, 9), CONTENTS).map(list)
    version = st.tuples(st.integers(0, 2), st.lists(edit, min_size=1, max_size=5)).map(list)
    kinds = ['before', 'after', 'kill-before', 'kill-after', 'before', 'kill-after']
    fault = st.one_of(st.none(), st.tuples(st.integers(0, 999), st.sampled_from(kinds), st.integers(0, 3)).map(list))
    run = lambda lo: st.fixed_dictionaries({'versions': st.lists(version, min_size=lo, max_size=4), 'fault': fault, 'again': fault, 'chunk': st.sampled_from(CHUNKS),
                                 'page': st.sampled_from([1, 2, 3, 5, 1000]), 'restore': st.sampled_from([False, False, True])})
    return st.fixed_dictionaries({
        'names': st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True),
        'flags': st.lists(st.sampled_from([True, True, True, True, False, None]), min_size=3, max_size=3),
        'paths': path_pool(min_size=3), 'override': st.booleans(),
        'fresh': st.sampled_from([None] * 12 + ['unversioned', 'suspended', 'versioned']),
        'runs': st.tuples(run(2), st.lists(run(0), max_size=2 if tier == 'quick' else 5)).map(lambda r: [r[0]] + r[1]),
        'rfault': fault, 'big': st.sampled_from([0, 0, 0, 1])})


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.names = plan['names']
        self.sim = srv.Sim(ctx, ['user'], self.names, db_override=plan['override'])
        self.versions = {n: [] for n in self.names}         # [(id, {path: bytes})]
        self.flag = dict(zip(self.names, plan['flags']))
        self.backed = {n: False for n in self.names}
        if plan['fresh'] is None:
            store = s3.base_store()
        else:
            store = s3.Store()
            store.versioning = {'unversioned': None, 'suspended': 'Suspended', 'versioned': 'Enabled'}[plan['fresh']]
        Env.reset(store)

    def repositories(self):
        out = {}
        for n in self.names:
            out[n] = dict(self.sim.config['repositories'][n])
            if self.flag[n] is not None:
                out[n]['backup'] = self.flag[n]
        return out

    # ------------------------------------------------------------ versions
    def commit(self, n, edits):
        files = dict(self.versions[n][-1][1]) if self.versions[n] else {}
        c = self.sim.connect()
        tok = self.sim.login(c, 'user', n)
        h = {'session_token': tok, 'repository': n, 'user': 'user'}
        head = self.versions[n][-1][0] if self.versions[n] else 'root'
        plan = {}
        for kind, a, spec in edits:
            p = self.plan['paths'][a % len(self.plan['paths'])]
            have = dict(files)
            have.update({k: v for k, v in plan.items() if v is not None})
            if kind == 'del':
                if p in files:
                    plan[p] = None
                continue
            if kind == 'same' and files:
                data = files[sorted(files)[spec % len(files) if isinstance(spec, int) else 0]]
            else:
                data = content(spec)
                if isinstance(spec, int) and spec >= 10 and not self.plan['big']:
                    data = data[:3000 + spec]
            if any(q.startswith(p + '/') or p.startswith(q + '/') for q in have):
                continue
            plan[p] = data
        plan = {p: d for p, d in plan.items() if d is not None or p in files}
        if not plan:
            c.close()
            return
        assert c.request('begin_commit', dict(h, previous_revision=head), b'{}').ok
        gone = [{'path': p} for p, d in plan.items() if d is None]
        for p, d in plan.items():
            if d is not None:
                assert c.request('push_file', dict(h, path=p), d).ok
                files[p] = d
        if gone:
            assert c.request('delete_files', h, json.dumps({'files': json.dumps(gone)}).encode()).ok
            for g in gone:
                files.pop(g['path'])
        r = c.request('commit', dict(h, mode='commit', commit_message='version %d' % len(self.versions[n])), b'{}')
        c.close()
        if not r.ok or r.headers.get('head') in (None, head):
            raise core.OffTopic('a commit is not accepted: %r' % r)
        self.versions[n].append((r.headers['head'], files))

    # ------------------------------------------------------------ runs of bvn_repo
    def bvn_repo(self, what, repositories, fault=None, chunk=None, page=1000):
        """True: ended normally."""
        Env.page = page
        Env.arm(fault)
        if self.plan['big'] and chunk is not None:
            chunk = max(chunk, 1000)        # S3 takes no more than 10000 parts
        repo_manager.init(s3.config(repositories, chunk=chunk))
        old = sys.argv
        sys.argv = ['bvn_repo', what]
        try:
            repo_manager.run()
            return True
        except Killed:
            return False
        except SystemExit as e:
            if e.code == 0 and not Env.hit:         # versioning has been switched on: start again
                self.ctx.check(Env.store.versioning == 'Enabled', '%s ends without doing anything' % what)
                self.ctx.label('versioning switched on')
                return self.bvn_repo(what, repositories, None, chunk, page)
            self.ctx.check(Env.hit, '%s stops: %s' % (what, e.code))
            return False
        except Exception as e:          # pylint: disable=broad-except
            self.ctx.check(Env.hit, '%s fails: %s' % (what, core.describe(e)))
            return False
        finally:
            sys.argv = old
            Env.dead = False

    def size(self):
        """Roughly the number of calls of a complete backup."""
        k = 8
        for n in self.names:
            for _, files in self.versions[n]:
                k += 12 + 5 * len(files)
        return k

    def backup(self, run, fault):
        if fault is not None:
            fault = (fault[0] % self.size(), fault[1], fault[2])
        had = {k: len(v) for k, v in Env.store.objects.items()}
        ok = self.bvn_repo('backup', self.repositories(), fault, run['chunk'], run['page'])
        twice = [k for k, n in had.items() if len(Env.store.objects.get(k, [])) != n and not k.endswith('/head')]
        self.ctx.check(not twice, 'a backup changed or transferred again what was stored already: %s' % twice[:3])
        if ok:
            for n in self.names:
                if self.flag[n] and self.versions[n]:
                    self.backed[n] = len(self.versions[n])
        return ok

    # ------------------------------------------------------------ the restored repositories
    def restore(self, run, fault=None):
        for n in self.names:
            shutil.rmtree(self.sim.path(n) + '_restore', ignore_errors=True)
        if fault is not None:
            ok = self.bvn_repo('restore', self.repositories(), (fault[0] % self.size(), fault[1], fault[2]), run['chunk'], run['page'])
            if not ok:
                self.ctx.label('restore failed and was repeated')
        before = {n: self.tree(self.sim.path(n)) for n in self.names}
        ok = self.bvn_repo('restore', self.repositories(), None, run['chunk'], run['page'])
        self.ctx.check(ok, 'restore does not end')
        for n in self.names:
            self.ctx.check(self.tree(self.sim.path(n)) == before[n], 'restoring changed the repository it was made from')

    @staticmethod
    def tree(path):
        out = {}
        for d, _, names in os.walk(path):
            for x in names:
                if 'transient' in x:
                    continue
                with open(os.path.join(d, x), 'rb') as f:
                    out[os.path.join(d, x)] = sha(f.read())
        return out

    def compare(self):
        """Every backed up repository, as it was at the last complete backup."""
        ctx = self.ctx
        todo = [n for n in self.names if self.backed[n]]
        for n in self.names:
            if n not in todo:
                ctx.check(not os.path.exists(os.path.join(self.sim.path(n) + '_restore', 'head')), 'a repository that is not backed up was restored')
        if not todo:
            return
        repos = {n: {'path': self.sim.path(n) + '_restore', 'transient_db_path_override': os.path.join(self.ctx.newdir(), 'transient.db')} for n in todo}
        # verification
        out = self.verify(repos)
        ctx.check(out.count('No issues') == len(todo) and 'following issues' not in out, 'verification of the restored repository: %s' % out[-600:])
        # its history as clients see it
        sim = srv.Sim(ctx, ['user'], [])
        sim.config['repositories'].update({n: dict(r) for n, r in repos.items()})
        sim.config['users']['user']['uses_repositories'] = list(todo)
        sim.start()
        for n in todo:
            c = sim.connect()
            tok = sim.login(c, 'user', n)
            h = {'session_token': tok, 'repository': n, 'user': 'user'}
            versions = self.versions[n][:self.backed[n]]
            r = c.request('list_versions', h, b'{}')
            ctx.check(r.ok, 'the restored repository has no history')
            got = [v['id'] for v in reversed(r.json()['versions'])]
            ctx.check(got == [v[0] for v in versions], 'the restored repository has the versions %s instead of %s' % (got, [v[0] for v in versions]))
            for k, (vid, files) in enumerate(versions):
                last = k == len(versions) - 1
                r = c.request('list_files', dict(h, show_head='1' if last else '0', version_id=vid), b'{}')
                ctx.check(r.ok and set(r.json()['files']) == set(files), 'version %d of the restored repository lists other files' % k)
                for p in files:
                    r = c.request('pull_file', dict(h, path=p, use_head='0', version_id=vid), b'{}')
                    ctx.check(r.ok and r.body == files[p], 'version %d of the restored repository holds another %s' % (k, p))
            c.close()
            # and it can be committed to
            c = sim.connect()
            tok = sim.login(c, 'user', n)
            r = c.request('begin_commit', dict(h, session_token=tok, previous_revision=versions[-1][0]), b'{}')
            ctx.check(r.ok, 'the restored repository cannot be committed to: %r' % r)
            c.close()
        sim.shutdown()
        self.sim.start()

    def verify(self, repos):
        import io
        old, so = sys.argv, sys.stdout
        sys.argv, sys.stdout = ['bvn_repo', 'verify'], io.StringIO()
        try:
            repo_manager.init(s3.config(repos))
            repo_manager.run()
            return sys.stdout.getvalue()
        finally:
            sys.argv, sys.stdout = old, so


def execute(plan, ctx):
    w = World(plan, ctx)
    if plan['fresh'] is not None:
        ctx.label('new store')
    runs = failed = 0
    compared = False
    for run in plan['runs']:
        for k, edits in run['versions']:
            w.commit(w.names[k % len(w.names)], edits)
        for fault in (run['fault'], run['again']):
            if fault is not None:
                ok = w.backup(run, fault)
                runs += 1
                if not ok:
                    failed += 1
                    ctx.label('failed run')
                elif run['restore'] and Env.hit:
                    w.restore(run)
                    w.compare()
        if run['restore']:
            ctx.check(w.backup(run, None), 'backup does not end')
            runs += 1
            w.restore(run)
            w.compare()
    last = plan['runs'][-1]
    if not last['restore']:
        ctx.check(w.backup(last, None), 'backup does not end')
        runs += 1
        w.restore(last, plan['rfault'])
        w.compare()
    n = sum(w.backed.values())
    ctx.label('versions restored', n)
    if n >= 2 and (runs >= 2 or failed):
        ctx.nontrivial()
