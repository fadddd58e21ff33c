"""Histories of commits with garbage and garbage collections in between.

Exact oracle: after a collection the stored objects are those the versions need (found by an independent walk) and
the uploads of the open commit.  Differential oracle: whatever any other oracle complains about later is blamed on
the collection only if the same history without collections is fine."""
import contextlib, fcntl, json, os, sys

import vh.boot as boot
from vh import core, interleave, repo_machine as rm, srv
from vh.props import c06
from hypothesis import strategies as st

from bversion import repo_manager
from bversion.storage.versioned_storage import versioned_storage

LEVEL = 'exploration'
TAGS = ('C07',)
RULE = ('a history in which a collection ran on a repository with versions and removed garbage, and either kept the uploads of an '
        'interrupted commit or was followed by another commit; or a collection and commits at the same time, switched within a request')
BUDGET = {'quick': 3500, 'thorough': 20000}
ASSUMPTIONS = ['collections run in a thread of their own with their own database connection, as a separate bvn_repo process would']


def strategy(tier):
    weights = {'begin': 8, 'push': 8, 'delete': 3, 'commit': 5, 'abort': 2, 'close': 7, 'restart': 2, 'full': 10, 'session': 10, 'check': 0,
               'gc': 12, 'garbage': 8, 'die': 4, 'many': 1, 'bulk': 1}
    alone = rm.plans(weights, min_ops=4, max_ops=22 if tier == 'quick' else 40, repos=2)
    return st.integers(0, 4).flatmap(lambda k: interleave.plans(tier, gc=True) if k == 0 else alone)


def fixed_plans(tier):
    return [{'fresh': f} for f in (0, 1)]


class Slept(Exception):
    pass


class GcMachine(rm.Machine):
    def __init__(self, plan, ctx, collect=True):
        rm.Machine.__init__(self, plan, ctx)
        self.collect = collect
        self.collected = 0
        self.kept_uploads = 0
        self.removed = 0
        self.commits_after = 0

    def put(self, repo, kind, data):
        h = rm.sha(data)
        d = os.path.join(self.sim.path(repo), kind, h[:2])
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, h[2:])
        if not os.path.exists(p):
            with open(p, 'wb') as f:
                f.write(data)
        m = self.model[repo]
        if m.snap is not None:
            m.snap.add(kind + '/' + h)

    def op_garbage(self, i, a, b, c):
        """Objects nothing refers to, as interrupted work may leave them."""
        repo = self.repos[self.spec[i][2]]
        m = self.model[repo]
        if m.holder is not None:
            return
        kind = c % 4
        if kind <= 1:
            self.put(repo, 'files', rm.content(b) if kind else b'garbage %d' % a)
        elif kind == 2:
            files = {'f%d' % a: {'hash': rm.sha(rm.content(b)), 'path': 'f%d' % a, 'status': 'new'}}
            self.put(repo, 'index', json.dumps({'type': 'tree', 'files': files, 'dirs': {}}).encode())
        elif m.versions:
            v = m.versions[a % len(m.versions)]
            with open(os.path.join(self.sim.path(repo), 'index', v['id'][:2], v['id'][2:])) as f:
                o = json.load(f)
            o['commit_message'] = 'orphan %d' % a
            self.put(repo, 'index', json.dumps(o).encode())

    def op_gc(self, i, a, b, c):
        repo = self.repos[self.spec[i][2]]
        if not self.collect:
            return
        if c % 3 == 0 and all(m.holder is None for m in self.model.values()):
            before = {r: set(rm.objects(self.sim.path(r))) for r in self.repos}
            self.sim.in_server_thread(self.tool)
            for r in self.repos:
                self.after(r, before[r])
            self.ctx.label('collected by bvn_repo gc')
            return
        m = self.model[repo]
        path, ov = self.sim.path(repo), self.sim.config['repositories'][repo]['transient_db_path_override']
        before = set(rm.objects(path))
        ds = versioned_storage(path, path_override=ov)
        res = self.sim.in_server_thread(ds.garbage_collect)
        self.check(isinstance(res, tuple) and len(res) == 2, 'a collection returned %r' % (res,), 'C07')
        if m.holder is not None:
            self.check(res[0] is False, 'a collection ran while a client held the commit lock', 'C07')
            self.check(set(rm.objects(path)) == before, 'a refused collection changed the objects', 'C07')
            self.ctx.label('refused, locked')
            return
        self.check(res[0] is True or self.suspicious(repo), 'a collection failed: %r' % (res,), 'C07')
        self.after(repo, before)

    def tool(self):
        def no_sleep(s):
            raise Slept()
        old_sleep, argv = repo_manager.time.sleep, sys.argv
        repo_manager.init({'repositories': {r: dict(self.sim.config['repositories'][r]) for r in self.repos}})
        repo_manager.time.sleep = no_sleep
        sys.argv = ['bvn_repo', 'gc']
        try:
            repo_manager.run()
        except Slept:
            raise core.Violation('bvn_repo gc waits for a lock nobody holds') from None
        finally:
            repo_manager.time.sleep = old_sleep
            sys.argv = argv

    def suspicious(self, repo):
        """The very first commit wrote its commit object and was cut short: collections refuse by design."""
        if self.model[repo].versions:
            return False
        for name, full in rm.objects(self.sim.path(repo)).items():
            if name.startswith('index/'):
                with open(full) as f:
                    if json.load(f)['type'] == 'commit':
                        return True
        return False

    def after(self, repo, before):
        m = self.model[repo]
        path = self.sim.path(repo)
        now = set(rm.objects(path))
        if self.suspicious(repo):
            self.check(now == before, 'a collection that refuses removed objects', 'C07')
            return
        try:
            need = rm.reachable(path)
        except (OSError, ValueError) as e:
            raise core.Violation('a collection removed objects of a version: %s' % e) from None
        open_uploads, maybe = set(), set()
        if m.active is not None:
            loose = m.active.get('loose', {})
            maybe = {'files/' + rm.sha(d) for alts in loose.values() for d in alts if d is not None}
            if m.active.get('gone'):
                maybe |= {'files/' + rm.sha(d) for s, d in m.active['changes'].values() if s != 'deleted'}
            else:
                open_uploads = {'files/' + rm.sha(d) for p, (s, d) in m.active['changes'].items() if s != 'deleted' and p not in loose}
        gone = (need | open_uploads) - now
        self.check(not gone & need, 'a collection removed objects some version needs: %r' % sorted(gone & need)[:3], 'C07')
        self.check(not gone, 'a collection removed uploads of a commit that can be resumed: %r' % sorted(gone)[:3], 'C07')
        left = now - need - open_uploads - maybe
        self.check(not left, 'a collection left objects no version needs: %r' % sorted(left)[:3], 'C07')
        with open(os.path.join(path, 'lock_file'), 'w') as f:
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                fcntl.flock(f, fcntl.LOCK_UN)
            except OSError:
                self.check(False, 'commits are locked out after a collection', 'C07')
        valid, issues = c06.fresh_verify(self, repo)
        self.check(valid is True, 'the repository does not verify after a collection: %r' % issues[:3], 'C07')
        for k in range(len(m.versions)):
            if k in (0, len(m.versions) - 1):
                self.check_version(repo, k, ('C07',))
        if m.versions and before - now:
            self.collected += 1
            self.removed += len(before - now)
            self.ctx.label('collection removed garbage')
        if open_uploads - need:
            self.kept_uploads += 1
            self.ctx.label('collection kept uploads')

    def op_commit(self, i, a, b, c, repo=None):
        rm.Machine.op_commit(self, i, a, b, c, repo=repo)
        if self.collected:
            self.commits_after += 1


def fresh(plan, ctx):
    """A repository that has never been served has no tables and no objects."""
    d = ctx.newdir()
    ov = os.path.join(d, 'x.db') if plan['fresh'] else None
    os.mkdir(os.path.join(d, 'r'))
    ds = versioned_storage(os.path.join(d, 'r'), path_override=ov)
    with open(os.path.join(d, 'r', 'files', 'tmp'), 'w'): pass
    os.remove(os.path.join(d, 'r', 'files', 'tmp'))
    res = ds.garbage_collect()
    ctx.check(res == (True, []), 'collecting an empty repository gave %r' % (res,), 'C07')
    valid, issues = ds.verify_fs()
    ctx.check(valid is True, 'an empty repository is reported damaged', 'C07')


def execute(plan, ctx):
    if 'fresh' in plan:
        fresh(plan, ctx)
        return
    if 'scripts' in plan:
        interleave.execute(plan, ctx)
        return
    m = GcMachine(plan, ctx)
    try:
        m.run()
    except core.OffTopic as e:
        if not ctx.labels.get('op gc'):
            raise
        m.sim.shutdown()
        ctx2 = core.Ctx(ctx.scratch, TAGS)
        try:
            GcMachine(plan, ctx2, collect=False).run()
        except core.OffTopic:
            raise e from None
        finally:
            ctx2.done()
        raise core.Violation('only after a collection: %s' % e) from None
    if m.collected and (m.kept_uploads or m.commits_after):
        ctx.nontrivial()
