from hypothesis import strategies as st
from vh import interleave, repo_machine as rm

LEVEL = 'exploration'
TAGS = ('C08',)
RULE = ('a history with requests of at least two connections in which a commit was attempted on an out of date version or '
        'while another connection held the lock; or overlapping sessions of several connections, switched within a request')
BUDGET = {'quick': 5000, 'thorough': 25000}


def strategy(tier):
    alone = rm.plans({'begin': 14, 'commit': 9, 'push': 9, 'full': 6}, conns=4, users=3, max_ops=28 if tier == 'quick' else 50)
    return st.integers(0, 3).flatmap(lambda k: interleave.plans(tier) if k == 0 else alone)


def execute(plan, ctx):
    if 'scripts' in plan:
        interleave.execute(plan, ctx)
        return
    m = rm.Machine(plan, ctx)
    m.run()
    if len({op[1] % len(plan['conns']) for op in plan['ops']}) >= 2 and any(
            ctx.labels.get(k) for k in ('stale begin', 'begin while locked')) and any(r.versions for r in m.model.values()):
        ctx.nontrivial()
