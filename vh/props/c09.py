from hypothesis import strategies as st
from vh import interleave, repo_machine as rm

LEVEL = 'exploration'
TAGS = ('C09',)
RULE = ('a history in which a connection without the lock sent a push, deletion, commit or abort while another connection '
        'held it or a commit was open, or a lock holder addressed another repository; or overlapping sessions of several connections, switched within a request')
BUDGET = {'quick': 5000, 'thorough': 25000}


def strategy(tier):
    alone = rm.plans({'begin': 10, 'other': 6, 'abort': 4, 'close': 4, 'restart': 1, 'push': 12, 'delete': 5, 'die': 3}, conns=4, users=3, repos=2,
                    max_ops=28 if tier == 'quick' else 50)
    return st.integers(0, 3).flatmap(lambda k: interleave.plans(tier) if k == 0 else alone)


def execute(plan, ctx):
    if 'scripts' in plan:
        interleave.execute(plan, ctx)
        return
    m = rm.Machine(plan, ctx)
    m.run()
    if ctx.labels.get('refused while a commit is open') or ctx.labels.get('foreign request by a lock holder'):
        ctx.nontrivial()
