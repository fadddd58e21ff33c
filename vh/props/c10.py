from vh import repo_machine as rm

LEVEL = 'exploration'
TAGS = ('C10',)
RULE = ('a history in which an interrupted commit that had uploads or deletions was resumed and then completed, or a path was '
        'pushed or deleted more than once within a commit that completed')
BUDGET = {'quick': 2800, 'thorough': 25000}


def strategy(tier):
    return rm.plans({'begin': 14, 'close': 8, 'restart': 3, 'push': 16, 'delete': 9, 'commit': 10, 'full': 3, 'session': 12, 'die': 8, 'bulk': 2}, conns=3, users=2,
                    max_ops=30 if tier == 'quick' else 55)


def execute(plan, ctx):
    m = rm.Machine(plan, ctx)
    m.run()
    if ctx.labels.get('commit after resume') or (ctx.labels.get('pushed or deleted again') and ctx.labels.get('commit')):
        ctx.nontrivial()
