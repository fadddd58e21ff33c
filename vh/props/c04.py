from vh import repo_machine as rm

LEVEL = 'exploration'
TAGS = ('C04',)
RULE = ('a history in which a commit that had uploaded something was aborted, refused as out of date or displaced after at '
        'least one version existed')
BUDGET = {'quick': 2800, 'thorough': 25000}


def strategy(tier):
    return rm.plans({'abort': 7, 'close': 5, 'begin': 9, 'push': 12, 'restart': 2, 'session': 10, 'die': 5, 'bulk': 2}, max_ops=26 if tier == 'quick' else 50)


def execute(plan, ctx):
    m = rm.Machine(plan, ctx)
    m.run()
    if any(r.versions for r in m.model.values()) and any(
            ctx.labels.get(k) for k in ('abort with changes', 'displaced with uploads', 'stale begin over an open commit')):
        ctx.nontrivial()
