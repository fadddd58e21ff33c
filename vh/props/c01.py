from vh import repo_machine as rm

LEVEL = 'exploration'
TAGS = ('C01',)
RULE = ('a history with at least two successful commits, of which one inherits files from its parent, and at least one '
        'commit that did not complete (aborted, closed, displaced, refused) or a server restart')
BUDGET = {'quick': 2400, 'thorough': 20000}


def strategy(tier):
    return rm.plans({'full': 10, 'die': 2, 'many': 1, 'bulk': 1}, max_ops=26 if tier == 'quick' else 45)


def execute(plan, ctx):
    m = rm.Machine(plan, ctx)
    m.run()
    vs = [v for r in m.model.values() for v in r.versions]
    inherit = any(set(v['files']) - set(v['changes']) for v in vs)
    broken = any(ctx.labels.get(k) for k in ('op restart', 'abort with changes', 'closed while committing', 'displaced', 'stale begin'))
    if len(vs) >= 2 and inherit and broken:
        ctx.nontrivial()
