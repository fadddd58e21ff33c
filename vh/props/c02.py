from vh import repo_machine as rm

LEVEL = 'exploration'
TAGS = ('C02',)
RULE = ('a history with at least three versions in which some path was changed or deleted by two different versions '
        'and at least one version deletes something')
BUDGET = {'quick': 2400, 'thorough': 20000}


def strategy(tier):
    return rm.plans({'full': 14, 'delete': 6, 'die': 2, 'many': 1, 'bulk': 1}, max_ops=26 if tier == 'quick' else 70)


def execute(plan, ctx):
    m = rm.Machine(plan, ctx)
    m.run()
    for r in m.model.values():
        seen = {}
        for v in r.versions:
            for p in v['changes']:
                seen[p] = seen.get(p, 0) + 1
        if len(r.versions) >= 3 and any(n > 1 for n in seen.values()) and \
           any('deleted' in v['changes'].values() for v in r.versions):
            ctx.nontrivial()


def fixed_plans(tier):
    """A history longer than the limit of the version list."""
    ops = []
    for k in range(57 if tier == 'quick' else 130):
        ops.append(['full', 0, k % 3, k % 7, [0, 2, 4][k % 3]])
    yield {'users': 1, 'repos': 1, 'override': False, 'conns': [[0, 0, 0]], 'paths': ['/a', '/d/b', '/d/e/c'], 'ops': ops, 'sparse': 1}
