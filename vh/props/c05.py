from vh import repo_machine as rm

LEVEL = 'exploration'
TAGS = ('C05',)
RULE = ('a history in which the same content was uploaded at least twice (other path, version or user) and at least two versions exist')
BUDGET = {'quick': 2400, 'thorough': 20000}


def strategy(tier):
    return rm.plans({'full': 9, 'push': 10, 'abort': 4, 'close': 3, 'die': 4, 'bulk': 1}, max_ops=26 if tier == 'quick' else 45)


def execute(plan, ctx):
    m = rm.Machine(plan, ctx)
    m.run()
    for r in m.model.values():
        uploads = [h for v in r.versions for p, h in v['hashes'].items() if v['changes'][p] != 'deleted']
        if len(r.versions) >= 2 and len(uploads) > len(set(uploads)):
            ctx.nontrivial()
