"""C09: latest query."""

from rt import aiorun
from rt import storage

LEVEL = 'exploration'
RULE = ('random histories of registered batches, flushes, restarts, '
        'reconfigurations and concurrent blocks against the on-disk storage; '
        'every latest query is compared with the reference model (for '
        'concurrent ones with every model state it may reflect); an '
        'evaluation is one query, non-trivial if the expected answer is not '
        'empty, distinct by parameters and answer')
TIERS = {'quick': {'cases': 2784, 'time': 45},
         'thorough': {'cases': 60000, 'time': 400}}
REQUIRE = {'many': 4, 'queries': 500, 'nonempty': 300, 'reconfigurations': 20}


async def query(ctx, db):
    params = storage.gen_latest(ctx.rng, db.source)
    ctx.log('query', params)
    events, more, flushed, lo, hi = await db.query(params)
    ctx.count('queries')
    if lo != hi:
        ctx.count('overlapping_queries')
    answer = storage.check_latest(ctx, db, params, events, more, lo, hi)
    ctx.count('nonempty' if events else 'empty')
    ctx.count('result_events', len(events))
    ctx.done((params, sorted(answer)) if answer else None,
             (params, events[:2]))


def run_case(ctx):
    if ctx.case % 120 == 7:
        aiorun.run(ctx, lambda ctx: storage.many(ctx, query))
        return
    aiorun.run(ctx, lambda ctx: storage.history(ctx, query))
