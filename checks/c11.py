"""C11: server query."""

from rt import aiorun
from rt import storage

LEVEL = 'exploration'
RULE = ('random histories of batches of several servers, flushes, restarts, '
        'reconfigurations and concurrent blocks against the on-disk storage; '
        'every server query (with and without persisted flag, any last id, '
        'walks by paging) is compared with the reference model; an '
        'evaluation is one query, non-trivial if the answer is not empty, '
        'distinct by parameters and answer')
TIERS = {'quick': {'cases': 1800, 'time': 45},
         'thorough': {'cases': 60000, 'time': 400}}
REQUIRE = {'many': 4, 'queries': 500, 'nonempty': 300, 'pages': 200,
           'persisted': 100}


async def query(ctx, db, many=False):
    rng = ctx.rng
    params = storage.gen_server(rng, db.source)
    if many:
        params = storage.wide(rng, params)
    ctx.log('query', params)
    quiet = rng.random() < 0.5
    walk = []
    pages = 0
    first = True
    while True:
        events, more, flushed, lo, hi = await db.query(params)
        ctx.count('queries' if first else 'pages')
        first = False
        if params.persisted:
            ctx.count('persisted')
        if lo != hi:
            ctx.count('overlapping_queries')
        storage.check_server(ctx, db, params, events, more, flushed, lo, hi)
        ctx.count('nonempty' if events else 'empty')
        ctx.count('result_events', len(events))
        ctx.done((params, [e.id for e in events]) if events else None,
                 (params, [e.id for e in events]))
        walk.extend(e.id for e in events)
        ctx.check(walk == sorted(set(walk)),
                  'walk by server queries is not strictly increasing',
                  {'params': params, 'walk': walk})
        pages += 1
        if not (more and events and quiet and pages < 20):
            return
        params = params._replace(last_event_id=events[-1].id)
        ctx.log('page', params.last_event_id)


def run_case(ctx):
    if ctx.case % 120 == 7:
        aiorun.run(ctx, lambda ctx: storage.many(
            ctx, lambda ctx, db: query(ctx, db, True)))
        return
    aiorun.run(ctx, lambda ctx: storage.history(
        ctx, query, conf_args={'wide': 0.6, 'conditions': 0.3},
        reconf=0.1))
