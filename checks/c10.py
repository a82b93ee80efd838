"""C10: timeseries query."""

from hat.event import common

from rt import aiorun
from rt import storage

LEVEL = 'exploration'
RULE = ('random histories of batches of several servers (source timestamps '
        'and server clocks out of order), flushes, restarts, '
        'reconfigurations and concurrent blocks against the on-disk storage; '
        'every timeseries query, including walks by paging, is compared with '
        'the reference model; an evaluation is one query, non-trivial if the '
        'expected answer is not empty, distinct by parameters and answer')
TIERS = {'quick': {'cases': 1800, 'time': 45},
         'thorough': {'cases': 60000, 'time': 400}}
REQUIRE = {'many': 4, 'queries': 500, 'nonempty': 300, 'pages': 200,
           'unflushed': 100, 'resumed': 50, 'resumed_empty': 50}


async def query(ctx, db, many=False):
    rng = ctx.rng
    params = storage.gen_timeseries(rng, db.source)
    if many:
        params = storage.wide(rng, params)
    quiet = rng.random() < 0.5
    ctx.log('query', params)
    events, more, flushed, lo, hi = await db.query(params)
    ctx.count('queries')
    if lo != hi:
        ctx.count('overlapping_queries')
    if flushed < hi:
        ctx.count('unflushed')
    storage.check_timeseries(ctx, db, params, events, more, lo, hi)
    ctx.count('nonempty' if events else 'empty')
    ctx.count('result_events', len(events))
    ctx.done((params, [e.id for e in events]) if events else None,
             (params, [e.id for e in events]))

    if rng.random() < 0.15:
        # continue after any event of the answer, or one that is not stored
        resume = (rng.choice(events).id if events and rng.random() < 0.7 else
                  common.EventId(rng.choice(db.source.servers),
                                 rng.randint(2 ** 40, 2 ** 41), 1))
        params2 = params._replace(last_event_id=resume)
        ctx.log('resume', resume)
        events2, more2, _, lo, hi = await db.query(params2)
        storage.check_timeseries(ctx, db, params2, events2, more2, lo, hi)
        ctx.count('resumed' if events2 else 'resumed_empty')

    # paging: continue from the last received event
    pages = 0
    while more and events and quiet and pages < 20:
        pages += 1
        params = params._replace(last_event_id=events[-1].id)
        ctx.log('page', params.last_event_id)
        events, more, flushed, lo, hi = await db.query(params)
        ctx.count('pages')
        if lo == hi:
            storage.check_timeseries(ctx, db, params, events, more, lo, hi)
        ctx.done((params, [e.id for e in events]) if events else None)


def run_case(ctx):
    if ctx.case % 120 == 7:
        aiorun.run(ctx, lambda ctx: storage.many(
            ctx, lambda ctx, db: query(ctx, db, True)))
        return
    aiorun.run(ctx, lambda ctx: storage.history(
        ctx, query, conf_args={'wide': 0.6, 'conditions': 0.15}))
