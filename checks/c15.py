"""C15: admission of events."""

from hat.event import common

from rt import aiorun
from rt import gen
from rt import model
from rt import storage

LEVEL = 'exploration'
RULE = ('hostile batches (replays, reused ids with other contents, id and '
        'clock regressions, several servers) against the on-disk storage '
        'with random condition trees, with flushes and restarts in between; '
        'after each batch everything stored is compared with the admission '
        'model; an evaluation is one batch, non-trivial if some of its '
        'events had to be rejected, distinct by contents')
TIERS = {'quick': {'cases': 3584, 'time': 45},
         'thorough': {'cases': 40000, 'time': 400}}
REQUIRE = {'events_accepted': 2000, 'rejected_id': 300,
           'rejected_timestamp': 100, 'rejected_condition': 300}


def payload(rng):
    """JSON payloads shaped so that conditions on them often hold"""
    if rng.random() < 0.15:
        return gen.payload(rng)
    leaf = rng.choice(['', 'a', 'ž', None, 42, -7, [], {'a': 'b'}, [42],
                       True, False, 1.5, 'x'])
    k = rng.randint(0, 5)
    data = [leaf, {'a': leaf}, {'b': [leaf]}, {'a': {'b': leaf}}, [leaf, 42],
            {'a': [1, leaf]}][k]
    return common.EventPayloadJson(data)


async def stored(db):
    events = {}
    for server in db.source.servers:
        params = common.QueryServerParams(server)
        while True:
            r = await db.backend.query(params)
            for e in r.events:
                events[e.id] = e
            if not r.more_follows:
                break
            params = params._replace(last_event_id=list(r.events)[-1].id)
    return events


async def case(ctx):
    rng = ctx.rng
    path = ctx.folder('db') / 'event.db'
    conf = storage.gen_conf(rng, path, conditions=0.75, max_results=0)
    # everything accepted stays stored and visible
    conf['timeseries'] = [{'order_by': 'TIMESTAMP', 'subscriptions': [['*']]}]
    conf['latest'] = {'subscriptions': [['*']]}
    ctx.log('conf', conf)
    source = storage.Source(rng, servers=rng.randint(1, 3), hostile=0.5,
                            payloads=payload)
    db = storage.Lmdb(ctx, conf, source)
    await db.open()
    accepted = {}
    try:
        for _ in range(rng.randint(5, 30)):
            k = rng.random()
            if k < 0.1:
                await db.flush()
                continue
            if k < 0.15:
                await db.reopen()
            batch = source.batch()
            rejected = []
            probe = db.model.copy()
            for e in batch:
                last = probe.last_ids.get(e.id.server)
                if last is not None and e.id <= last:
                    reason = 'id'
                elif probe.accepts(e):
                    reason = None
                elif model.conditions_match(conf['conditions'], e):
                    reason = 'timestamp'
                else:
                    reason = 'condition'
                if reason:
                    ctx.count(f'rejected_{reason}')
                    rejected.append((e.id, reason))
                else:
                    accepted[e.id] = e
                probe.register([e])
            await db.register(batch)

            got = await stored(db)
            wrong = [i for i in got if i not in accepted or
                     got[i] != accepted[i]]
            ctx.check(not wrong, 'event that must not be accepted is stored',
                      {'events': [got[i] for i in wrong], 'batch': batch,
                       'conditions': conf['conditions'],
                       'last ids': db.model.last_ids,
                       'last timestamps': db.model.last_timestamps})
            missing = [i for i in accepted if i not in got]
            ctx.check(not missing, 'accepted event is not stored',
                      {'events': [accepted[i] for i in missing],
                       'batch': batch, 'rejected': rejected,
                       'conditions': conf['conditions']})

            r = await db.backend.query(common.QueryLatestParams())
            ctx.check(all(accepted.get(e.id) == e for e in r.events),
                      'latest query returned event that must not be accepted',
                      {'events': list(r.events)})
            r = await db.backend.query(common.QueryTimeseriesParams())
            ctx.check({e.id: e for e in r.events} == accepted,
                      'timeseries does not hold exactly the accepted events')

            for server in source.servers:
                ctx.equal(await db.backend.get_last_event_id(server),
                          db.model.last_ids.get(
                              server, common.EventId(server, 0, 0)),
                          'last event id', server=server)
            ctx.done((batch, rejected) if rejected else None,
                     {'rejected': rejected, 'of': [e.id for e in batch]})
    finally:
        await db.close()


def run_case(ctx):
    aiorun.run(ctx, case)
