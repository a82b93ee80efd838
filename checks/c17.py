"""C17: in-memory storage."""

import asyncio
import collections

from hat.event import common

from rt import aiorun
from rt import model
from rt import storage

LEVEL = 'exploration'
RULE = ('random batches of several servers (source timestamps out of order '
        'and absent, colliding timestamps, clocks that step back) are registered with the in-memory '
        'storage, also by concurrent tasks; every answer of latest, '
        'timeseries and server queries (all parameters, with paging walks) '
        'and each last event id is compared with the reference semantics '
        'over all registered events, callbacks with the registered batches. '
        'An evaluation is one query, non-trivial if the expected answer is '
        'not empty, distinct by parameters and answer')
TIERS = {'quick': {'cases': 14400, 'time': 45},
         'thorough': {'cases': 60000, 'time': 300}}
REQUIRE = {'latest': 2000, 'timeseries': 2000, 'server': 2000, 'pages': 500,
           'last_ids': 500, 'source_order': 500, 'dummy': 300, 'steps': 1000}

big = 1 << 60


async def case(ctx):
    rng = ctx.rng
    info = common.import_backend_info('hat.event.backends.memory')
    registered_cb = []
    flushed_cb = []
    suspending = rng.random() < 0.5

    async def on_registered(events):
        registered_cb.append(list(events))
        if suspending:
            await storage.pause(rng)

    def on_registered_sync(events):
        registered_cb.append(list(events))

    async def on_flushed(events):
        # never before it was reported as registered
        ctx.check(list(events) in registered_cb,
                  'batch is persisted before it is registered')
        flushed_cb.append(list(events))

    backend = await common_create(
        info, {}, on_registered if rng.random() < 0.7 else on_registered_sync,
        on_flushed)
    source = storage.Source(rng, servers=rng.randint(1, 3), max_batch=4)
    events = []
    batches = []

    stepping = rng.random() < 0.3

    async def register():
        if stepping and rng.random() < 0.2:
            # clock of a server steps back
            source.clocks[rng.choice(source.servers)] -= rng.randint(1, 6)
            ctx.count('steps')
        batch = source.batch()
        ctx.log('register', batch)
        given = rng.choice([list, collections.deque, tuple])(batch)
        events.extend(batch)
        batches.append(batch)
        result = await backend.register(given)
        ctx.equal(list(result), batch, 'result of registration')

    async def query():
        k = rng.randint(0, 3)
        if k == 0:
            params = storage.gen_latest(rng, source)
            ctx.log('query', params)
            result = await backend.query(params)
            expected = {}
            for e in events:
                if (params.event_types is not None and
                        not model.matches_any(e.type, params.event_types)):
                    continue
                previous = expected.get(e.type)
                if previous is None or not model.Storage.newer(previous, e):
                    expected[e.type] = e
            got = {e.type: e for e in result.events}
            ctx.check(len(got) == len(result.events) and
                      not result.more_follows,
                      'latest query returned event type twice', result)
            ctx.equal(got, expected, 'latest query', params=params)
            ctx.count('latest')
            ctx.done((params, [e.id for e in result.events])
                     if expected else None)
            return
        if k == 1:
            server_id = rng.choice([*source.servers, 99])
            ctx.equal(await backend.get_last_event_id(server_id),
                      max((e.id for e in events if e.id.server == server_id),
                          default=common.EventId(server_id, 0, 0)),
                      'last event id')
            ctx.count('last_ids')
        if k in (1, 2):
            params = storage.gen_server(rng, source)
            oracle = server_oracle
            name = 'server'
        else:
            params = storage.gen_timeseries(rng, source)
            oracle = timeseries_oracle
            name = 'timeseries'
            if params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
                ctx.count('source_order')
        for page in range(100):
            ctx.log('query', params)
            result = await backend.query(params)
            expected = oracle(events, params)
            ctx.equal((list(result.events), result.more_follows), expected,
                      f'{name} query', params=params)
            ctx.count(name)
            ctx.done((params, [e.id for e in expected[0]])
                     if expected[0] else None,
                     (params, [e.id for e in expected[0]]))
            if not expected[1] or not expected[0]:
                break
            # normally after the last received event
            params = params._replace(last_event_id=(
                expected[0][-1].id if rng.random() < 0.9 else
                rng.choice(expected[0]).id if rng.random() < 0.7 else
                common.EventId(params.server_id if name == 'server' else
                               rng.choice(source.servers),
                               rng.randint(2 ** 40, 2 ** 41), 1)))
            ctx.count('pages')

    try:
        for _ in range(rng.randint(5, 30)):
            k = rng.random()
            if k < 0.4:
                await register()
            elif k < 0.5:
                await asyncio.gather(*(register() for _ in range(3)))
            elif k < 0.55:
                await backend.flush()
            else:
                await query()
        for _ in range(5):
            await query()
    finally:
        await backend.async_close()

    for name, calls in (('registered', registered_cb),
                        ('persisted', flushed_cb)):
        ctx.equal(sorted(calls, key=repr), sorted(batches, key=repr),
                  f'batches reported as {name}')
    ctx.equal(registered_cb, batches, 'order of registered batches')


async def common_create(info, conf, registered_cb, flushed_cb):
    result = info.create(conf, registered_cb, flushed_cb)
    return await result if asyncio.iscoroutine(result) else result


def server_oracle(events, params):
    return model.server(
        sorted((e for e in events if e.id.server == params.server_id),
               key=lambda e: e.id), params, big)


def timeseries_oracle(events, params):
    if params.order_by == common.OrderBy.TIMESTAMP:
        def key(e):
            return e.timestamp, e.id
    else:
        events = [e for e in events if e.source_timestamp is not None]

        def key(e):
            return e.source_timestamp, e.id
    return model.timeseries(events, params, big, key)


async def dummy_case(ctx):
    """The storage which keeps nothing"""
    rng = ctx.rng
    info = common.import_backend_info('hat.event.backends.dummy')
    calls = []

    def recorder(name):
        async def suspending(events):
            await storage.pause(rng)
            calls.append((name, list(events)))

        def plain(events):
            calls.append((name, list(events)))

        return rng.choice([suspending, plain, None])

    cbs = [recorder(i) for i in ('registered', 'persisted')]
    backend = await common_create(info, {}, *cbs)
    source = storage.Source(rng, servers=2)
    names = [name for name, cb in zip(('registered', 'persisted'), cbs) if cb]
    for _ in range(rng.randint(3, 15)):
        batch = source.batch()
        calls.clear()
        result = await backend.register(rng.choice(
            [list, collections.deque, tuple])(batch))
        ctx.equal(list(result), batch, 'result of registration')
        ctx.equal(calls, [(name, batch) for name in names],
                  'callbacks of dummy storage')
        server = rng.choice(source.servers)
        ctx.equal(await backend.get_last_event_id(server),
                  common.EventId(server, 0, 0), 'last event id')
        for gen_params in (storage.gen_latest, storage.gen_timeseries,
                           storage.gen_server):
            r = await backend.query(gen_params(rng, source))
            ctx.equal((list(r.events), r.more_follows), ([], False),
                      'query of dummy storage')
        await backend.flush()
        ctx.check(backend.is_open, 'storage is closed')
        ctx.done(('dummy', names, batch[0].id, len(batch)))
        ctx.count('dummy')
    await backend.async_close()
    ctx.check(backend.is_closed, 'storage is not closed')


def run_case(ctx):
    aiorun.run(ctx, dummy_case if ctx.case % 20 == 19 else case)
