"""C01: identity of events created by engines."""

import asyncio

from hat import aio
from hat.event import common

from rt import aiorun
from rt import engines
from rt import gen
from rt import net
from rt import storage

LEVEL = 'exploration'
RULE = ('real engines with instrumented modules run one after another on real '
        'storage (on-disk with random configuration, reopened in between, or '
        'in-memory), under concurrent registrations of modules and others, '
        'while events of other servers are stored too. Identifiers and '
        'timestamps of all sessions given to the storage, returned, reported '
        'by callbacks and queried are judged over the whole history. An '
        'evaluation is one history, non-trivial if it has several engines '
        'and sessions, distinct by sessions and configuration')
TIERS = {'quick': {'cases': 1904, 'time': 45},
         'thorough': {'cases': 20000, 'time': 400}}
REQUIRE = {'sessions': 3000, 'engines': 500, 'reopens': 150,
           'multi_event_sessions': 500, 'stores_nothing': 20,
           'queried_events': 1000, 'session_starts': 1500,
           'abandoned': 80}


async def case(ctx):
    rng = ctx.rng
    run = engines.Run(ctx)
    callbacks = []
    memory = rng.random() < 0.2
    conf = None
    if not memory:
        conf = storage.gen_conf(
            rng, ctx.folder('db') / 'event.db',
            flush_period=rng.choice([1000, 0.01]),
            max_results=0)
        if rng.random() < 0.25:
            conf['latest'] = {'subscriptions': []}
            conf['timeseries'] = []
            ctx.count('stores_nothing')
        if rng.random() < 0.2:
            conf['conditions'] = [{
                'subscriptions': [['event', '*']],
                'condition': {'type': 'json', 'data_type': 'object'}}]
    ctx.log('server', run.server_id, 'conf', conf)
    info = common.import_backend_info(
        f'hat.event.backends.{"memory" if memory else "lmdb"}')

    def on_registered(events):
        callbacks.append(list(events))

    async def open_backend():
        if memory:
            return await aio.call(info.create, {}, on_registered, None)
        return await aio.call(info.create, conf, on_registered, None)

    other = storage.Source(rng)
    other.servers = [i for i in (3, 9, 2 ** 62) if i != run.server_id]
    other.sessions = {i: 0 for i in other.servers}
    other.clocks = {i: rng.choice([1000, 4 * 10 ** 9])
                    for i in other.servers}

    async def follow(backend):
        """Events of other servers"""
        for _ in range(rng.randint(0, 4)):
            await aiorun.pause(rng)
            await backend.register(other.batch())

    generations = rng.randint(1, 4)
    inner = None
    try:
        for generation in range(generations):
            if inner is None:
                inner = await open_backend()
            ctx.log('generation', generation)
            backend = engines.Backend(run, inner)
            backend.slow = rng.choice([0, 0, 0.002])
            run.close()
            for spec in run.add_specs(rng.randint(0, 3)):
                spec.own = rng.choice([0, 0, 2])
            engine = await run.create_engine(backend)

            async def registrant(index):
                source = common.Source(common.SourceType.EVENTER, index)
                for _ in range(rng.randint(0, 5)):
                    await aiorun.pause(rng)
                    r = run.register(engine, source)
                    if rng.random() < 0.2:
                        await run.abandon(r)
                    elif rng.random() < 0.5:
                        await net.finished(
                            ctx, asyncio.wait([r.task]), 'registration')

            async def queries():
                for _ in range(rng.randint(0, 2)):
                    await aiorun.pause(rng)
                    if rng.random() < 0.3:
                        await inner.flush()

            work = asyncio.gather(follow(inner), queries(), *(
                registrant(i) for i in range(rng.randint(1, 4))))
            if rng.random() < 0.3:
                # engine is closed under load
                await asyncio.sleep(rng.random() * 0.01)
                engine.close()
            await net.finished(ctx, work, 'registrations')
            if rng.random() < 0.6:
                await run.settle()
            await net.finished(ctx, engine.async_close(), 'closing of engine')
            await run.settle()

            if memory or rng.random() < 0.3:
                continue
            await inner.async_close()
            inner = None
            ctx.count('reopens')

        if inner is None:
            inner = await open_backend()
        await judge(ctx, run, inner, callbacks)
    finally:
        run.close()
        if inner is not None:
            await inner.async_close()
    ctx.done((run.server_id, [len(s) for s in run.sessions], memory,
              len(run.starts)) if len(run.starts) > 1 else None,
             ('engines', len(run.starts), 'sessions',
              [s[-1].id for s in run.sessions]))


async def judge(ctx, run, inner, callbacks):
    engines.judge_ids(run)
    engines.judge_bounds(run)
    by_id = {}
    for s in run.sessions:
        ctx.count('multi_event_sessions', len(s) > 1)
        for e in s:
            by_id[e.id] = e

    for kind, _, n in (i for i in run.trace if i[0] == 'start'):
        ctx.count('session_starts')
    # modules are told numbers in order, each once per module
    for spec in {i[1] for i in run.trace if i[0] == 'start'}:
        numbers = [i[2] for i in run.trace if i[0] == 'start' and
                   i[1] == spec]
        ctx.check(all(a < b for a, b in zip(numbers, numbers[1:])),
                  'session number told to a module is not new', numbers)

    # reported
    got = [e for batch in callbacks for e in batch
           if e.id.server == run.server_id]
    ctx.check(len({e.id for e in got}) == len(got), 'event is reported twice')
    for e in got:
        ctx.check(by_id.get(e.id) == e, 'reported event was not created by '
                  'an engine', e)

    # returned
    for r in run.requests:
        if not r.task.cancelled() and not r.task.exception():
            for e in r.task.result() or []:
                ctx.check(by_id.get(e.id) == e, 'returned event was not '
                          'given to storage', e)

    # queried
    seen = {}
    for params in (common.QueryLatestParams(None),
                   common.QueryTimeseriesParams(),
                   common.QueryTimeseriesParams(
                       order_by=common.OrderBy.SOURCE_TIMESTAMP),
                   common.QueryServerParams(run.server_id)):
        result = await inner.query(params)
        for e in result.events:
            if e.id.server != run.server_id:
                continue
            ctx.check(by_id.get(e.id) == e, 'queried event was not created '
                      'by an engine', e)
            ctx.count('queried_events')
            seen[e.id] = e
    last = await inner.get_last_event_id(run.server_id)
    ctx.equal(last, run.sessions[-1][-1].id,
              'last event id of storage after the last engine')


def run_case(ctx):
    aiorun.run(ctx, engines.large if ctx.case % 160 == 11 else case)
