"""C02: sessions and modules."""

import asyncio

from hat.event import common
from hat.event import eventer
import hat.event.server.eventer_server

from rt import aiorun
from rt import engines
from rt import net

LEVEL = 'exploration'
RULE = ('a real engine runs instrumented modules with random subscriptions '
        'and reaction programs, synchronous or suspending anywhere, under '
        'concurrent registrations of many sources, including real eventer '
        'clients. The recorded calls of modules are compared with each '
        'session given to the storage. An evaluation is one session, '
        'non-trivial if modules processed something, distinct by event types '
        'and calls')
TIERS = {'quick': {'cases': 2408, 'time': 45},
         'thorough': {'cases': 30000, 'time': 400}}
REQUIRE = {'judged_sessions': 4000, 'processed': 8000, 'reactions': 2000,
           'filtered': 2000, 'waited_in_queue': 100, 'client_requests': 200,
           'abandoned': 100, 'chained': 500,
           'large': 20}


async def case(ctx):
    rng = ctx.rng
    run = engines.Run(ctx)
    backend = engines.Backend(run)
    backend.slow = rng.choice([0, 0, 0.002])
    specs = run.add_specs(rng.randint(1, 4))
    for spec in specs:
        spec.own = rng.choice([0, 0, 0, 3])
        ctx.log('module', spec.index, spec.subscriptions, 'sync', spec.sync)
    eventer_server = None
    if rng.random() < 0.3:
        addr = net.free_addr()
        eventer_server = \
            await hat.event.server.eventer_server.create_eventer_server(
                addr, backend, run.server_id)
    engine = await run.create_engine(backend, eventer_server,
                                     rng.choice([1, 2, 1024]))
    clients = []
    by_client = {}
    try:
        if rng.random() < 0.02:
            run.register(engine, common.Source(common.SourceType.EVENTER, 7),
                         [run.chain_event(rng.choice(specs),
                                          rng.randint(100, 300))])

        async def registrant(index):
            kind = rng.choice(list(common.SourceType))
            source = common.Source(kind, 1000 + index)
            for _ in range(rng.randint(0, 8)):
                await aiorun.pause(rng)
                r = run.register(engine, source)
                if rng.random() < 0.15:
                    await run.abandon(r)
                elif rng.random() < 0.4:
                    await net.finished(ctx, asyncio.wait([r.task]),
                                       'registration')

        async def client(index):
            name = f'client {index}'
            client = await eventer.connect(addr, name)
            clients.append(client)
            sources = [s for s, n in eventer_server.get_client_names()
                       if n == name]
            ctx.check(len(sources) == 1, 'client is not listed', sources)
            for _ in range(rng.randint(1, 4)):
                await aiorun.pause(rng)
                events = [run.register_event()
                          for _ in range(rng.randint(1, 3))]
                r = engines.Request(len(run.requests), sources[0], events)
                run.requests.append(r)
                by_client[name] = sources[0]
                result = await net.finished(
                    ctx, client.register(events, True), 'registration')
                ctx.check(result is not None and len(result) == len(events)
                          and all(engines.same(a, b)
                                  for a, b in zip(result, events)),
                          'result of client registration', result)
                ctx.count('client_requests')
            if rng.random() < 0.5:
                await client.async_close()

        work = [registrant(i) for i in range(rng.randint(1, 5))]
        if eventer_server:
            await eventer_server.set_status(common.Status.OPERATIONAL, engine)
            work.extend(client(i) for i in range(rng.randint(1, 3)))
        work = asyncio.gather(*work)
        await net.finished(ctx, work, 'registrations')
        pending = [r.task for r in run.requests
                   if r.task and not r.task.done()]
        ctx.count('waited_in_queue', len(pending))
        if pending:
            await net.finished(ctx, asyncio.wait(pending), 'registrations')
        if eventer_server:
            await eventer_server.set_status(common.Status.STOPPING, None)
    finally:
        await engine.async_close()
        for c in clients:
            await c.async_close()
        if eventer_server:
            await eventer_server.async_close()
        run.close()
        for r in run.requests:
            if r.task:
                await asyncio.wait([r.task], timeout=10)
                r.task.cancelled() or r.task.exception()

    engines.judge_sessions(run)
    # lifecycle events of clients have sources of clients
    for entry in run.trace:
        if entry[0] != 'process':
            continue
        source, event = entry[2]
        if event.type[:3] == ('event', str(run.server_id), 'eventer'):
            name = event.type[3]
            ctx.check(source.type == common.SourceType.EVENTER and
                      by_client.get(name, source) == source,
                      'source of client event', {'event': event,
                                                 'source': source})


def run_case(ctx):
    aiorun.run(ctx, engines.large if ctx.case % 80 == 11 else case)
