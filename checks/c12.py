"""C12: durability of flush and close."""

import asyncio
import collections

from hat.event import common

from rt import aiorun
from rt import model
from rt import rawdb
from rt import storage

LEVEL = 'exploration'
RULE = ('generations of the on-disk storage with concurrent registrations, '
        'flush requests, periodic flushes and closes with requests in '
        'progress; every persisted callback copies the database file and '
        'checks that its batch (and all before) is in there, every close is '
        'followed by reopening and comparison of all query answers; an '
        'evaluation is one generation, non-trivial if it accepted events, '
        'distinct by configuration and batches')
TIERS = {'quick': {'cases': 1200, 'time': 45},
         'thorough': {'cases': 30000, 'time': 400}}
REQUIRE = {'generations': 200, 'persisted_callbacks': 300,
           'flushes_completed': 200, 'closes_with_pending': 20,
           'many_flushes': 5, 'many_events': 1, 'slow_registered': 200}


async def snapshot(db):
    """Answers to all queries"""
    result = {}
    b = db.backend
    r = await b.query(common.QueryLatestParams())
    result['latest'] = sorted(r.events, key=lambda e: (e.type, e.id))
    for order in common.Order:
        for order_by in common.OrderBy:
            params = common.QueryTimeseriesParams(order=order,
                                                  order_by=order_by)
            events = []
            while True:
                r = await b.query(params)
                events.extend(r.events)
                if not r.more_follows:
                    break
                params = params._replace(last_event_id=list(r.events)[-1].id)
            result[str(order), str(order_by)] = events
    for types in {tuple(map(tuple, i['subscriptions']))
                  for i in db.conf['timeseries']}:
        for order_by in common.OrderBy:
            params = common.QueryTimeseriesParams(event_types=types,
                                                  order_by=order_by)
            r = await b.query(params)
            result[types, str(order_by)] = list(r.events), r.more_follows
    for server in db.source.servers:
        r = await b.query(common.QueryServerParams(server))
        result['server', server] = list(r.events)
        result['last', server] = await b.get_last_event_id(server)
    return result


def expected_on_disk(d, version):
    """Events that miss in the database"""
    present = {e.id: e for e in d['LATEST_DATA'].values()}
    present.update({e.id: e for e in d['TIMESERIES_DATA'].values()})
    missing = []
    for events in [version.latest.values(),
                   *(p.events.values() for p in version.partitions.values())]:
        missing.extend(e for e in events if present.get(e.id) != e)
    return missing


async def generation(ctx, db, path, last):
    rng = ctx.rng
    n0 = len(db.flushed_cb_batches)
    pending = []

    async def on_flushed(events):
        ctx.count('persisted_callbacks')
        n = len(db.flushed_cb_batches)
        ctx.check(n <= len(db.batches),
                  'more batches reported as persisted than registered')
        ctx.equal(list(events), db.batches[n - 1],
                  'batches are not reported as persisted in order of '
                  'registration, exactly once', n=n)
        if rng.random() < 0.4:
            d = rawdb.dump_copy(path, path.with_name(f'copy{n}'))
            newer = set()
            for b in db.batches[n:]:
                newer.update(e.type for e in b)
            version = db.versions[n]
            missing = [e for e in expected_on_disk(d, version)
                       # latest event may already be replaced on disk
                       if e.type not in newer or
                       any(e.id in p.events
                           for p in version.partitions.values())]
            ctx.check(not missing, 'batch was reported as persisted before '
                      'it was on disk', {'missing': missing})
            ctx.count('persisted_on_disk_checked')
        if rng.random() < 0.2:
            await storage.pause(rng)

    failures = []

    async def flushed_hook(events):
        try:
            await on_flushed(events)
        except Exception as e:
            failures.append(e)

    db.flushed_hook = flushed_hook

    async def flush():
        n = len(db.batches)
        try:
            await db.backend.flush()
        except common.BackendClosedError:
            ctx.count('flushes_closed')
            return
        ctx.count('flushes_completed')
        ctx.check(len(db.flushed_cb_batches) >= n,
                  'flush completed before all batches registered before it '
                  'were reported as persisted',
                  {'registered': n, 'persisted': len(db.flushed_cb_batches)})

    async def register():
        n = len(db.batches)
        try:
            await db.register()
        except common.BackendClosedError:
            # refused without suspension: not registered
            ctx.count('registrations_closed')
            ctx.equal(len(db.batches), n + 1, 'refused registration suspends')
            db.batches.pop()
            db.versions.pop()
            return
        ctx.equal(db.registered_cb_batches[n:n + 1], db.batches[n:n + 1],
                  'registered callback got other events')

    async def writer():
        for _ in range(rng.randint(0, 8)):
            await storage.pause(rng)
            await register()

    async def flusher():
        for _ in range(rng.randint(0, 4)):
            await storage.pause(rng)
            if rng.random() < 0.5:
                await flush()
            else:
                pending.append(asyncio.ensure_future(flush()))

    # second one: events of other servers which are replicated
    writers = [writer() for _ in range(rng.choice([1, 2, 2]))]
    await asyncio.gather(*writers, flusher(), flusher())
    stop_early = rng.random() < 0.5
    if stop_early:
        # requests in progress while closing
        for _ in range(rng.randint(0, 3)):
            await db.register()
        for _ in range(rng.randint(0, 3)):
            pending.append(asyncio.ensure_future(flush()))
        for _ in range(rng.randint(0, 2)):
            pending.append(asyncio.ensure_future(register()))
        before = None
        await storage.pause(rng)
        if pending:
            ctx.count('closes_with_pending')
    else:
        before = await snapshot(db)

    db_backend = db.backend
    close = asyncio.ensure_future(db.close())
    await asyncio.sleep(0)
    if rng.random() < 0.3:
        try:
            pending.append(asyncio.ensure_future(db_backend.flush()))
        except common.BackendClosedError:
            pass
    await close
    for r in await asyncio.gather(*pending, return_exceptions=True):
        if r is None:
            continue
        if not isinstance(r, common.BackendClosedError):
            raise r
    ctx.check(not db_backend.is_open, 'storage is still open')
    if failures:
        raise failures[0]

    ctx.equal(db.flushed_cb_batches, db.batches,
              'after close, batches reported as persisted are not exactly '
              'the registered ones')
    ctx.equal(db.registered_cb_batches, db.batches,
              'batches reported as registered are not exactly the '
              'registered ones')

    d = rawdb.dump(path)
    missing = expected_on_disk(d, db.model)
    ctx.check(not missing, 'accepted events are missing after close',
              {'missing': missing})
    for server, last_id in db.model.last_ids.items():
        ctx.equal(d['SYSTEM_LAST_EVENT_ID'].get(server), last_id,
                  'last event id on disk')

    await db.open()
    after = await snapshot(db)
    if before is not None:
        for k in before:
            if k[0] == 'server':
                # latest events replaced before the last flush are still
                # returned until then
                gone = [e for e in before[k] if e not in after[k]]
                ctx.check(all(any(i.type == e.type and i.id != e.id
                                  for i in db.model.latest.values())
                              for e in gone) and
                          all(e in before[k] for e in after[k]),
                          f'answer to query {k} changed by close and reopen',
                          {'gone': gone, 'before': before[k],
                           'after': after[k]})
                continue
            ctx.equal(after[k], before[k],
                      f'answer to query {k} changed by close and reopen')
    for server in db.source.servers:
        ctx.equal(after['server', server], db.model.stored(server)[:4096],
                  'stored events after reopen')
        ctx.equal(after['last', server],
                  db.model.last_ids.get(server,
                                        common.EventId(server, 0, 0)),
                  'last event id after reopen')
    ctx.equal(after['latest'],
              sorted(db.model.visible.values(), key=lambda e: (e.type, e.id)),
              'latest events after reopen')
    ctx.count('generations')
    new = db.batches[n0:]
    ctx.done(([b[0].id for b in new], db.conf['flush_period'], len(pending))
             if new else None,
             ('batches', len(new), 'pending', len(pending), 'stored',
              len(after['latest'])))


async def case(ctx):
    rng = ctx.rng
    path = ctx.folder('db') / 'event.db'
    conf = storage.gen_conf(
        rng, path, conditions=0.1,
        flush_period=rng.choice([0.001, 0.003, 0.01, 1000]))
    conf['timeseries_max_results'] = rng.choice([1, 3, 4096])
    ctx.log('conf', conf)
    source = storage.Source(rng, hostile=0.05)
    db = storage.Lmdb(ctx, conf, source)
    if rng.random() < 0.5:
        async def on_registered(events):
            if rng.random() < 0.5:
                ctx.count('slow_registered')
                await storage.pause(rng)
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random() * 0.01)

        db.registered_hook = on_registered
    await db.open()
    try:
        for _ in range(rng.randint(1, 4)):
            await generation(ctx, db, path, None)
    finally:
        if db.backend is not None:
            await db.backend.async_close()


async def many_flushes(ctx):
    """More flush requests than the storage can queue"""
    rng = ctx.rng
    path = ctx.folder('db') / 'event.db'
    conf = storage.gen_conf(rng, path, conditions=0,
                            flush_period=rng.choice([0.003, 1000]))
    db = storage.Lmdb(ctx, conf, storage.Source(rng))
    await db.open()
    backend = db.backend
    closing = rng.random() < 0.6
    completed = collections.Counter()

    async def flush(i):
        if i % 500 == 0:
            try:
                await db.register()
            except common.BackendClosedError:
                db.batches.pop()
        n = len(db.batches)
        try:
            await backend.flush()
        except common.BackendClosedError:
            completed['closed'] += 1
            ctx.check(closing, 'flush of open storage')
            return
        completed['done'] += 1
        ctx.check(len(db.flushed_cb_batches) >= n,
                  'flush completed before all batches registered before it '
                  'were reported as persisted',
                  {'registered': n, 'persisted': len(db.flushed_cb_batches)})

    tasks = [asyncio.ensure_future(flush(i))
             for i in range(rng.choice([4096, 4100, 9000]))]
    for _ in range(rng.randint(0, 4)):
        await asyncio.sleep(0)
    if closing:
        await db.close()
    await asyncio.gather(*tasks)
    ctx.log(completed)
    ctx.count('many_flushes')
    ctx.check(closing or backend.is_open, 'storage closed')
    if not closing:
        await db.close()
    ctx.equal(db.flushed_cb_batches, db.batches,
              'after close, batches reported as persisted are not exactly '
              'the registered ones')
    ctx.done(('many', len(tasks), closing, conf['flush_period']))


async def many_events(ctx):
    """More events waiting for flush than the storage wants"""
    path = ctx.folder('db') / 'event.db'
    conf = {'db_path': str(path), 'identifier': None, 'flush_period': 1000,
            'cleanup_period': 1000, 'conditions': [],
            'latest': {'subscriptions': [['*']]}, 'timeseries': []}
    db = storage.Lmdb(ctx, conf, storage.Source(ctx.rng))
    await db.open()
    backend = db.backend
    batches = []
    event = common.Event(common.EventId(1, 1, 1), ('a', ),
                         common.Timestamp(1, 0), None, None)
    for session, n in enumerate(ctx.rng.choice([[262144, 2], [140000, 140000],
                                                [3, 262145, 1, 1]])):
        batch = [event._replace(id=common.EventId(1, session + 1, i + 1))
                 for i in range(n)]
        batches.append(batch)
        await asyncio.wait_for(backend.register(batch), 100)
        await asyncio.sleep(0)
    await asyncio.sleep(0.01)
    ctx.check(backend.is_open, 'storage closed')
    await asyncio.wait_for(backend.flush(), 100)
    ctx.check([len(i) for i in db.flushed_cb_batches] ==
              [len(i) for i in batches] and
              all(i[-1].id == j[-1].id
                  for i, j in zip(db.flushed_cb_batches, batches)),
              'persisted batches', [len(i) for i in db.flushed_cb_batches])
    await db.close()
    await db.open()
    r = await db.backend.query(common.QueryServerParams(1))
    ctx.equal([i.id for i in r.events], [batches[-1][-1].id],
              'events after reopening')
    ctx.equal(await db.backend.get_last_event_id(1), batches[-1][-1].id,
              'last event id')
    await db.close()
    ctx.count('many_events')
    ctx.done(('many events', [len(i) for i in batches]))


def run_case(ctx):
    aiorun.run(ctx, many_events if ctx.case % 1000 == 11 else
               many_flushes if ctx.case % 100 == 3 else case)
