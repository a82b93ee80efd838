"""Driving of storage backends with recorded histories."""

import asyncio

from hat.event import common

from rt import gen
from rt import model


def gen_condition(rng, depth=2):
    k = rng.random()
    if depth and k < 0.2:
        return {'type': 'all', 'conditions': [
            gen_condition(rng, depth - 1) for _ in range(rng.randint(0, 3))]}
    if depth and k < 0.45:
        return {'type': 'any', 'conditions': [
            gen_condition(rng, depth - 1) for _ in range(rng.randint(0, 3))]}
    conf = {'type': 'json'}
    if rng.random() < 0.5:
        conf['data_path'] = rng.choice(
            ['a', ['a'], ['b', 0], [['a'], 'b'], 0, [], ['a', -1], 'c',
             ['a', 'b', 'c'], [1]])
    if rng.random() < 0.7:
        conf['data_type'] = rng.choice(['null', 'boolean', 'string', 'number',
                                        'array', 'object'])
    if rng.random() < 0.4:
        conf['data_value'] = rng.choice(['', 'a', 'ž', None, 42, -7, [],
                                         {'a': 'b'}, [42]])
    return conf


def gen_conf(rng, path, *, conditions=0.3, limits=False, flush_period=1000,
             cleanup_period=1000, max_results=0.4, max_partitions=3,
             wide=0.5):

    def subscriptions(n=3):
        if rng.random() < wide:
            return [['*']]
        return [list(i) for i in gen.query_types(rng, n)]

    conf = {'db_path': str(path),
            'identifier': rng.choice([None, 'id']),
            'flush_period': flush_period,
            'cleanup_period': cleanup_period,
            'conditions': [],
            'latest': {'subscriptions': subscriptions()},
            'timeseries': []}
    if rng.random() < conditions:
        conf['conditions'] = [
            {'subscriptions': subscriptions(), 'condition':
             gen_condition(rng)} for _ in range(rng.randint(1, 2))]
    n = rng.randint(0, max_partitions)
    if n and rng.random() < 0.05:
        n = 10
    for _ in range(n):
        p = {'order_by': rng.choice(['TIMESTAMP', 'SOURCE_TIMESTAMP']),
             'subscriptions': subscriptions()}
        if limits and rng.random() < 0.8:
            p['limit'] = gen_limit(rng)
        key = (p['order_by'], model.normalize(p['subscriptions']))
        if any(key == (i['order_by'], model.normalize(i['subscriptions']))
               for i in conf['timeseries']):
            continue
        conf['timeseries'].append(p)
    if rng.random() < max_results:
        conf['timeseries_max_results'] = rng.choice([1, 2, 5, 10, 100])
    if rng.random() < 0.2:
        conf['timeseries_event_type_cache_size'] = rng.choice([0, 1, 2])
    return conf


def gen_limit(rng):
    limit = {}
    if rng.random() < 0.4:
        limit['min_entries'] = rng.choice([0, 1, 3, 10])
    if rng.random() < 0.6:
        limit['max_entries'] = rng.choice([0, 1, 2, 5, 20])
    if rng.random() < 0.3:
        limit['duration'] = rng.choice([0, 5, 10.5, 100, 1e9])
    if rng.random() < 0.2:
        limit['size'] = rng.choice([0, 1000, 5000, 1000000])
    return limit


EXTREMES = [common.min_timestamp, common.max_timestamp,
            common.Timestamp(common.min_timestamp.s, 1),
            common.Timestamp(common.min_timestamp.s, 999_999),
            common.Timestamp(common.max_timestamp.s, 0),
            common.Timestamp(common.max_timestamp.s, 999_998),
            common.Timestamp(-1, 999_999), common.Timestamp(0, 0),
            common.Timestamp(-1, 0)]


class Source:
    """Generator of registered batches"""

    def __init__(self, rng, *, servers=3, hostile=0.0, odd=0.03,
                 max_batch=5, payloads=gen.payload):
        self.rng = rng
        self.hostile = hostile
        self.odd = odd
        self.max_batch = max_batch
        self.payloads = payloads
        pool = [1, 2, 3, 7, 2 ** 32, 2 ** 63 - 1]
        self.servers = (pool[:servers] if rng.random() < 0.8
                        else rng.sample(pool, servers))
        if rng.random() < 0.2:
            self.servers[0] = 0
        self.sessions = {i: 0 for i in self.servers}
        self.clocks = {i: 1000 + rng.randint(0, 5) for i in self.servers}
        self.extreme = rng.random() < 0.1
        if self.extreme and rng.random() < 0.5:
            base = rng.choice([common.min_timestamp.s + 4, -1003,
                               common.max_timestamp.s - 10 ** 5])
            self.clocks = {i: base + rng.randint(0, 5) for i in self.servers}
        self.old = []

    def event(self, event_id, timestamp):
        rng = self.rng
        return common.Event(
            id=event_id,
            type=gen.event_type(rng, odd=self.odd),
            timestamp=timestamp,
            source_timestamp=(None if rng.random() < 0.3
                              else self.source_timestamp()),
            payload=self.payloads(rng))

    def source_timestamp(self):
        if self.extreme and self.rng.random() < 0.3:
            return self.rng.choice(EXTREMES)
        return gen.timestamp(self.rng)

    def batch(self):
        rng = self.rng

        if self.old and rng.random() < self.hostile:
            return self.hostile_batch()

        server = rng.choice(self.servers)
        self.sessions[server] += rng.choice([1, 1, 1, 2, 1000])
        self.clocks[server] += rng.choice([0, 0, 0, 1, 1, 3])
        timestamp = common.Timestamp(
            self.clocks[server], rng.choice([0, 0, 0, 999999]))
        if timestamp.us:
            self.clocks[server] += 1
        batch = [self.event(common.EventId(server, self.sessions[server], i),
                            timestamp)
                 for i in range(1, rng.randint(1, self.max_batch) + 1)]
        self.old.append(batch)
        return batch

    def hostile_batch(self):
        rng = self.rng
        k = rng.randint(0, 5)
        if k == 0:
            # replay
            return list(rng.choice(self.old))
        if k == 1:
            # same ids, other contents
            return [self.event(e.id, e.timestamp)
                    for e in rng.choice(self.old)]
        server = rng.choice(self.servers)
        self.sessions[server] += 1
        ids = [common.EventId(server, self.sessions[server], i)
               for i in range(1, rng.randint(1, self.max_batch) + 1)]
        now = self.clocks[server]
        if k == 2:
            # clock regressions within batch and against last
            return [self.event(i, common.Timestamp(
                now + rng.randint(-3, 0), rng.choice([0, 999999])))
                for i in ids]
        if k == 3:
            # ids out of order
            rng.shuffle(ids)
            return [self.event(i, common.Timestamp(now + 1, 0)) for i in ids]
        if k == 4:
            # several servers in one batch
            result = []
            for server in self.servers:
                self.sessions[server] += 1
                self.clocks[server] += 1
                result.append(self.event(
                    common.EventId(server, self.sessions[server], 1),
                    common.Timestamp(self.clocks[server], 0)))
            rng.shuffle(result)
            self.old.append(result)
            return result
        # mixture of old and new
        result = [*rng.choice(self.old)[:2],
                  *(self.event(i, common.Timestamp(now + 1, 0))
                    for i in ids),
                  *rng.choice(self.old)[:2]]
        self.clocks[server] += 1
        return result


class Lmdb:
    """Monitored on-disk backend together with its reference model.

    `batches` are all registered batches (over all generations),
    `versions[i]` is the model state after i batches; `flushed` is the
    number of batches which are certainly on disk.
    """

    def __init__(self, ctx, conf, source=None):
        self.ctx = ctx
        self.rng = ctx.rng
        self.source = source
        self.model = model.Storage()
        self.model.configure(conf)
        self.conf = conf
        self.batches = []
        self.registered_cb_batches = []
        self.flushed_cb_batches = []
        self.generation_start = 0
        self.flushed = 0
        self.versions = [self.model.copy()]
        self.backend = None
        self.info = common.import_backend_info('hat.event.backends.lmdb')
        self.registered_hook = None
        self.flushed_hook = None

    async def open(self, conf=None):
        if conf is not None:
            self.conf = conf
        self.model.configure(self.conf)
        self.versions = [None] * len(self.batches) + [self.model.copy()]
        self.generation_start = len(self.batches)
        self.flushed = len(self.batches)
        self.backend = await self.info.create(
            self.conf, (self._on_registered_async if self.registered_hook
                        else self._on_registered), self._on_flushed)
        self.ctx.count('opens')

    async def close(self):
        await self.backend.async_close()
        self.flushed = len(self.batches)
        self.backend = None

    async def reopen(self, conf=None):
        await self.close()
        await self.open(conf)

    def _on_registered(self, events):
        self.registered_cb_batches.append(list(events))

    async def _on_registered_async(self, events):
        self._on_registered(events)
        await self.registered_hook(events)

    async def _on_flushed(self, events):
        self.flushed_cb_batches.append(list(events))
        self.flushed = max(self.flushed, len(self.flushed_cb_batches))
        if self.flushed_hook:
            await self.flushed_hook(events)

    async def register(self, batch=None):
        if batch is None:
            batch = self.source.batch()
        self.ctx.log('register', batch if len(batch) < 100
                     else f'{len(batch)} events {batch[0].id}..{batch[-1].id}')
        # model first: registering takes effect without suspension
        accepted = self.model.register(batch)
        self.batches.append(list(batch))
        self.versions.append(self.model.copy())
        result = await self.backend.register(batch)
        self.ctx.count('batches')
        self.ctx.count('events', len(batch))
        self.ctx.count('events_accepted', len(accepted))
        return result

    async def flush(self):
        n = len(self.batches)
        await self.backend.flush()
        self.flushed = max(self.flushed, n)
        self.ctx.count('flushes')

    async def query(self, params):
        """Result together with the range of versions it may reflect"""
        lo, flushed = len(self.batches), self.flushed
        result = await self.backend.query(params)
        return (list(result.events), result.more_follows,
                flushed, lo, len(self.batches))


def gen_latest(rng, source):
    k = rng.random()
    if k < 0.15:
        return common.QueryLatestParams(None)
    if k < 0.2:
        return common.QueryLatestParams([])
    types = {gen.query_type(rng, wild=0.2) if rng.random() < 0.5
             else gen.event_type(rng) for _ in range(rng.randint(1, 4))}
    if rng.random() < 0.2:
        types |= {gen.event_type(rng)
                  for _ in range(rng.choice([60, 60, 300]))}
    types = list(types)
    if rng.random() < 0.1:
        types.append(types[0])
    return common.QueryLatestParams(types)


def gen_timeseries(rng, source, paging_id=None):
    def t():
        return (None if rng.random() < 0.8 else
                rng.choice(EXTREMES)
                if source and source.extreme and rng.random() < 0.3 else
                gen.timestamp(rng, span=15))

    if rng.random() < 0.6:
        types = None
    else:
        types = gen.query_types(rng, 3)
        if rng.random() < 0.6:
            types.append(rng.choice([('?', '*'), ('?', '?'), ('*', ), ('?', ),
                                     ('a', '*'), ('?', 'b', '*')]))
    return common.QueryTimeseriesParams(
        event_types=types, t_from=t(), t_to=t(), source_t_from=t(),
        source_t_to=t(), order=rng.choice(list(common.Order)),
        order_by=rng.choice(list(common.OrderBy)),
        max_results=rng.choice([None, None, 0, 1, 2, 3, 5, 10, 50, 100000]))


def gen_server(rng, source):
    server = rng.choice(source.servers)
    last = None
    if rng.random() < 0.5:
        if source.old and rng.random() < 0.7:
            e = rng.choice(rng.choice(source.old))
            if e.id.server == server:
                last = e.id
        if last is None:
            last = common.EventId(
                server, rng.randint(0, source.sessions[server] + 2),
                rng.randint(0, 6))
    return common.QueryServerParams(
        server_id=server, persisted=rng.random() < 0.4,
        max_results=rng.choice([None, None, 0, 1, 2, 3, 5, 10, 50, 100000]),
        last_event_id=last)


def check_latest(ctx, db, params, events, more, lo, hi):
    got = {}
    for e in events:
        ctx.check(e.type not in got, 'latest query returned event type twice',
                  {'params': params, 'events': events})
        got[e.type] = e
    ctx.check(not more, 'latest query says more follows')
    answers = []
    for v in range(lo, hi + 1):
        expected = db.versions[v].query_latest(params)
        if expected == got:
            return expected
        answers.append(expected)
    extra = [e for e in events if e not in answers[-1].values()]
    missing = [e for e in answers[-1].values() if e not in events]
    ctx.violation('latest query returned wrong events',
                  {'params': params, 'unexpected': extra, 'missing': missing,
                   'conf': db.conf})


def check_timeseries(ctx, db, params, events, more, lo, hi):
    limit = db.conf.get('timeseries_max_results', 4096)
    answers = []
    for v in range(lo, hi + 1):
        expected = db.versions[v].query_timeseries(params, limit)
        if expected == (events, more):
            return expected
        answers.append(expected)
    expected, expected_more = answers[-1]
    ctx.violation('timeseries query returned wrong result',
                  {'params': params, 'got ids': [e.id for e in events],
                   'got more follows': more,
                   'expected ids': [e.id for e in expected],
                   'expected more follows': expected_more,
                   'got': events, 'expected': expected,
                   'conf': db.conf})


def check_server(ctx, db, params, events, more, flushed, lo, hi):
    server_id = params.server_id
    answers = []
    seen = set()
    for v in range(lo, hi + 1):
        for u in range(flushed, v + 1):
            if db.versions[u] is None:
                continue
            on_disk = db.versions[u].stored(server_id)
            if params.persisted:
                all_events = on_disk
                if v != hi:
                    continue
            else:
                ids = {e.id for e in on_disk}
                old = {tuple(e.id) for b in db.batches[:u] for e in b}
                all_events = on_disk + [
                    e for e in db.versions[v].stored(server_id)
                    if e.id not in ids and tuple(e.id) not in old]
                all_events.sort(key=lambda e: e.id)
            expected = model.server(all_events, params, 4096)
            if expected == (events, more):
                return expected
            key = tuple(e.id for e in expected[0])
            if key not in seen:
                seen.add(key)
                answers.append(expected)
    ctx.violation('server query returned wrong result',
                  {'params': params, 'got ids': [e.id for e in events],
                   'got more follows': more,
                   'possible answers': [
                       ([e.id for e in a], m) for a, m in answers[-4:]],
                   'got': events, 'flushed': flushed, 'versions': (lo, hi),
                   'conf': db.conf})


async def pause(rng):
    k = rng.random()
    if k < 0.7:
        for _ in range(rng.randint(0, 4)):
            await asyncio.sleep(0)
    else:
        await asyncio.sleep(rng.random() * 0.003)


async def history(ctx, query, *, hostile=0.1, steps=40, conf_args={},
                  concurrent=0.12, reconf=0.05, source_args={}):
    """Random history; `query` coroutine issues and judges one query"""
    rng = ctx.rng
    path = ctx.folder('db') / 'event.db'
    conf = gen_conf(rng, path, **conf_args)
    ctx.log('conf', conf)
    source = Source(rng, servers=rng.randint(1, 3),
                    hostile=hostile if rng.random() < 0.5 else 0,
                    **source_args)
    db = Lmdb(ctx, conf, source)
    await db.open()
    try:
        for _ in range(rng.randint(steps // 2, steps)):
            k = rng.random()
            if k < 0.42:
                await db.register()
            elif k < 0.50:
                ctx.log('flush')
                await db.flush()
            elif k < 0.50 + reconf:
                new = conf
                if rng.random() < 0.6:
                    new = {**gen_conf(rng, path, **conf_args),
                           'identifier': conf['identifier']}
                    if rng.random() < 0.5:
                        new = {**new, **rng.choice([
                            {'latest': conf['latest']},
                            {'timeseries': conf['timeseries']},
                            {'conditions': conf['conditions']},
                            {'conditions': []}])}
                ctx.log('reopen', 'same' if new is conf else new)
                ctx.count('reopens')
                if new is not conf:
                    ctx.count('reconfigurations')
                conf = new
                await db.reopen(conf)
            elif k < 0.50 + reconf + concurrent:
                ctx.log('concurrent block')
                ctx.count('concurrent_blocks')

                async def writer():
                    for _ in range(rng.randint(1, 6)):
                        await pause(rng)
                        await db.register()

                async def flusher():
                    for _ in range(rng.randint(1, 3)):
                        await pause(rng)
                        ctx.log('flush')
                        await db.flush()

                async def reader():
                    for _ in range(rng.randint(1, 4)):
                        await pause(rng)
                        await query(ctx, db)

                await asyncio.gather(writer(), flusher(), reader(), reader())
            else:
                await query(ctx, db)
        for _ in range(4):
            await query(ctx, db)
    finally:
        await db.close()
    return db


def wide(rng, params):
    """The same query with answer around the bounds"""
    params = params._replace(max_results=rng.choice(
        [None, None, 10, 4095, 4096, 4097, 100000]))
    if isinstance(params, common.QueryTimeseriesParams):
        if rng.random() < 0.8:
            params = params._replace(event_types=rng.choice([None, [('*', )]]))
        if rng.random() < 0.8:
            params = params._replace(t_from=None, t_to=None,
                                     source_t_from=None, source_t_to=None)
    return params


async def many(ctx, query):
    """More events than any answer holds, around the bounds of answers"""
    rng = ctx.rng
    path = ctx.folder('db') / 'event.db'
    conf = {'db_path': str(path), 'identifier': None,
            'flush_period': rng.choice([0.05, 1000]), 'cleanup_period': 1000,
            'conditions': [],
            'latest': {'subscriptions': [['*']] if rng.random() < 0.6
                       else [['a', '*']]},
            'timeseries': [{'order_by': i, 'subscriptions': [['*']]}
                           for i in ('TIMESTAMP', 'SOURCE_TIMESTAMP')]}
    if rng.random() < 0.5:
        conf['timeseries_max_results'] = rng.choice([4096, 4095, 5000, 10000,
                                                     10 ** 9])
    ctx.log('conf', conf)
    source = Source(rng, servers=2, odd=0)
    db = Lmdb(ctx, conf, source)
    await db.open()
    bound = rng.choice([4096, 4096, 8192,
                        conf.get('timeseries_max_results', 4096)])
    bound = min(bound, 10000) + rng.choice([-1, 0, 1, 2, 700])
    server = source.servers[-1]
    unique = rng.random() < 0.5
    left = bound
    try:
        while left:
            n = rng.choice([left, left, min(left, 3000), left - left // 2])
            left -= n
            source.sessions[server] += 1
            source.clocks[server] += 1
            t = common.Timestamp(source.clocks[server], 0)
            batch = [common.Event(
                common.EventId(server, source.sessions[server], i),
                ('m', str(i)) if unique else ('a', str(i % 7)), t,
                common.Timestamp(1000 + i % 97, 0), None)
                for i in range(1, n + 1)]
            source.old.append(batch)
            await db.register(batch)
            if rng.random() < 0.5:
                await db.flush()
            for _ in range(rng.randint(0, 2)):
                await db.register()
        if rng.random() < 0.2:
            await db.reopen()
        ctx.count('many')
        for _ in range(6):
            await query(ctx, db)
    finally:
        await db.close()
