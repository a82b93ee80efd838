"""C31: a slow disk delays only what needs the disk."""

import asyncio
import collections
import ctypes
import os
import pathlib
import pickle
import struct
import sys
import traceback

from checks import c13
from rt import aiorun
from rt import core

LEVEL = 'exploration'
RULE = ('the real storage, alone or below a whole server with clients, runs '
        'in a child process in which chosen writes, syncs and truncates of '
        'the database file wait until the monitor lets them finish. While '
        'one waits, registrations have to be accepted and answered, '
        'registered events notified, latest queries answered with them and '
        'clients admitted; nothing registered meanwhile may be reported as '
        'persisted, and no flush or closing may complete. Afterwards '
        'everything has to be reported in order and found on disk. An '
        'evaluation is one waiting operation, non-trivial if something was '
        'done meanwhile, distinct by what was done')
TIERS = {'quick': {'cases': 1344, 'time': 45, 'case_timeout': 120},
         'thorough': {'cases': 6000, 'time': 450, 'case_timeout': 200}}
REQUIRE = {'held': 150, 'batches_during': 300, 'latest_during': 200,
           'server_held': 60, 'answers_during': 120, 'notified_during': 120,
           'connected_during': 15, 'flushes_during': 20, 'slow_queries': 30,
           'closed_during': 20, 'reopened': 100, 'waited': 40}
ASSUMPTIONS = ['disk operations are those on the database file; reading of '
               'it (by mapped memory) does not wait']


class Held:
    """Control over disk operations"""

    def __init__(self, ctx, lib):
        self.ctx = ctx
        self.lib = lib
        self.expired = lib.crashlog_expired()

    @property
    def active(self):
        return self.lib.crashlog_holding() > 0

    def arm(self, after):
        self.lib.crashlog_hold(after)

    def release(self):
        self.lib.crashlog_release()

    def check(self):
        self.ctx.check(self.lib.crashlog_expired() == self.expired,
                       'everything waited for an operation of the disk')


# child ----------------------------------------------------------------------

def child():
    lib = ctypes.CDLL(os.environ['LD_PRELOAD'].split(':')[0])
    for name in ('holding', 'expired'):
        getattr(lib, f'crashlog_{name}').restype = ctypes.c_long
    lib.crashlog_hold.argtypes = [ctypes.c_long]

    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            return
        spec = pickle.loads(
            sys.stdin.buffer.read(struct.unpack('>Q', head)[0]))
        ctx = core.Ctx('C31', spec['seed'], spec['tier'], spec['case'],
                       spec['tmp'])
        ctx.state = {}
        result = {}
        lib.crashlog_start(spec['tmp'].encode(), b'/dev/null')
        held = Held(ctx, lib)

        async def case(ctx):
            try:
                if ctx.rng.random() < 0.5:
                    await storage_case(ctx, held)
                else:
                    await server_case(ctx, held)
            finally:
                held.release()
            held.check()

        try:
            try:
                aiorun.run(ctx, case)
            except BaseException:
                if ctx.first_violation:
                    raise ctx.first_violation
                raise
            if ctx.first_violation:
                raise ctx.first_violation
        except core.Violation as e:
            held_too_long = lib.crashlog_expired() > held.expired
            result['violation'] = (
                e.message + (' (everything waited for an operation of the '
                             'disk)' if held_too_long else ''),
                core.jsonable(e.witness))
        except core.Inconclusive as e:
            result['inconclusive'] = str(e)
        except Exception as e:
            src = os.environ['VERIF_SRC']
            frames = traceback.extract_tb(e.__traceback__)
            if any(i.filename.startswith(src) for i in frames):
                result['violation'] = (f'unexpected exception '
                                       f'{type(e).__name__}: {e}',
                                       traceback.format_exc())
            else:
                result['error'] = traceback.format_exc()
        lib.crashlog_stop()
        result.update(counters=dict(ctx.counters), maxima=ctx.maxima,
                      evaluations=ctx.evaluations,
                      signatures=ctx.signatures, samples=ctx.samples,
                      trace=list(ctx.trace))
        data = pickle.dumps(result)
        out.write(struct.pack('>Q', len(data)) + data)
        out.flush()


async def storage_case(ctx, held):
    """Storage alone against its reference model"""
    from rt import net
    from rt import storage

    rng = ctx.rng
    path = ctx.folder('db') / 'event.db'
    conf = storage.gen_conf(rng, path, flush_period=rng.choice(
        [1000, 0.01, 0.05]), cleanup_period=rng.choice([1000, 0.02]),
        limits=False)
    source = storage.Source(rng, servers=2)
    db = storage.Lmdb(ctx, conf, source)
    await db.open()

    async def latest():
        params = storage.gen_latest(rng, source)
        lo = len(db.batches)
        result = await net.finished(ctx, db.query(params), 'latest query')
        events, more, _, _, hi = result
        storage.check_latest(ctx, db, params, events, more, lo, hi)

    try:
        for _ in range(rng.randint(1, 4)):
            for _ in range(rng.randint(0, 4)):
                await db.register()
            if rng.random() < 0.3:
                await db.flush()

            held.arm(rng.choice([0, 0, 0, 1, 1, 2, 3, 5]))
            await db.register()
            first = asyncio.ensure_future(db.flush())
            for _ in range(400):
                if held.active or first.done():
                    break
                await asyncio.sleep(0.0005)
            if not held.active:
                held.release()
                await net.finished(ctx, first, 'flush')
                ctx.count('not_held')
                continue

            ctx.count('held')
            start = len(db.batches)
            flushes = []
            slow = []
            done = collections.Counter()
            for _ in range(rng.randint(1, 12)):
                k = rng.random()
                if k < 0.45:
                    n = len(db.registered_cb_batches)
                    result = await net.finished(ctx, db.register(),
                                                'registration')
                    ctx.check(
                        result is not None and
                        list(result) == db.batches[-1] and
                        db.registered_cb_batches[n:] == [db.batches[-1]],
                        'registration while the disk is slow is not '
                        'notified')
                    done['batch'] += 1
                elif k < 0.75:
                    await latest()
                    done['latest'] += 1
                elif k < 0.8:
                    server = rng.choice(source.servers)
                    last = await net.finished(
                        ctx, db.backend.get_last_event_id(server),
                        'last event id')
                    ctx.check(last == db.model.last_ids.get(
                        server, type(last)(server, 0, 0)),
                        'last event id is wrong while the disk is slow')
                elif k < 0.9:
                    flushes.append((len(db.batches), asyncio.ensure_future(
                        db.backend.flush())))
                    done['flush'] += 1
                else:
                    params = rng.choice([storage.gen_timeseries,
                                         storage.gen_server])(rng, source)
                    slow.append(asyncio.ensure_future(
                        db.backend.query(params)))
                    done['query'] += 1
                await storage.pause(rng)
                ctx.check(held.active, 'disk operation did not wait')
                ctx.check(len(db.flushed_cb_batches) < start + 1,
                          'batch registered while the disk waits is '
                          'reported as persisted')
            closing = None
            if rng.random() < 0.25:
                closing = asyncio.ensure_future(db.backend.async_close())
                await asyncio.sleep(rng.choice([0, 0.02, 0.05]))
                ctx.count('closed_during')
                ctx.check(not closing.done(),
                          'closing completed while the disk waits')
            for n, i in flushes:
                ctx.check(not i.done() or i.exception(),
                          'flush completed while the disk waits')
            ctx.check(len(db.flushed_cb_batches) <= start,
                      'batch registered while the disk waits is reported as '
                      'persisted')
            held.check()
            total = len(db.batches)
            ctx.count('batches_during', done['batch'])
            ctx.count('latest_during', done['latest'])
            ctx.count('flushes_during', done['flush'])
            ctx.count('slow_queries', done['query'])
            ctx.done(('storage', tuple(sorted(done.items())),
                      closing is not None) if done else None)

            held.release()
            for n, i in flushes:
                try:
                    await net.finished(ctx, i, 'flush after the disk waited')
                except Exception:
                    ctx.check(closing is not None, 'flush failed')
                    continue
                ctx.check(len(db.flushed_cb_batches) >= n,
                          'flush completed before everything is reported')
                ctx.count('waited')
            for i in slow:
                try:
                    await net.finished(ctx, i, 'query after the disk waited')
                except Exception:
                    ctx.check(closing is not None, 'query failed')
            try:
                await net.finished(ctx, first, 'flush after the disk waited')
            except Exception:
                ctx.check(closing is not None, 'flush failed')
            if closing:
                await net.finished(ctx, closing, 'closing')
                break
    finally:
        held.release()
        await net.finished(ctx, db.backend.async_close(), 'closing')

    ctx.check(db.flushed_cb_batches == db.batches,
              'reported batches are not the registered ones',
              lambda: {'reported': len(db.flushed_cb_batches),
                       'registered': len(db.batches)})
    await db.open()
    try:
        ctx.count('reopened')
        for params in (storage.gen_latest(rng, source),
                       storage.common.QueryLatestParams()):
            events, more, _, lo, hi = await db.query(params)
            storage.check_latest(ctx, db, params, events, more, lo, hi)
        for _ in range(3):
            params = storage.gen_server(rng, source)
            events, more, flushed, lo, hi = await db.query(params)
            storage.check_server(ctx, db, params, events, more, flushed, lo,
                                 hi)
            params = storage.gen_timeseries(rng, source)
            events, more, _, lo, hi = await db.query(params)
            storage.check_timeseries(ctx, db, params, events, more, lo, hi)
    finally:
        await db.close()


class Clients:

    def __init__(self, ctx, addr):
        self.ctx = ctx
        self.addr = addr
        self.index = 0
        self.events = {}   # answered registrations
        self.notified = collections.defaultdict(list)

    async def connect(self, name, **kwargs):
        from hat.event import eventer
        from rt import net

        def notified(_, events):
            self.notified[name].extend(events)

        async def connect():
            while True:
                try:
                    return await eventer.connect(
                        self.addr, name, events_cb=notified, **kwargs)
                except ConnectionError:
                    await asyncio.sleep(0.005)

        client = await net.finished(self.ctx, connect(),
                                    'connecting of a client')
        return client

    async def register(self, client):
        from hat.event import common
        from rt import gen
        from rt import net

        rng = self.ctx.rng
        events = []
        for _ in range(rng.randint(1, 3)):
            self.index += 1
            events.append(common.RegisterEvent(
                ('g', rng.choice(['a', 'b', 'c']), str(self.index % 5)),
                None if rng.random() < 0.5 else gen.timestamp(rng),
                common.EventPayloadJson(self.index)))
        result = await net.finished(
            self.ctx, client.register(events, True), 'registration')
        self.ctx.check(
            result is not None and
            [(i.type, i.source_timestamp, i.payload) for i in result] ==
            [tuple(i) for i in events], 'registration was not accepted',
            {'result': core.short(result)})
        for i in result:
            self.events[i.id] = i
        return result

    def latest(self):
        result = {}
        for i in self.events.values():
            result[i.type] = i
        return result

    async def query_latest(self, client):
        from hat.event import common
        from rt import net

        expected = self.latest()
        types = self.ctx.rng.sample(sorted(expected), min(2, len(expected)))
        result = await net.finished(self.ctx, client.query(
            common.QueryLatestParams(types or [('g', '*')])), 'latest query')
        got = {i.type: i for i in result.events}
        self.ctx.check(all(got.get(i) == expected[i] for i in types),
                       'latest query misses answered events',
                       {'types': types})


async def server_case(ctx, held):
    """Whole server with clients"""
    from hat.event import common
    import hat.event.server.main_runner

    from rt import net
    from rt import rawdb

    rng = ctx.rng
    addr = net.free_addr()
    path = ctx.folder('db') / 'event.db'
    conf = {'type': 'event', 'version': 'v', 'server_id': 1, 'name': 's',
            'backend': {
                'module': 'hat.event.backends.lmdb', 'identifier': None,
                'db_path': str(path),
                'flush_period': rng.choice([0.005, 0.02, 0.05]),
                'cleanup_period': rng.choice([0.03, 1]),
                'conditions': [],
                'latest': {'subscriptions': [['*']]},
                'timeseries': [
                    {'order_by': 'TIMESTAMP', 'subscriptions': [['*']],
                     **rng.choice([{}, {'limit': {'max_entries': 1000}}])}]},
            'eventer_server': {'host': addr.host, 'port': addr.port},
            'modules': []}

    runner = hat.event.server.main_runner.MainRunner(conf)
    clients = Clients(ctx, addr)
    closing = None
    try:
        request = await clients.connect('request')
        registered = await clients.connect('registered',
                                           subscriptions=[('g', '*')])
        persisted = await clients.connect('persisted',
                                          subscriptions=[('g', '*')],
                                          persisted=True)
        others = [await clients.connect(f'other{i}') for i in range(3)]
        temporary = []

        def check_notified(name, expected):
            got = clients.notified[name]
            ctx.check(got == expected[:len(got)],
                      'notified events are not the registered ones',
                      {'client': name, 'got': core.short(got[-5:]),
                       'n': (len(got), len(expected))})

        async def all_notified(name):
            expected = list(clients.events.values())
            await net.until(
                ctx, lambda: len(clients.notified[name]) >= len(expected),
                f'notification of {name} events',
                witness=lambda: {'n': (len(clients.notified[name]),
                                       len(expected)),
                                 'held': held.active})
            check_notified(name, expected)

        for _ in range(rng.randint(1, 3)):
            for _ in range(rng.randint(0, 3)):
                await clients.register(request)
            held.arm(rng.choice([0, 0, 0, 1, 1, 2, 3]))
            for _ in range(200):
                if held.active:
                    break
                await clients.register(request)
                await asyncio.sleep(rng.random() * 0.005)
            if not held.active:
                held.release()
                ctx.count('not_held')
                continue

            ctx.count('held')
            ctx.count('server_held')
            await asyncio.sleep(0)
            before = set(clients.events)
            done = collections.Counter()
            slow = []
            for _ in range(rng.randint(2, 12)):
                k = rng.random()
                if k < 0.5:
                    await clients.register(request)
                    done['register'] += 1
                    if rng.random() < 0.5:
                        await all_notified('registered')
                        done['notified'] += 1
                elif k < 0.75:
                    await clients.query_latest(request)
                    done['latest'] += 1
                elif k < 0.85:
                    name = f'temporary{len(temporary)}'
                    client = await clients.connect(
                        name, subscriptions=[('g', '*')],
                        persisted=rng.random() < 0.3)
                    temporary.append(client)
                    await clients.register(client)
                    await clients.query_latest(client)
                    done['connect'] += 1
                    if rng.random() < 0.5:
                        await net.finished(ctx, client.async_close(),
                                           'closing of a client')
                elif others:
                    params = rng.choice([common.QueryTimeseriesParams(),
                                         common.QueryServerParams(1)])
                    slow.append((params, set(clients.events),
                                 asyncio.ensure_future(
                                     others.pop().query(params))))
                    await asyncio.sleep(rng.choice([0, 0.005]))
                    done['query'] += 1
                ctx.check(held.active, 'disk operation did not wait')
                new = [i for i in clients.notified['persisted']
                       if i.id not in before]
                ctx.check(not new, 'event registered while the disk waits is '
                          'reported as persisted', {'events': new[:3]})
            if rng.random() < 0.3:
                closing = asyncio.ensure_future(runner.async_close())
                await asyncio.sleep(rng.choice([0, 0.02, 0.1]))
                ctx.check(not closing.done(),
                          'closing completed while the disk waits')
                ctx.count('closed_during')
            held.check()
            ctx.count('answers_during', done['register'])
            ctx.count('notified_during', done['notified'])
            ctx.count('latest_during', done['latest'])
            ctx.count('connected_during', done['connect'])
            ctx.count('slow_queries', done['query'])
            ctx.done(('server', tuple(sorted(done.items())),
                      closing is not None) if done else None)
            held.release()
            for params, ids, i in slow:
                try:
                    result = await net.finished(
                        ctx, i, 'query after the disk waited')
                    ctx.check(
                        result.more_follows or
                        ids <= {e.id for e in result.events},
                        'query misses events that were answered before it',
                        {'params': params})
                except ConnectionError:
                    ctx.check(closing is not None, 'query failed')
            if closing:
                await net.finished(ctx, closing, 'closing', 60)
                break
            await all_notified('registered')
            await all_notified('persisted')
            ctx.count('waited')

        if closing is None:
            await all_notified('registered')
            await all_notified('persisted')
            for i in (request, registered, persisted):
                ctx.check(i.is_open, 'connection was closed')
        expected = list(clients.events.values())
        for i in (request, registered, persisted, *others, *temporary):
            await net.finished(ctx, i.async_close(), 'closing of a client')
        for i in ('registered', 'persisted'):
            check_notified(i, expected)
            if closing is not None:
                await asyncio.sleep(0)
    finally:
        held.release()
        await net.finished(ctx, runner.async_close(), 'closing of server', 60)

    d = rawdb.dump(path)
    ctx.count('reopened')
    errors = rawdb.structure(d)
    ctx.check(not errors, 'database parts disagree', errors[:5])
    stored = {i.id: i for i in d['TIMESERIES_DATA'].values()}
    missing = [i for i in clients.events.values() if stored.get(i.id) != i]
    ctx.check(not missing, 'answered events are not on disk',
              {'missing': core.short(missing)})


# parent ---------------------------------------------------------------------

runner = None


class Child(c13.Child):

    module = 'checks.c31'


def setup_worker(spec):
    global runner
    runner = Child(pathlib.Path(os.environ['VERIF_SCRATCH']))


def close_worker(spec):
    runner.close()


def run_case(ctx):
    ctx.tmp.mkdir(parents=True, exist_ok=True)
    result = runner.run({'seed': ctx.seed, 'tier': ctx.tier,
                         'case': ctx.case, 'tmp': str(ctx.tmp)})
    if isinstance(result, str):
        ctx.violation(result)
    ctx.trace.extend(result['trace'])
    ctx.counters.update(result['counters'])
    ctx.maxima.update(result['maxima'])
    ctx.evaluations += result['evaluations']
    ctx.signatures |= result['signatures']
    ctx.samples.extend(result['samples'])
    if 'violation' in result:
        ctx.violation(*result['violation'])
    if 'inconclusive' in result:
        raise core.Inconclusive(result['inconclusive'])
    if 'error' in result:
        raise Exception(result['error'])


if __name__ == '__main__':
    import logging

    from rt import worker

    # nothing else is allowed to write to standard output
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    logging.getLogger().addHandler(logging.NullHandler())
    worker.describe_closed_connections()
    child()
