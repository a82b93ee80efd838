"""C19: following of a remote server."""

import asyncio
import itertools

from hat import aio
from hat.event import common
from hat.event.server import eventer_client
import hat.event.server.eventer_server

from rt import aiorun
from rt import gen
from rt import model
from rt import net
from rt import storage

LEVEL = 'exploration'
RULE = ('a real follower client replicates a remote server (real eventer '
        'server component with real on-disk storage, or with a volatile '
        'storage of the harness that can crash) into a local storage (real '
        'or volatile), through a proxy which cuts connections at random '
        'bytes, while the remote keeps registering and flushing and both '
        'sides restart or crash. Everything given to the local storage is '
        'judged when it is given; at the end, both storages are compared. An '
        'evaluation is one connection, non-trivial if events were '
        'replicated, distinct by what was queried, notified and how the '
        'connection ended')
TIERS = {'quick': {'cases': 960, 'time': 75},
         'thorough': {'cases': 20000, 'time': 400}}
REQUIRE = {'connections': 400, 'replicated_events': 2000, 'pages': 600,
           'split_sessions': 200, 'synced': 100, 'cuts': 150,
           'notified_while_syncing': 100, 'filtered_notifications': 5,
           'remote_restarts': 60, 'local_restarts': 80,
           'local_lost_batches': 50, 'live_batches': 500,
           'equal_queries': 4, 'long': 3, 'failures': 50,
           'failures_while_syncing': 20}


class Volatile(aio.Resource):
    """Storage of the harness, which may lose what was not flushed"""

    def __init__(self, h):
        self.h = h
        self.group = aio.Group()
        self.flushed = []
        self.pending = []
        self.retain = True
        self.on_flushed = None

    @property
    def async_group(self):
        return self.group

    async def get_last_event_id(self, server_id):
        ids = [e.id for b in self.flushed + self.pending for e in b
               if e.id.server == server_id]
        return max(ids, default=common.EventId(server_id, 0, 0))

    async def register(self, events):
        self.pending.append(list(events))
        if self.h.rng.random() < 0.3:
            await aiorun.pause(self.h.rng)
        return events

    async def flush(self):
        batches, self.pending = self.pending, []
        self.flushed.extend(batches)
        if self.on_flushed:
            self.h.persisted.update(e.id for b in batches for e in b)
        for b in batches:
            await aiorun.pause(self.h.rng)
            if self.on_flushed:
                await self.on_flushed(b)

    def lose(self):
        n = len(self.pending)
        self.pending = []
        return n

    def stored(self, server_id):
        events = [e for b in self.flushed for e in b
                  if e.id.server == server_id]
        if not self.retain:
            latest = {e.type: e for e in events}
            events = [e for e in events if latest[e.type] is e]
        return sorted(events, key=lambda e: e.id)

    async def query(self, params):
        events = self.stored(params.server_id)
        if not params.persisted:
            # what is not flushed must not be followed
            events = events + [e for b in self.pending for e in b
                               if e.id.server == params.server_id]
        if self.h.rng.random() < 0.5:
            await aiorun.pause(self.h.rng)
        return common.QueryResult(*model.server(events, params, 4096))


class Pages:
    """Storage behind eventer server of remote, answering in small pages"""

    def __init__(self, h):
        self.h = h

    async def query(self, params):
        h = self.h
        if isinstance(params, common.QueryServerParams):
            n = h.page
            if n is None and h.rng.random() < 0.5:
                n = h.rng.randint(1, 5)
            if n is not None and (params.max_results is None or
                                  params.max_results > n):
                params = params._replace(max_results=n)
            if h.rng.random() < 0.3:
                await aiorun.pause(h.rng)
            if h.hold and h.rng.random() < 0.5:
                h.held = True
                await h.hold.wait()
        result = await h.remote.query(params)
        if isinstance(params, common.QueryServerParams):
            h.ctx.count('pages')
            h.ctx.log('query', params.last_event_id,
                      [tuple(e.id) for e in result.events],
                      result.more_follows)
            if result.more_follows and result.events:
                last = list(result.events)[-1].id
                if (last._replace(instance=last.instance + 1)
                        in h.known):
                    h.ctx.count('split_sessions')
            h.query_count += len(result.events)
            h.query_running = True
            if h.hold:
                h.held = True
                await h.hold.wait()
        return result


class Local:
    """Storage given to the follower"""

    def __init__(self, h, inner):
        self.h = h
        self.inner = inner
        self.last = None

    @property
    def is_open(self):
        return self.inner.is_open

    async def get_last_event_id(self, server_id):
        if self.h.fail_get:
            self.h.fail_get = False
            self.h.failed = True
            self.h.ctx.count('failures')
            self.h.ctx.log('storage fails at start')
            raise Exception('storage failed')
        return await self.inner.get_last_event_id(server_id)

    async def register(self, events):
        h = self.h
        ctx = h.ctx
        events = list(events)
        ctx.log('replicate', [tuple(e.id) for e in events])
        ctx.check(events, 'nothing is registered in local storage')
        ctx.check(not h.failed, 'follower keeps replicating after its '
                  'storage failed', [tuple(e.id) for e in events])
        if h.fail_after is not None:
            h.fail_after -= 1
            if h.fail_after < 0:
                h.fail_after = None
                h.failed = True
                ctx.count('failures')
                if h.client and h.client.synced != \
                        eventer_client.SyncedState.SYNCED:
                    ctx.count('failures_while_syncing')
                ctx.log('storage fails')
                raise Exception('storage failed')
        session = (events[0].id.server, events[0].id.session)
        for e in events:
            ctx.check(e.id.server == h.server_id,
                      'event of another server is replicated', e)
            ctx.check(e.id in h.known and h.known[e.id] == e,
                      'replicated event differs from the one of remote '
                      'server', {'replicated': e,
                                 'remote': h.known.get(e.id)})
            ctx.check(not h.strict or e.id in h.persisted,
                      'replicated event is not persisted by remote server',
                      e)
            ctx.check((e.id.server, e.id.session) == session,
                      'events of several sessions are replicated at once',
                      [tuple(e.id) for e in events])
            ctx.check(h.local_last is None or e.id > h.local_last,
                      'event is replicated again or out of order',
                      {'event': e, 'last': h.local_last})
            h.local_last = e.id
        if h.whole:
            whole = [e.id for e in h.sessions[session]]
            ctx.check([e.id for e in events] == whole,
                      'session is not replicated as a whole',
                      {'replicated': [e.id for e in events],
                       'session': whole})
        h.replicated.update((e.id, e) for e in events)
        ctx.count('replicated_events', len(events))
        h.batches += 1
        return await self.inner.register(events)


class Harness:
    pass


async def case(ctx):
    rng = ctx.rng
    h = Harness()
    h.ctx, h.rng = ctx, rng
    h.server_id = rng.choice([0, 1, 2, 7, 2 ** 33])
    h.local_id = 99
    h.known = {}          # everything registered by remote server
    h.sessions = {}
    h.persisted = set()
    h.replicated = {}
    h.local_last = None
    h.batches = 0
    h.query_count = 0
    h.query_running = False
    h.hold = None
    h.failed = False      # storage of follower failed in this connection
    h.fail_after = None
    h.fail_get = False
    h.page = rng.choice([1, 2, 3, 7, None, 4096])
    h.huge = rng.random() < 0.02
    if h.huge:
        h.page = rng.choice([500, 1000, 4096])
    lmdb = rng.random() < 0.4
    local_lmdb = lmdb and rng.random() < 0.6
    h.strict = not lmdb
    info = common.import_backend_info('hat.event.backends.lmdb')
    wide = lmdb and rng.random() < 0.5
    conf = storage.gen_conf(rng, ctx.folder('remote') / 'event.db',
                            conditions=0 if wide else 0.2,
                            flush_period=rng.choice([1000, 0.005]),
                            max_results=0)
    if wide:
        conf['latest']['subscriptions'] = [['*']]
        conf['timeseries'] = [{'order_by': 'TIMESTAMP',
                               'subscriptions': [['*']]}]
    local_conf = {**conf, 'db_path': str(ctx.folder('local') / 'event.db')}
    servers = [h.server_id]
    if rng.random() < 0.5:
        servers.append(h.local_id)
    if rng.random() < 0.5:
        servers.append(h.server_id + 1)
    source = storage.Source(rng, max_batch=rng.choice([1, 3, 6]))
    source.servers = servers
    source.sessions = {i: 0 for i in servers}
    source.clocks = {i: 1000 for i in servers}
    addr = net.free_addr()
    h.server = None
    h.remote = None
    h.notified = asyncio.Event()

    async def on_flushed(batch):
        for e in batch:
            if e.id in h.known:
                h.persisted.add(e.id)
        ctx.log('flushed', [tuple(e.id) for e in batch])
        if h.server:
            if h.client and any(e.id.server == h.server_id for e in batch):
                ctx.count('live_batches')
                if h.client.synced != eventer_client.SyncedState.SYNCED:
                    ctx.count('notified_while_syncing')
                if (h.local_last is not None and
                        h.query_running and batch[0].id <= h.local_last):
                    ctx.count('filtered_notifications')
            await h.server.notify_events(batch, True)

    async def on_registered(batch):
        if h.server:
            await h.server.notify_events(batch, False)

    async def open_remote():
        if lmdb:
            h.remote = await info.create(conf, on_registered, on_flushed)
        elif h.remote is None:
            h.remote = Volatile(h)
            h.remote.on_flushed = on_flushed
            h.remote.retain = rng.random() < 0.6
        h.server = await \
            hat.event.server.eventer_server.create_eventer_server(
                addr, Pages(h), h.server_id)

    async def close_remote(crash=False):
        if not crash:
            await h.remote.flush()
        server, h.server = h.server, None
        await server.async_close()
        # process of the server ended, so nothing is left connected to it
        await asyncio.sleep(0.002)
        proxy.cut()
        if lmdb:
            await h.remote.async_close()
        else:
            for b in h.remote.pending:
                for e in b:
                    h.known.pop(e.id, None)
                    h.sessions.pop(tuple(e.id[:2]), None)
                    # number of lost session is used again
                    source.sessions[e.id.server] = min(
                        source.sessions[e.id.server], e.id.session - 1)
            ctx.count('remote_lost_batches', h.remote.lose())

    async def open_local():
        if local_lmdb:
            inner = await info.create(local_conf, None, None)
        else:
            inner = Volatile(h)
        return Local(h, inner)

    h.client = None
    h.whole = False
    await open_remote()
    local = await open_local()
    h.whole = (h.remote.retain if not lmdb else wide)
    proxy = await net.Proxy(addr, rng).open()
    proxy.split = rng.choice([0, 0.3])
    proxy.delay = rng.choice([0, 0, 0.005])
    remote_lock = asyncio.Lock()
    stop = asyncio.Event()
    # filtered events of remote have to be whole in the queue as well
    ctx.log('server', h.server_id, 'lmdb', lmdb, 'page', h.page, 'whole',
            h.whole, 'conf', conf if lmdb else None)

    async def register():
        batch = source.batch()
        if h.huge and batch[0].id.server == h.server_id:
            h.huge = False
            ctx.count('huge_sessions')
            e = batch[0]
            batch = [common.Event(e.id._replace(instance=i),
                                  ('huge', str(i)), e.timestamp, None, None)
                     for i in range(1, rng.choice([2500, 4096, 6000]))]
        if batch[0].id.server == h.server_id:
            ctx.log('remote register', [tuple(e.id) for e in batch])
            for e in batch:
                h.known[e.id] = e
            h.sessions[tuple(batch[0].id[:2])] = batch
        await h.remote.register(batch)

    async def writer():
        for _ in range(rng.randint(5, 40)):
            await aiorun.pause(rng)
            async with remote_lock:
                k = rng.random()
                if k < 0.75:
                    await register()
                elif k < 0.97:
                    await h.remote.flush()
                else:
                    ctx.count('remote_restarts')
                    ctx.log('remote restart')
                    await close_remote(rng.random() < 0.5)
                    await open_remote()

    async def connection(last=False):
        nonlocal local
        states = []
        start = h.batches
        queried = h.query_count
        h.query_running = False

        slow_cb = rng.random() < 0.4

        async def synced_cb(state, count):
            states.append((state.name, count))
            if slow_cb:
                await aiorun.pause(rng)
                if rng.random() < 0.5:
                    await asyncio.sleep(rng.random() * 0.02)

        h.failed = False
        h.fail_after, h.fail_get = None, False
        k = rng.random()
        if not last and k < 0.2:
            h.fail_after = rng.choice([0, 0, 1, 2, 5])
        elif not last and k < 0.23:
            h.fail_get = True
        if last:
            proxy.limits.clear()
        elif rng.random() < 0.5:
            proxy.limits[rng.choice(['up', 'down', 'down'])] = rng.randint(
                1, rng.choice([300, 3000, 20000]))
        try:
            client = await eventer_client.create_eventer_client(
                proxy.addr, 'follower', h.local_id, h.server_id, local,
                synced_cb=synced_cb)
        except ConnectionError:
            ctx.check(not last or h.server is None, 'connecting failed')
            await asyncio.sleep(0.001)
            return None
        h.client = client
        ctx.count('connections')
        ctx.log('connected')
        if last:
            return client, states, queried
        await asyncio.wait([asyncio.ensure_future(client.wait_closing())],
                           timeout=rng.random() * rng.choice([0.003, 0.05]))
        if h.failed:
            # connection which is not followed any more is not kept
            await net.until(ctx, lambda: not client.is_open, 'closing of '
                            'connection after storage of follower failed')
        end = ('failed' if h.failed else
               'cut' if not client.is_open else 'close')
        if rng.random() < 0.4:
            proxy.cut(rng.random() < 0.5)
            end = end if h.failed else 'cut'
            await asyncio.sleep(0)
        h.client = None
        await net.finished(ctx, client.async_close(), 'closing of follower')
        ctx.count('cuts', end == 'cut')
        ctx.log('disconnected', end, states)
        judge_states(ctx, states)
        ctx.done((end, states, h.batches - start, h.query_count - queried)
                 if h.batches > start else None,
                 (end, states, 'batches', h.batches - start))
        if rng.random() < 0.25:
            ctx.count('local_restarts')
            if local_lmdb:
                await local.inner.async_close()
                local = await open_local()
            else:
                if rng.random() < 0.5:
                    await local.inner.flush()
                lost = local.inner.pending
                for b in lost:
                    for e in b:
                        h.replicated.pop(e.id, None)
                ctx.count('local_lost_batches', len(lost))
                local.inner.lose()
                ids = [e.id for b in local.inner.flushed for e in b]
                h.local_last = max(ids, default=None)
            ctx.log('local restart', h.local_last)
        elif rng.random() < 0.3:
            await local.inner.flush()

    async def take_long(client):
        """Answer of remote server takes really long"""
        for _ in range(1000):
            if h.held:
                break
            await asyncio.sleep(0.001)
        if h.held:
            for _ in range(rng.randint(0, 3)):
                await register()
                await h.remote.flush()
            await aiorun.warp(rng.choice([20, 100, 400, 1000]))
            ctx.check(client.is_open, 'connection is closed while '
                      'synchronization takes long')
            ctx.check(client.synced != eventer_client.SyncedState.SYNCED,
                      'synchronized without an answer')
            ctx.count('long')
        h.hold.set()
        h.hold = None

    writing = asyncio.ensure_future(writer())
    client = None
    try:
        for _ in range(rng.randint(1, 8)):
            await aiorun.pause(rng)
            await connection()
        await net.finished(ctx, writing, 'registering', 60)

        # final connection sees everything
        h.hold = asyncio.Event() if rng.random() < 0.03 else None
        h.held = False
        result = await connection(True)
        ctx.check(result is not None, 'connecting failed')
        client, states, queried = result
        if h.hold:
            await take_long(client)
        await net.until(ctx, lambda: not client.is_open or client.synced ==
                        eventer_client.SyncedState.SYNCED, 'synchronization',
                        witness=lambda: {'states': states})
        ctx.check(client.is_open, 'connection of follower was closed',
                  states)
        for _ in range(rng.randint(0, 5)):
            await register()
        await h.remote.flush()
        result = await h.remote.query(common.QueryServerParams(
            h.server_id, persisted=True))
        stored = list(result.events)
        await net.until(
            ctx, lambda: all(e.id in h.replicated for e in stored),
            'replication of all events', 30,
            lambda: {'missing': [e for e in stored
                                 if e.id not in h.replicated],
                     'states': states})
        ctx.count('synced')
        judge_states(ctx, states, True)
        if local_lmdb:
            await local.inner.flush()
        if local_lmdb and servers == [h.server_id]:
            for persisted in (False, True):
                result = await local.inner.query(common.QueryServerParams(
                    h.server_id, persisted=persisted))
                ctx.check(list(result.events) == stored,
                          'storages of remote server and its follower '
                          'answer differently',
                          lambda: {'remote': [e.id for e in stored],
                                   'local': [e.id for e in result.events],
                                   'conf': conf})
            ctx.count('equal_queries')
        elif not local_lmdb:
            kept = {e.id: e for b in local.inner.flushed + local.inner.pending
                    for e in b}
            for e in stored:
                ctx.check(kept.get(e.id) == e, 'stored event of remote '
                          'server is missing in local storage', e)
        ctx.check(client.is_open, 'connection of follower was closed')
    finally:
        writing.cancel()
        await asyncio.gather(writing, return_exceptions=True)
        if h.hold:
            h.hold.set()
        if client:
            await client.async_close()
        await proxy.close()
        if h.server:
            await h.server.async_close()
        if lmdb:
            await h.remote.async_close()
        if local_lmdb:
            await local.inner.async_close()


def judge_states(ctx, states, complete=False):
    names = [i for i, _ in states]
    ok = [['CONNECTED', 'SYNCING', 'SYNCED'], ['CONNECTED', 'SYNCED']]
    ctx.check(names in ok if complete else
              any(names == i[:len(names)] for i in ok),
              'reported states of synchronization', states)
    for name, count in states:
        if name != 'SYNCED':
            ctx.check(count is None, 'count of synchronization state',
                      states)
        else:
            ctx.check((count > 0) == ('SYNCING' in names),
                      'count of synchronized events', states)


def run_case(ctx):
    aiorun.run(ctx, case)
