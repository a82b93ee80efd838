"""C20: engine lifecycle, statuses and synchronization reports of servers."""

import asyncio
import collections
import contextvars
import itertools

from hat import aio
from hat.event import common
from hat.event import eventer
from hat.monitor.common import BlessingReq, BlessingRes, ComponentInfo
import hat.event.server.engine_runner
import hat.event.server.eventer_client_runner
import hat.event.server.eventer_server
import hat.event.server.main_runner
import hat.monitor.observer.client

from rt import aiorun
from rt import engmod
from rt import monitor
from rt import net
from rt import srvbackend

LEVEL = 'exploration'
RULE = ('one to three complete servers (main runners with real storages, '
        'eventer servers, engines and a module of the harness) run in one '
        'process, connected to a monitor played by the harness, which '
        'blesses, revokes, blesses several at once, and announces servers '
        'through proxies that cut connections, together with servers which '
        'must not be followed. Engines restart, ask for reset of readiness '
        'and end, servers stop and start again. Every status change, '
        'session, flush and synchronization report is recorded and judged. '
        'An evaluation is one life of an engine or one connection of a '
        'follower, non-trivial if it reached OPERATIONAL (or SYNCED), '
        'distinct by server, sequence of statuses and reported states')
TIERS = {'quick': {'cases': 216, 'time': 75},
         'thorough': {'cases': 6000, 'time': 500}}
REQUIRE = {'notified_till_end': 60, 'operational': 300, 'standby': 300, 'settled': 200,
           'synced_reports': 150, 'repeated_reports': 20, 'own_reports': 60,
           'engine_restarts': 30, 'readiness_resets': 15,
           'blocked_starts': 20, 'unblocked_starts': 10, 'cuts': 50,
           'server_restarts': 20, 'refused': 50, 'accepted': 50,
           'equal_storages': 60, 'decoys': 40, 'slow_starts': 8,
           'slow_stops': 8, 'unreachable': 5, 'long': 8,
           'syncing': 8, 'stalled_resets': 3,
           'restarts_while_waiting': 20, 'moves': 10, 'withdrawn': 5,
           'restarts_in_creation': 20, 'followed': 300}

Status = common.Status

NEXT = {Status.STANDBY: {Status.STARTING, Status.STOPPING},
        Status.STARTING: {Status.OPERATIONAL, Status.STOPPING},
        Status.OPERATIONAL: {Status.STOPPING},
        Status.STOPPING: {Status.STANDBY}}


class ModuleSpec:
    """Behaviour of the module of a server"""

    sync = False
    subscriptions = [('*', )]

    def __init__(self, server):
        self.server = server

    async def created(self, module):
        s = self.server
        s.ctx.log(s.name, 'engine created')
        s.ctx.check(not s.must_not_start,
                    'engine is started though server is not blessed',
                    {'server': s.name})
        if s.slow_create:
            await s.slow_create.wait()
        s.module = module
        s.generation += 1
        s.runs[s.generation] = s.run
        module.async_group.spawn(aio.call_on_cancel, lambda: None)
        if s.restart_create:
            # while the engine is being created
            s.restart_create = False
            s.ctx.log(s.name, 'restart of engine in creation')
            s.ctx.count('restarts_in_creation')
            s.restarting.append(module)
            module.engine.restart()
        if s.fail_create:
            s.fail_create = False
            module.close()
            raise Exception('create failed')

    async def call(self, module, kind, data):
        if kind != 'process':
            if self.server.rng.random() < 0.1:
                await aiorun.pause(self.server.rng)
            return
        s = self.server
        source, event = data
        s.processed.append((s.generation, source, event))
        cmd = event.type[1] if event.type[:1] == ('cmd', ) else None
        if cmd == 'restart':
            module.engine.restart()
        elif cmd == 'reset':
            module.engine.reset_monitor_ready()
        elif cmd == 'close':
            module.close()
        if event.type[:1] == ('load', ) and s.rng.random() < 0.2:
            return [common.RegisterEvent(('reaction', ), None, None)]


class Monitor:
    """Monitor of the harness"""

    def __init__(self, h):
        self.h = h
        self.tokens = itertools.count(1)
        self.decoys = []
        self.stalled = False
        self.unaware = ()       # servers which are told of changes later

    def changed(self):
        if self.stalled:
            return
        for server in self.h.servers:
            if server in self.unaware:
                continue
            client = server.monitor_client
            if client and client.is_open:
                client.queue.put_nowait(self.state(server))

    def state(self, server):
        infos = []
        own = None
        for s in self.h.servers:
            c = s.monitor_client
            if not c or not c.is_open or (s.hidden and s is not server):
                continue
            data = c.data
            if s is not server:
                data = {**data, 'eventer_server': {
                    'host': s.proxy.addr.host, 'port': s.proxy.addr.port}}
            info = ComponentInfo(cid=s.index, mid=0, name=c.name,
                                 group=c.group, data=data, rank=1,
                                 blessing_req=c.req, blessing_res=c.res)
            infos.append(info)
            if s is server:
                own = info
        infos = infos + self.decoys
        self.h.rng.shuffle(infos)
        return hat.monitor.observer.client.State(own, infos)

    def bless(self, server):
        c = server.monitor_client
        if c:
            server.ctx.log(server.name, 'bless')
            server.must_not_start = False
            c.req = BlessingReq(next(self.tokens), 1.0)
            self.changed()

    def revoke(self, server):
        c = server.monitor_client
        if c and c.req.token is not None:
            server.ctx.log(server.name, 'revoke')
            c.req = BlessingReq(None, None)
            self.changed()


class Server:

    def __init__(self, h, index, lmdb):
        self.h = h
        self.ctx = h.ctx
        self.rng = h.ctx.rng
        self.index = index
        self.id = h.ids[index]
        self.name = f's{index}'
        self.lmdb = lmdb
        self.runner = None
        self.monitor_client = None
        self.hidden = False
        self.proxy = None
        self.addr = None
        self.module = None
        self.fail_create = False
        self.restart_create = False
        self.restarting = []    # modules of engines which have to restart
        self.slow_create = None     # event waited for by created module
        self.slow_flush = None      # event waited for by flush of storage
        self.slow_following = None  # waited for by storing of remote events
        self.processed = []
        self.generation = 0
        self.run = 0
        self.runs = {}
        self.floor = 0              # connections up to it were cut
        self.backend = None
        self.watcher = None
        self.watching = None
        self.eventer_server = None
        self.statuses = [Status.STANDBY]
        self.followed = []          # connections to other servers
        self.must_not_start = False
        self.blocked_by = set()     # settled active remote servers
        self.key = f'{id(self)}'
        self.spec = ModuleSpec(self)
        engmod.SPECS[self.key] = self.spec
        srvbackend.SERVERS[self.key] = self
        self.given = []             # batches given to storage
        self.registered = {}        # accepted events
        self.flushed = {}
        self.path = h.ctx.folder('db') / 'event.db'

    # storage

    def on_register(self, events):
        self.given.append(events)
        own = [e for e in events if e.id.server == self.id]
        self.ctx.check(not own or len(own) == len(events),
                       'events of several servers are registered at once',
                       events)
        if own:
            self.ctx.check(self.status != Status.STANDBY,
                           'engine registers events in STANDBY', events)
            self.last_own = events

    def on_registered(self, events):
        self.registered.update((e.id, e) for e in events)

    def on_flushed(self, events):
        self.flushed.update((e.id, e) for e in events)

    # statuses

    @property
    def status(self):
        return self.statuses[-1]

    def on_status(self, status, engine):
        ctx = self.ctx
        if status == self.status:
            return
        ctx.log(self.name, status.name)
        ctx.check(status in NEXT[self.status], 'status does not follow '
                  'previous one', {'server': self.name,
                                   'statuses': self.statuses[-6:],
                                   'status': status})
        if status == Status.STARTING:
            ctx.check(not self.must_not_start,
                      'engine is started though server is not blessed',
                      {'server': self.name})
            ctx.check(not self.blocked_by, 'engine is started while '
                      'connected remote server is active',
                      {'server': self.name,
                       'active': [i.name for i in self.blocked_by]})
            active = [(addr, client.status.name)
                      for addr, client in self.followed
                      if client.is_open and client.status != Status.STANDBY]
            ctx.check(not active, 'engine is started while status of a '
                      'connected remote server is not STANDBY',
                      {'server': self.name, 'active': active})
            ctx.count('followed', sum(client.is_open
                                      for _, client in self.followed))
            self.starting_at = len(self.given)
            self.life = [status]
        elif status == Status.OPERATIONAL:
            ctx.count('operational')
            ctx.check(engine is not None and engine.server_id == self.id,
                      'engine of operational status', engine)
            self.life.append(status)
        elif status == Status.STANDBY:
            ctx.count('standby')
            own = [e.id for b in self.given for e in b
                   if e.id.server == self.id]
            missing = [i for i in own if i not in self.flushed]
            ctx.check(not missing, 'server is in STANDBY before all events '
                      'of its engine are persisted',
                      {'server': self.name, 'missing': missing[:10]})
            if own:
                e = self.last_own[-1]
                ctx.check(len(self.last_own) == 1 and
                          e.type == ('event', str(self.id), 'engine') and
                          e.payload == common.EventPayloadJson('STOPPED'),
                          'last session of the engine is not STOPPED when '
                          'server is in STANDBY', self.last_own)
            if self.module and not self.module.engine.is_closed:
                ctx.violation('engine is not closed in STANDBY', self.name)
            if getattr(self, 'life', None):
                ctx.done((self.index, len(self.h.servers), len(self.life),
                          len(self.given) - self.starting_at)
                         if len(self.life) > 1 else None,
                         ('life', self.name, [i.name for i in self.life],
                          'sessions', len(self.given) - self.starting_at))
            self.life = []
            for s in self.h.servers:
                s.blocked_by.discard(self)
        self.statuses.append(status)

    def unblock(self):
        """Links from and to this server are not certain any more"""
        self.blocked_by.clear()
        for s in self.h.servers:
            s.blocked_by.discard(self)

    # lifetime

    async def start(self):
        if self.proxy is None:
            self.addr = net.free_addr()
            self.proxy = await net.Proxy(self.addr, self.rng).open()
            self.proxy.split = self.rng.choice([0, 0.2])
            self.proxy.delay = self.rng.choice([0, 0, 0.005])
        if self.lmdb:
            inner = {'module': 'hat.event.backends.lmdb',
                     'db_path': str(self.path), 'identifier': None,
                     'flush_period': self.rng.choice([0.005, 0.02, 1000]),
                     'cleanup_period': 1000, 'conditions': [],
                     'latest': {'subscriptions': [['*']]},
                     'timeseries': [{'order_by': 'TIMESTAMP',
                                     'subscriptions': [['*']]}]}
        else:
            inner = {'module': 'hat.event.backends.memory'}
        conf = {'name': self.name, 'server_id': self.id,
                'backend': {'module': 'rt.srvbackend', 'key': self.key,
                            'inner': inner},
                'modules': [{'module': 'rt.engmod', 'key': self.key}],
                'eventer_server': {'host': self.addr.host,
                                   'port': self.addr.port}}
        if self.h.token:
            conf['server_token'] = self.h.token
        if self.h.monitored:
            conf['monitor_component'] = {'host': '127.0.0.1',
                                         'port': self.index,
                                         'group': 'event'}
        self.statuses = [Status.STANDBY]
        self.must_not_start = self.h.monitored
        self.run += 1
        self.followed = []
        self.floor = 0
        self.monitor_client = None
        self.eventer_server = None
        context = contextvars.copy_context()
        context.run(_server.set, self)
        self.runner = context.run(
            hat.event.server.main_runner.MainRunner, conf,
            reset_monitor_ready_timeout=5)
        if self.rng.random() < 0.4:
            self.watching = asyncio.ensure_future(self.watch())
        if self.h.monitored:
            await net.until(self.ctx, lambda: self.monitor_client and
                            self.monitor_client.is_open and
                            self.monitor_client.res.ready,
                            'readiness of started server',
                            witness=lambda: {'open': self.runner.is_open})

    async def watch(self):
        """Client notified of persisted events while the server lives"""
        runner = self.runner
        while runner.is_open:
            notified = []
            try:
                client = await eventer.connect(
                    self.addr, f'watcher {self.index}',
                    subscriptions=[('*', )], persisted=True,
                    events_cb=lambda _, events: notified.extend(events))
            except (eventer.EventerInitError, ConnectionError):
                await asyncio.sleep(0.005)
                continue
            self.watcher = (client, set(self.flushed), notified)
            try:
                await client.wait_closed()
            finally:
                await aio.uncancellable(client.async_close())

    async def judge_watcher(self, watcher):
        """Persisted events before the connection of stopped server is lost"""
        client, before, notified = watcher
        await net.finished(self.ctx, client.wait_closed(),
                           'closing of connection of stopped server')
        missing = [i for i in self.flushed if i not in before and
                   i not in {e.id for e in notified}]
        self.ctx.check(not missing, 'client is not notified of all persisted '
                       'events when server is closed',
                       {'server': self.name, 'missing': missing[:10],
                        'notified': len(notified)})
        self.ctx.count('notified_till_end')
        self.ctx.count('notified', len(notified))

    async def stop(self, close=True):
        self.ctx.log(self.name, 'stop')
        self.unblock()
        watcher = self.watcher
        if not (close and watcher and watcher[0].is_open):
            watcher = None
        if close:
            self.runner.close()
        await net.finished(self.ctx, self.runner.wait_closed(),
                           'stopping of a server',
                           witness=lambda: {'server': self.name})
        if watcher:
            await self.judge_watcher(watcher)
        if self.watching:
            self.watching.cancel()
        self.watching = self.watcher = None
        # process of the server ended, so nothing is connected to it
        self.proxy.cut()
        await asyncio.sleep(0.002)
        self.proxy.cut()
        self.monitor_client = None
        self.ctx.check(self.status == Status.STANDBY,
                       'status of stopped server', self.status)
        missing = [i for i in self.registered if i not in self.flushed]
        self.ctx.check(not missing, 'events are not persisted when server '
                       'stops', missing[:10])
        self.h.monitor.changed()

    async def register(self, types):
        """Registration of a short-lived client"""
        client = await self.connect(f'client {self.index}')
        try:
            return await net.finished(self.ctx, client.register(
                [common.RegisterEvent(t, None, None) for t in types], True),
                'registration')
        except ConnectionError:
            # engine is closing
            return None
        finally:
            await client.async_close()

    async def connect(self, name):
        loop = asyncio.get_running_loop()
        end = loop.time() + 30
        while True:
            try:
                return await eventer.connect(self.addr, name)
            except (eventer.EventerInitError, ConnectionError) as e:
                # engine is closing
                if loop.time() > end:
                    self.ctx.violation('client can not connect', repr(e))
                await asyncio.sleep(0.001)

    async def cut(self):
        # identifiers of connections increase
        client = await self.connect('probe')
        try:
            self.floor = max(
                source.id for source, name in
                self.eventer_server.get_client_names())
            self.ctx.count('cuts')
            self.ctx.log(self.name, 'cut')
            for i in self.h.servers:
                i.blocked_by.discard(self)
            self.proxy.cut(self.rng.random() < 0.5)
        finally:
            await client.async_close()


_server = contextvars.ContextVar('server', default=None)


class Harness:
    pass


_harness = None


def setup_worker(spec):
    cls = hat.event.server.eventer_server.EventerServer
    set_status = cls.set_status

    async def wrapped(self, status, engine):
        server = _server.get()
        if server:
            server.eventer_server = self
            server.on_status(status, engine)
        return await set_status(self, status, engine)

    cls.set_status = wrapped

    eventer_connect = eventer.connect

    async def wrapped_connect(addr, *args, **kwargs):
        client = await eventer_connect(addr, *args, **kwargs)
        server = _server.get()
        if server:
            server.followed = [i for i in server.followed if i[1].is_open]
            server.followed.append((addr, client))
        return client

    eventer.connect = wrapped_connect

    async def connect(addr, name, group, *, data=None, state_cb=None,
                      close_req_cb=None, **kwargs):
        h = _harness
        server = _server.get()
        server.ctx.check(name == server.name and
                         addr.port == server.index and group == 'event' and
                         data['server_id'] == server.id and
                         data['eventer_server']['port'] ==
                         server.addr.port and
                         data.get('server_token') == h.token,
                         'what server tells the monitor', (addr, group, data))
        server.monitor_client = monitor.FakeClient(
            server, name, group, data, state_cb, close_req_cb,
            h.monitor.changed)
        h.monitor.changed()
        return server.monitor_client

    hat.monitor.observer.client.connect = connect

    cls2 = hat.event.server.eventer_client_runner.EventerClientRunner
    init = cls2.__init__

    def wrapped_init(self, *args, **kwargs):
        kwargs.setdefault('reconnect_delay', 0.02)
        init(self, *args, **kwargs)

    cls2.__init__ = wrapped_init


async def decoy(h, infos, **changes):
    """Announced server which must not be followed"""
    async def on_connection(reader, writer):
        h.decoy_connections.append(changes)
        writer.close()

    addr = net.free_addr()
    server = await asyncio.start_server(on_connection, addr.host, addr.port)
    data = {'server_id': 1000 + len(infos),
            'eventer_server': {'host': addr.host, 'port': addr.port},
            'server_token': h.token}
    data.update(changes.get('data', {}))
    for k, v in changes.get('addr', {}).items():
        data['eventer_server'][k] = (str(addr.port) if v == 'str' else
                                     [addr.host] if v == 'list' else v)
    for k in changes.get('remove', []):
        del data[k]
    infos.append(ComponentInfo(
        cid=100 + len(infos), mid=0, name='decoy',
        group=changes.get('group', 'event'), data=changes.get('all', data),
        rank=1, blessing_req=BlessingReq(None, None),
        blessing_res=BlessingRes(None, False)))
    h.ctx.count('decoys')
    return server


async def case(ctx):
    global _harness

    rng = ctx.rng
    h = _harness = Harness()
    h.ctx, h.rng = ctx, rng
    h.monitored = rng.random() < 0.93
    n = rng.choice([1, 2, 2, 2, 3]) if h.monitored else 1
    h.ids = rng.sample([1, 2, 3, 4, 2 ** 35], n)
    h.token = rng.choice([None, 'token'])
    h.monitor = Monitor(h)
    h.decoy_connections = []
    lmdb = rng.random() < 0.75
    h.servers = []
    for i in range(n):
        h.servers.append(Server(h, i, lmdb))
    decoys = []
    options = [{'group': 'other'}, {'remove': ['server_id']},
               {'data': {'server_id': 'x'}}, {'all': None}, {'all': [1]},
               {'data': {'eventer_server': None}},
               {'data': {'server_id': None}}, {'data': {'server_id': [1]}},
               *({'addr': i} for i in [
                   {'port': 'str'}, {'port': None}, {'port': []},
                   {'host': None}, {'host': 'list'}, {'host': 5},
                   {'host': {}}])]
    if h.token:
        options += [{'data': {'server_token': 'wrong'}},
                    {'data': {'server_token': None}},
                    {'remove': ['server_token']}]
    else:
        options += [{'data': {'server_token': i}} for i in [5, [], {'a': 1}]]
    for changes in rng.sample(options, rng.randint(0, 3)):
        decoys.append(await decoy(h, h.monitor.decoys, **changes))

    loads = []
    try:
        for s in h.servers:
            await s.start()
            if rng.random() < 0.3:
                await aiorun.pause(rng)
        stop_load = asyncio.Event()
        for s in h.servers:
            if rng.random() < 0.6:
                loads.append(asyncio.ensure_future(load(h, s, stop_load)))

        for _ in range(rng.randint(2, 7)):
            for _ in range(rng.randint(1, 4)):
                await step(h)
                await aiorun.pause(rng)
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random() * 0.05)
            await settle(h)
        stop_load.set()
        await asyncio.gather(*loads)
        await settle(h)
        await compare(h)
        judge_reports(h)
        ctx.check(not h.decoy_connections, 'server connects to something '
                  'that must not be followed', h.decoy_connections)
        for s in h.servers:
            await s.stop()
    finally:
        for i in loads:
            i.cancel()
        await asyncio.gather(*loads, return_exceptions=True)
        for s in h.servers:
            if s.watching:
                s.watching.cancel()
            if s.runner:
                s.runner.close()
        for s in h.servers:
            if s.runner:
                await s.runner.async_close()
            if s.proxy:
                await s.proxy.close()
            engmod.SPECS.pop(s.key, None)
            srvbackend.SERVERS.pop(s.key, None)
        for i in decoys:
            i.close()
        _harness = None


async def load(h, s, stop):
    """Client which keeps registering"""
    client = None
    i = 0
    try:
        while not stop.is_set():
            try:
                if client is None or not client.is_open:
                    client = await asyncio.wait_for(
                        eventer.connect(s.addr, f'load {s.index}'), 30)
                i += 1
                await asyncio.wait_for(client.register(
                    [common.RegisterEvent(('load', str(i)), None, None)],
                    h.rng.random() < 0.5), 30)
            except (eventer.EventerInitError, ConnectionError):
                client = None
                await asyncio.sleep(0.005)
            except asyncio.TimeoutError:
                h.ctx.violation('registration was not answered')
            await asyncio.sleep(h.rng.random() * 0.01)
    finally:
        if client:
            await client.async_close()


async def step(h):
    rng, ctx = h.rng, h.ctx
    s = rng.choice(h.servers)
    k = rng.random()
    if not h.monitored:
        s.restart_create = rng.random() < 0.2
        if s.status == Status.OPERATIONAL and k < 0.6:
            await restart(h, s)
        return
    if rng.random() < 0.1:
        s.restart_create = True
    if k < 0.28:
        h.monitor.bless(s)
        if rng.random() < 0.75:
            for i in h.servers:
                if i is not s:
                    h.monitor.revoke(i)
    elif k < 0.42:
        h.monitor.revoke(s)
    elif k < 0.62:
        if s.eventer_server:
            await s.cut()
    elif k < 0.72:
        if s.status == Status.OPERATIONAL:
            await restart(h, s)
    elif k < 0.79:
        if s.status == Status.OPERATIONAL:
            await reset(h, s)
    elif k < 0.84:
        s.hidden = not s.hidden
        h.monitor.changed()
    elif k < 0.92 and s.lmdb:
        ctx.count('server_restarts')
        if len(h.servers) > 1 and not s.hidden and rng.random() < 0.4:
            await move(h, s)
            return
        await s.stop()
        if rng.random() < 0.5:
            await aiorun.pause(rng)
        await s.start()
    elif k < 0.95 and s.lmdb:
        # engine that ends by itself ends the server
        if s.status == Status.OPERATIONAL:
            ctx.count('ended_engines')
            ctx.log(s.name, 'module closes')
            s.unblock()
            module = s.module
            result = await s.register([('cmd', 'close')])
            if result is None and module.is_open:
                return
            await net.until(ctx, lambda: module.engine.is_closed,
                            'closing of engine with closed module')
            await net.until(ctx, lambda: s.status != Status.OPERATIONAL or
                            s.module is not module,
                            'status after engine is closed')
            await quiet()
            await net.until(ctx, lambda: s.status != Status.STOPPING or
                            s.module is not module,
                            'status after engine is closed')
            await quiet()
            # blessing can be lost at the same time
            if not s.runner.is_open:
                ctx.count('ended_servers')
                await s.stop(False)
                await s.start()
    elif k < 0.975 and s.lmdb:
        ctx.count('close_requests')
        ctx.log(s.name, 'close request')
        s.unblock()
        s.monitor_client.queue.put_nowait('close')
        await s.stop(False)
        await s.start()
    elif s.lmdb:
        # connection to the monitor is lost
        ctx.count('lost_monitors')
        ctx.log(s.name, 'lost monitor')
        s.unblock()
        s.monitor_client.close()
        await s.stop(False)
        await s.start()


async def restart(h, s):
    """Module asks for restart of engine"""
    h.ctx.count('engine_restarts')
    h.ctx.log(s.name, 'engine restart')
    module = s.module
    if await s.register([('cmd', 'restart')]) is not None:
        await net.until(h.ctx, lambda: s.module is not module or
                        not module.is_open, 'restart of engine',
                        witness=lambda: (s.name, s.statuses[-5:]))


async def move(h, s):
    """Server starts at another address, and others learn of it at once"""
    rng, ctx = h.rng, h.ctx
    ctx.log(s.name, 'move')
    others = [i for i in h.servers if i is not s]
    h.monitor.unaware = others
    try:
        await s.stop()
        await s.proxy.close()
        s.proxy = None
        if rng.random() < 0.5:
            await aiorun.pause(rng)
        await s.start()
    finally:
        h.monitor.unaware = ()
    h.monitor.changed()
    for i in others:
        await net.until(
            ctx, lambda: any(c.is_open and addr == s.proxy.addr
                             for addr, c in i.followed),
            'connecting to moved server', 30,
            lambda: {'server': s.name, 'follower': i.name,
                     'connections': [(addr, c.is_open)
                                     for addr, c in i.followed]})
    ctx.count('moves')


async def quiet():
    """Give everything that can be done at once time to be done"""
    await asyncio.sleep(0.03)
    for _ in range(100):
        await asyncio.sleep(0)


async def reset(h, s):
    """Engine asks for reset of readiness"""
    rng, ctx = h.rng, h.ctx
    c = s.monitor_client
    ctx.log(s.name, 'reset')
    before = len(c.readiness)
    stalled = rng.random() < 0.25
    h.monitor.stalled = stalled
    try:
        result = await s.register([('cmd', 'reset')])
        if result is None:
            return
        if stalled:
            await net.until(ctx, lambda: len(c.readiness) > before,
                            'start of reset of readiness')
            await quiet()
            await aiorun.warp(rng.choice([30.1, 40, 100]))
            await net.until(ctx, lambda: c.readiness[-1], 'end of reset of '
                            'readiness which monitor does not notice')
            ctx.count('stalled_resets')
    finally:
        h.monitor.stalled = False
        if stalled:
            h.monitor.changed()
    await net.until(ctx, lambda: len(c.readiness) > before and
                    c.readiness[-1], 'reset of readiness',
                    witness=lambda: {'res': c.res, 'req': c.req,
                                     'readiness': c.readiness})
    ctx.count('readiness_resets')


def link(h, s, r):
    """Reports of follower s seen by the current engine of r"""
    t = ('event', str(s.id), 'synced', str(r.id))
    return [(source, e) for g, source, e in r.processed
            if e.type == t and g == r.generation and source.id > r.floor]


def restarting(h):
    return [s.name for s in h.servers for i in s.restarting if i.is_open]


async def settle(h):
    """Wait for what has to come and judge it"""
    rng, ctx = h.rng, h.ctx
    if not h.monitored:
        s = h.servers[0]
        await net.until(ctx, lambda: s.status == Status.OPERATIONAL and
                        not restarting(h), 'starting of engine')
        s.restart_create = False
        ctx.check(s.runner.is_open, 'server without monitor closed')
        ctx.count('settled')
        return

    for s in h.servers:
        s.hidden = False
    blessed = [s for s in h.servers
               if s.monitor_client.req.token is not None]
    k = rng.random()
    keep = rng.choice(blessed) if blessed else None
    for s in blessed:
        if s is not keep:
            h.monitor.revoke(s)
    if keep is None and k < 0.8:
        keep = rng.choice(h.servers)
        h.monitor.bless(keep)
    h.monitor.changed()
    ctx.log('settle', keep.name if keep else None)

    def witness():
        return {'expected operational': keep and keep.name,
                'statuses': {s.name: [i.name for i in s.statuses[-5:]]
                             for s in h.servers},
                'blessings': {s.name: (s.monitor_client.req,
                                       s.monitor_client.res)
                              for s in h.servers if s.monitor_client},
                'restarting': restarting(h),
                'open': {s.name: s.runner.is_open for s in h.servers}}

    await net.until(ctx, lambda: all(
        s.status == (Status.OPERATIONAL if s is keep else Status.STANDBY)
        for s in h.servers) and not restarting(h) and (
            keep is None or keep.monitor_client.res.token ==
            keep.monitor_client.req.token),
        'expected status of all servers', 30, witness)
    for s in h.servers:
        s.restart_create = False
        ctx.check(s.runner.is_open, 'server closed by itself',
                  {'server': s.name})
    ctx.count('settled')

    # revoked blessing is surely known after some time in which nothing
    # happens
    await quiet()
    for s in h.servers:
        c = s.monitor_client
        s.must_not_start = (s is not keep and c.req.token is None and
                            c.state.info is not None and
                            c.state.info.blessing_req.token is None and
                            c.queue.empty())

    # what is registered
    s = rng.choice(h.servers)
    result = await s.register([('settled', )])
    end = asyncio.get_running_loop().time() + 30
    while (s is keep and result is None and
            asyncio.get_running_loop().time() < end):
        # engine which was asked to restart before
        await asyncio.sleep(0.005)
        result = await s.register([('settled', )])
    if s is keep:
        ctx.check(result is not None, 'operational server refuses events')
        ctx.count('accepted')
    else:
        ctx.check(result is None, 'server in standby accepts events')
        ctx.count('refused')

    if not keep:
        return

    # followers of operational server report synchronization
    for s in h.servers:
        if s is keep:
            continue
        await net.until(
            ctx, lambda: any(e.payload.data['state'] == 'SYNCED'
                             for _, e in link(h, s, keep)[-1:]),
            'report of synchronization', 30,
            lambda: {**witness(), 'follower': s.name, 'reports': [
                (i, e.payload) for i, e in link(h, s, keep)]})

    if rng.random() < 0.45 and len(h.servers) > 1:
        await double(h, keep)
    elif rng.random() < 0.5 and len(h.servers) > 1:
        await slow(h, keep)
    elif rng.random() < 0.5 and len(h.servers) > 1:
        await syncing(h, keep)


async def double(h, active):
    """Another server is blessed while connected to an active one"""
    rng, ctx = h.rng, h.ctx
    s = rng.choice([i for i in h.servers if i is not active])
    # connection was not lost since it was reported
    await asyncio.sleep(0.02)
    if (active.status != Status.OPERATIONAL or
            not link(h, s, active) or
            link(h, s, active)[-1][1].payload.data['state'] != 'SYNCED'):
        return
    s.blocked_by.add(active)
    ctx.count('blocked_starts')
    h.monitor.bless(s)
    await asyncio.sleep(0.02 + rng.random() * 0.05)
    await long(h, active)
    ctx.check(not s.blocked_by or s.status == Status.STANDBY,
              'server starts while another one is active', s.name)
    if rng.random() < 0.4:
        # another one may or may not notice the moment between engines
        for _ in range(rng.randint(1, 3)):
            count = len(active.statuses)
            ctx.log('restart', active.name, 'while', s.name, 'waits')
            active.module.engine.restart()
            await net.until(
                ctx, lambda: len(active.statuses) > count + 1 and
                Status.OPERATIONAL in (active.status, s.status),
                'restart of engine while another one waits')
            if s.status != Status.STANDBY:
                break
        ctx.count('restarts_while_waiting')
        ctx.count('noticed' if s.status != Status.STANDBY else 'unnoticed')
    k = rng.random()
    if k < 0.5:
        h.monitor.revoke(active)
    elif k < 0.7 and active.lmdb:
        ctx.count('server_restarts')
        await active.stop()
        await net.until(ctx, lambda: s.status == Status.OPERATIONAL,
                        'starting of engine after remote server stopped')
        await active.start()
    elif k < 0.92:
        # it can not be reached any more, though the monitor knows of it
        waits = active in s.blocked_by and s.status == Status.STANDBY
        for i in h.servers:
            i.blocked_by.discard(active)
        if rng.random() < 0.4:
            # or it is not announced any more
            active.hidden = True
            h.monitor.changed()
            await quiet()
            ctx.check(not waits or s.status == Status.STANDBY, 'server starts while it is '
                      'connected to active one which is not announced',
                      s.name)
            ctx.count('withdrawn')
        active.proxy.refuse = True
        try:
            active.proxy.cut(rng.random() < 0.5)
            await net.until(ctx, lambda: s.status == Status.OPERATIONAL,
                            'starting of engine after connection to active '
                            'server was lost', 30, lambda: {'server': s.name})
            ctx.count('unreachable')
            h.monitor.revoke(active)
            await net.until(ctx, lambda: active.status == Status.STANDBY,
                            'stopping of engine')
        finally:
            active.proxy.refuse = False
            if active.hidden:
                active.hidden = False
                h.monitor.changed()
    else:
        for i in h.servers:
            i.blocked_by.discard(active)
        h.monitor.revoke(s)
        return
    await net.until(ctx, lambda: s.status == Status.OPERATIONAL,
                    'starting of engine after remote server stopped being '
                    'active', 30,
                    lambda: {'statuses': [i.name for i in active.statuses]})
    ctx.count('unblocked_starts')


async def long(h, active):
    """It sometimes lasts really long"""
    if h.rng.random() < 0.15:
        h.ctx.log('long')
        await aiorun.warp(h.rng.choice([20, 60, 100, 300]))
        h.ctx.check(active.runner.is_open, 'server is closed while another '
                    'one waits for it', active.name)
        h.ctx.count('long')


async def slow(h, active):
    """Another server is blessed while connected to one which takes long to
    stop or start"""
    rng, ctx = h.rng, h.ctx
    s = rng.choice([i for i in h.servers if i is not active])
    await asyncio.sleep(0.02)
    if (active.status != Status.OPERATIONAL or
            not link(h, s, active) or
            link(h, s, active)[-1][1].payload.data['state'] != 'SYNCED'):
        return
    event = asyncio.Event()
    starting = rng.random() < 0.5
    try:
        if starting:
            h.monitor.revoke(active)
            await net.until(ctx, lambda: active.status == Status.STANDBY,
                            'stopping of engine')
            active.slow_create = event
            h.monitor.bless(active)
            await net.until(ctx, lambda: active.status == Status.STARTING,
                            'starting of engine')
        else:
            active.slow_flush = event
            h.monitor.revoke(active)
            await net.until(ctx, lambda: active.status == Status.STOPPING,
                            'stopping of engine')
        # status is surely known to connected server
        await asyncio.sleep(0.08)
        await quiet()
        s.blocked_by.add(active)
        ctx.count('slow_starts' if starting else 'slow_stops')
        h.monitor.bless(s)
        await asyncio.sleep(0.02 + rng.random() * 0.05)
        await long(h, active)
        ctx.check(s.status == Status.STANDBY,
                  'server starts while another one is starting or stopping',
                  {'server': s.name, 'starting': starting})
    finally:
        active.slow_create = active.slow_flush = None
        event.set()
    if starting:
        await net.until(ctx, lambda: active.status == Status.OPERATIONAL,
                        'status of slowly started engine')
        # registration which is not processed when engine closes would end
        # the connection
        await net.until(
            ctx, lambda: any(e.payload.data['state'] == 'SYNCED'
                             for _, e in link(h, s, active)[-1:]),
            'report of synchronization to slowly started engine', 30)
        await quiet()
        h.monitor.revoke(active)
    await net.until(ctx, lambda: s.status == Status.OPERATIONAL,
                    'starting of engine after remote server stopped')


async def syncing(h, active):
    """Engine starts while another server synchronizes with it"""
    rng, ctx = h.rng, h.ctx
    s = rng.choice([i for i in h.servers if i is not active])
    for i in h.servers:
        i.blocked_by.discard(active)
    ctx.log('syncing', s.name, 'with', active.name)
    event = asyncio.Event()
    try:
        active.proxy.refuse = True
        active.proxy.cut(rng.random() < 0.5)
        await quiet()
        for _ in range(rng.choice([1, 3])):
            if await active.register([('missed', )]) is None:
                return
        h.monitor.revoke(active)
        await net.until(ctx, lambda: active.status == Status.STANDBY,
                        'stopping of engine')
        given = len(s.given)
        s.slow_following = event
        active.proxy.refuse = False
        await net.until(ctx, lambda: any(
            b[0].id.server == active.id for b in s.given[given:]),
            'synchronization with server in standby', 30)
        await quiet()
        h.monitor.bless(active)
        await net.until(ctx, lambda: active.status == Status.OPERATIONAL,
                        'starting of engine while others synchronize', 30)
        await net.until(
            ctx, lambda: link(h, s, active), 'report of running '
            'synchronization to started engine', 30)
        states = [e.payload.data for _, e in link(h, s, active)]
        ctx.equal(states, [{'state': 'SYNCING'}],
                  'reports of running synchronization')
        ctx.count('syncing')
    finally:
        active.proxy.refuse = False
        s.slow_following = None
        event.set()
    await net.until(
        ctx, lambda: link(h, s, active)[-1][1].payload.data['state'] ==
        'SYNCED', 'report of finished synchronization', 30)
    ctx.check(link(h, s, active)[-1][1].payload.data['count'] > 0,
              'number of synchronized events',
              [e for _, e in link(h, s, active)])


async def compare(h):
    """Everybody stores the same"""
    ctx = h.ctx
    active = [s for s in h.servers if s.status == Status.OPERATIONAL]
    if len(h.servers) < 2 or not active:
        return
    for r in h.servers:
        own = sorted(i for i in r.registered if i.server == r.id)
        for s in h.servers:
            if s is r:
                continue
            own = sorted(i for i in r.registered if i.server == r.id)
            await r.backend.flush()
            await net.until(
                ctx, lambda: sorted(i for i in s.registered
                                    if i.server == r.id)[:len(own)] == own,
                'replication of all events of another server', 30,
                lambda: {'server': r.name, 'follower': s.name,
                         'missing': [i for i in own
                                     if i not in s.registered][:10]})
            for i in own:
                ctx.check(s.registered[i] == r.registered[i],
                          'replicated event differs', s.registered[i])
            given = [e.id for b in s.given for e in b
                     if e.id.server == r.id]
            ctx.check(given == sorted(set(given)), 'events of remote server '
                      'are given to storage twice or out of order',
                      {'follower': s.name, 'server': r.name})
            ctx.count('equal_storages')


def judge_reports(h):
    """Reports of synchronization, as registered by engines"""
    ctx = h.ctx
    for r in h.servers:
        # reports of remote followers, by connection
        reports = collections.defaultdict(list)
        for g, source, e in r.processed:
            if e.type[:1] != ('event', ) or e.type[2:3] != ('synced', ):
                continue
            ctx.check(e.source_timestamp is None, 'report of '
                      'synchronization', e)
            if e.type[3] == str(r.id):
                s = next((i for i in h.servers if str(i.id) == e.type[1]),
                         None)
                ctx.check(s is not None and s is not r and
                          source.type == common.SourceType.EVENTER,
                          'report of unknown follower', (source, e))
                reports[s.index, source.id, r.runs[g]].append(
                    (g, e.payload.data))
            else:
                ctx.check(e.type[1] == str(r.id) and
                          source == common.Source(
                              common.SourceType.SERVER, 0) and
                          any(str(i.id) == e.type[3] for i in h.servers),
                          'report of synchronization by other source',
                          (source, e))
                ctx.count('own_reports')
        for (index, source, run), items in reports.items():
            judge_connection(ctx, index, items, min(
                g for g, i in r.runs.items() if i == run))

        own = collections.defaultdict(list)
        for g, source, e in r.processed:
            if e.type[:3] == ('event', str(r.id), 'synced'):
                own[g, e.type[3]].append(e.payload.data)
        for items in own.values():
            judge_own(ctx, items)


ORDER = {'CONNECTED': 0, 'SYNCING': 1, 'SYNCED': 2}


def judge_connection(ctx, index, items, first):
    states = [ORDER[data['state']] for _, data in items]
    witness = {'follower': index, 'reports': items}
    ctx.check(states == sorted(states),
              'reports of synchronization are out of order', witness)
    for g, data in items:
        ctx.check(('count' in data) == (data['state'] == 'SYNCED') and
                  set(data) <= {'state', 'count'},
                  'content of synchronization report', witness)
        ctx.count('synced_reports', data['state'] == 'SYNCED')
    counts = [data['count'] for _, data in items if data['state'] == 'SYNCED']
    ctx.check(not any(i is not None for i in counts[1:]),
              'number of synchronized events is reported again', witness)
    # each engine that started since can be told of it once (telling of the
    # previous one may be late)
    for i, (g, data) in enumerate(items):
        names = [x['state'] for _, x in items[:i + 1]]
        again = len(names) - len(set(names))
        nulls = sum(x.get('count', 0) is None for _, x in items[:i + 1])
        engines = g - first + 1
        ctx.check(max(again, nulls) <= engines, 'synchronization state is '
                  'reported more than once', {**witness, 'engines': engines})
    ctx.count('repeated_reports', any(
        data.get('count', 0) is None for _, data in items))
    for (_, a), (_, b) in zip(items, items[1:]):
        if b['state'] == 'SYNCED' and b['count'] is not None:
            if a['state'] == 'SYNCING':
                ctx.check(b['count'] > 0, 'number of synchronized events',
                          witness)
    ctx.done((index, [(i - items[0][0], data['state'], data.get('count') is
                       None) for i, data in items])
             if counts else None,
             ('reports', items))


def judge_own(ctx, items):
    witness = {'reports': items}
    for data in items:
        ctx.check(('count' in data) == (data['state'] == 'SYNCED') and
                  (data['state'] != 'SYNCED' or
                   isinstance(data['count'], int)),
                  'content of own synchronization report', witness)
    for a, b in zip(items, items[1:]):
        a, n = a['state'], b
        b = b['state']
        ctx.check(b == 'CONNECTED' or ORDER[b] > ORDER[a],
                  'own reports of synchronization are out of order', witness)
        if b == 'SYNCED':
            ctx.check((n['count'] > 0) == (a == 'SYNCING'),
                      'number of synchronized events in own report', witness)


def run_case(ctx):
    aiorun.run(ctx, case)
