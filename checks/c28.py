"""C28: nothing is left behind by finished work."""

import asyncio
import contextlib
import contextvars
import itertools
import json

from hat import aio
from hat import sbs
from hat.drivers import tcp
from hat.event import adminer
from hat.event import common
from hat.event import eventer
from hat.monitor.common import BlessingReq, ComponentInfo
import hat.event.component
import hat.event.server.engine
import hat.event.server.eventer_client
import hat.event.server.eventer_client_runner
import hat.event.server.eventer_server
import hat.event.server.main_runner
import hat.monitor.observer.client
import hat.sbs.serializer

from rt import aiorun
from rt import engmod
from rt import gen
from rt import monitor
from rt import net
from rt import storage
from rt import usage

LEVEL = 'exploration'
RULE = ('workloads on real parts (eventer server and clients, server '
        'component with engines, engines with modules, on-disk storage with '
        'retention, follower, whole servers with monitor, component, '
        'administration) are repeated in cycles of equal amount of random '
        'work, each with cut connections, abandoned, failed and refused '
        'requests; after each cycle tasks, file descriptors, threads, '
        'objects by type and allocated blocks are counted, and after '
        'closing of everything tasks, sockets, files and threads must be '
        'gone. Kinds which grow in every window of cycles are leaks. An '
        'evaluation is one cycle, non-trivial always, distinct by workload '
        'and what was done')
TIERS = {'quick': {'cases': 56, 'time': 75},
         'thorough': {'cases': 3000, 'time': 500}}
REQUIRE = {'cycles': 600, 'abandoned': 300, 'cuts': 200, 'refused': 100,
           'failed': 100, 'engines': 200, 'connections': 1500,
           'queries': 500, 'closed': 30, 'canceled_creations': 200}

WINDOW = 4


async def _abandon(ctx, aw):
    """Start what is not waited for"""
    task = asyncio.ensure_future(aw)
    await aiorun.pause(ctx.rng, 2)
    task.cancel()
    with contextlib.suppress(asyncio.CancelledError, ConnectionError,
                             Exception):
        await task
    ctx.count('abandoned')


class Eventer:
    """Eventer server with clients"""

    ops = 12

    async def open(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.n = 0

        async def connected_cb(info):
            if info.client_name == 'refused':
                raise Exception('refused')

        async def register_cb(info, events):
            await aiorun.pause(self.rng, 1)
            if info.client_name == 'failing':
                raise Exception('failing')
            if self.rng.random() < 0.2:
                return
            return self.events(len(events))

        async def query_cb(info, params):
            await aiorun.pause(self.rng, 1)
            return common.QueryResult(self.events(3), False)

        self.addr = net.free_addr()
        self.server = await eventer.listen(
            self.addr, connected_cb=connected_cb, register_cb=register_cb,
            query_cb=query_cb, close_timeout=0.02)
        self.proxy = await net.Proxy(self.addr, self.rng).open()
        self.client = await self.connect('permanent')

    def events(self, n):
        self.n += 1
        return [common.Event(common.EventId(1, self.n, i + 1), ('a', ),
                             common.Timestamp(1, 2), None,
                             common.EventPayloadJson('x'))
                for i in range(n)]

    async def connect(self, name, proxy=False):
        async def events_cb(client, events):
            await aiorun.pause(self.rng, 1)

        client = await eventer.connect(
            self.proxy.addr if proxy else self.addr, name,
            subscriptions=[('*', )], events_cb=events_cb)
        self.ctx.count('connections')
        return client

    async def op(self, k):
        rng = self.rng
        k %= 9
        request = [common.RegisterEvent(('a', ), None, None)]
        if k == 0:
            with contextlib.suppress(eventer.EventerInitError):
                await self.connect('refused')
            self.ctx.count('refused')
        elif k == 1:
            with contextlib.suppress(ConnectionError):
                client = await self.connect('failing')
                try:
                    await client.register(request, True)
                finally:
                    await client.async_close()
            self.ctx.count('failed')
        elif k == 2:
            for _ in range(4):
                await self.client.register(request, rng.random() < 0.7)
                await self.client.query(common.QueryLatestParams())
                self.ctx.count('queries')
        elif k == 3:
            for _ in range(4):
                await _abandon(self.ctx, self.client.query(
                    common.QueryLatestParams()))
                await _abandon(self.ctx, self.client.register(request, True))
        elif k == 4:
            client = await self.connect('cut', True)
            aw = asyncio.gather(
                *(client.query(common.QueryLatestParams())
                  for _ in range(3)),
                self.server.notify_events(self.events(2), False, True),
                return_exceptions=True)
            task = asyncio.ensure_future(aw)
            await aiorun.pause(rng)
            self.proxy.cut(rng.random() < 0.5)
            await task
            await client.async_close()
            self.ctx.count('cuts')
        elif k == 5:
            for _ in range(4):
                await self.server.notify_events(self.events(2), False,
                                                rng.random() < 0.7)
        elif k == 6:
            for _ in range(4):
                await _abandon(self.ctx, self.server.notify_events(
                    self.events(2), False, True))
            await self.server.set_status(rng.choice(list(common.Status)))
        elif k == 7:
            client = await self.connect('stopped')
            task = asyncio.ensure_future(client.query(
                common.QueryLatestParams()))
            await aiorun.pause(rng, 1)
            await client.async_close()
            await asyncio.wait([task])
            task.exception()
        else:
            peer = await net.RawPeer.open(self.addr)
            with contextlib.suppress(ConnectionError):
                if rng.random() < 0.5:
                    await peer.init()
                await peer.send_bytes('HatEventer.MsgQueryReq', b'\xff')
                with contextlib.suppress(asyncio.TimeoutError,
                                         ConnectionError):
                    await asyncio.wait_for(peer.receive(), 0.05)
            await peer.close()

    async def close(self):
        await self.client.async_close()
        await self.server.async_close()
        await self.proxy.close()


class _Spec:
    """Behaviour of engine's module"""

    sync = False
    subscriptions = [('a', '*'), ('event', '*')]

    def __init__(self, rng, sync=False):
        self.rng = rng
        self.sync = sync

    async def created(self, module):
        module.async_group.spawn(asyncio.sleep, 1000)

    def sync_call(self, module, kind, data):
        if kind == 'process' and data[1].type == ('a', ):
            return [common.RegisterEvent(('b', ), None, None)]

    async def call(self, module, kind, data):
        await aiorun.pause(self.rng, 1)
        return self.sync_call(module, kind, data)


async def _dummy():
    info = common.import_backend_info('hat.event.backends.dummy')
    return await aio.call(info.create, {}, None, None)


class Engines:
    """Engines and the server component in front of them"""

    ops = 8

    async def open(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.key = f'{id(self)}'
        engmod.SPECS[self.key] = _Spec(ctx.rng, ctx.rng.random() < 0.5)
        self.backend = await _dummy()
        self.addr = net.free_addr()
        self.server = await \
            hat.event.server.eventer_server.create_eventer_server(
                self.addr, self.backend, 1, close_timeout=0.02)
        self.client = await eventer.connect(self.addr, 'permanent')
        self.engine = await self.create()
        self.source = common.Source(common.SourceType.ENGINE, 7)

    async def create(self):
        return await hat.event.server.engine.create_engine(
            backend=self.backend, eventer_server=self.server,
            module_confs=[{'module': 'rt.engmod', 'key': self.key}],
            server_id=1, restart_cb=lambda: None,
            reset_monitor_ready_cb=lambda: None)

    async def op(self, k):
        rng = self.rng
        k %= 4
        request = [common.RegisterEvent(('a', ), None, None)] * 2
        if k == 0:
            for _ in range(6):
                await self.engine.register(self.source, request)
        elif k == 1:
            for _ in range(6):
                await _abandon(self.ctx, self.engine.register(self.source,
                                                              request))
            # canceled at every point of creation
            for i in range(8):
                task = asyncio.ensure_future(self.create())
                for _ in range(i):
                    await asyncio.sleep(0)
                task.cancel()
                try:
                    engine = await task
                    await engine.async_close()
                except asyncio.CancelledError:
                    self.ctx.count('canceled_creations')
        elif k == 2:
            # life of an engine
            engine = await self.create()
            await self.server.set_status(common.Status.STARTING, None)
            await self.server.set_status(common.Status.OPERATIONAL, engine)
            client = await eventer.connect(self.addr, 'transient',
                                           subscriptions=[('*', )])
            self.ctx.count('connections')
            self.ctx.check(await client.register(request, True) is not None,
                           'registration is refused')
            task = asyncio.ensure_future(engine.register(self.source,
                                                         request))
            await aiorun.pause(rng, 1)
            if rng.random() < 0.5:
                await client.async_close()
            await self.server.set_status(common.Status.STOPPING, None)
            await engine.async_close()
            await asyncio.wait([task])
            task.exception()
            await self.server.set_status(common.Status.STANDBY, None)
            await client.async_close()
            self.ctx.count('engines')
        else:
            self.ctx.check(await self.client.register(request, True) is None,
                           'registration without engine')
            self.ctx.count('refused')

    async def close(self):
        await self.engine.async_close()
        await self.client.async_close()
        await self.server.async_close()
        await self.backend.async_close()
        del engmod.SPECS[self.key]


class Storage:
    """On-disk storage with limited history"""

    ops = 10

    async def open(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.source = storage.Source(ctx.rng, servers=1, max_batch=3)
        self.source.servers = [1]
        self.source.sessions = {1: 0}
        self.source.clocks = {1: 1000}
        self.types = [(i, ) for i in 'abcd']
        self.conf = {
            'db_path': str(ctx.folder('db') / 'event.db'),
            'identifier': None,
            'flush_period': 1000,
            'cleanup_period': ctx.rng.choice([0.01, 1000]),
            'conditions': [], 'latest': {'subscriptions': [['*']]},
            'timeseries': [
                {'order_by': order, 'subscriptions': [['*']],
                 'limit': {'max_entries': 20}}
                for order in ('TIMESTAMP', 'SOURCE_TIMESTAMP')]}
        self.info = common.import_backend_info('hat.event.backends.lmdb')
        self.reopening = ctx.rng.random() < 0.4
        self.callbacks = ctx.rng.random() < 0.7
        self.backend = None
        await self.reopen()

    async def reopen(self):
        if self.backend:
            await self.backend.async_close()
        self.backend = await self.info.create(
            self.conf, *([lambda events: None] * 2 if self.callbacks else
                         [None, None]))

    def batch(self):
        rng = self.rng
        self.source.sessions[1] += 1
        t = common.Timestamp(1000 + self.source.sessions[1], 0)
        return [common.Event(
            common.EventId(1, self.source.sessions[1], i + 1),
            rng.choice(self.types), t, t, common.EventPayloadJson('value'))
            for i in range(3)]

    def params(self):
        k = self.rng.randint(0, 2)
        if k == 0:
            return common.QueryLatestParams([self.rng.choice(self.types)])
        if k == 1:
            return common.QueryTimeseriesParams(max_results=5)
        return common.QueryServerParams(1, max_results=5)

    async def op(self, k):
        k %= 5
        if k == 0:
            for _ in range(10):
                await self.backend.register(self.batch())
            await self.backend.flush()
        elif k == 1:
            for _ in range(6):
                await self.backend.query(self.params())
                self.ctx.count('queries')
        elif k == 2:
            await asyncio.gather(
                *(self.backend.query(self.params()) for _ in range(3)),
                *(self.backend.flush() for _ in range(2)),
                *(self.backend.register(self.batch()) for _ in range(2)))
            self.ctx.count('queries', 3)
        elif k == 3:
            for _ in range(4):
                await _abandon(self.ctx, self.backend.query(self.params()))
                await self.backend.register(self.batch())
                await _abandon(self.ctx, self.backend.flush())
        elif self.reopening:
            await self.reopen()
        else:
            await self.backend.register(self.batch())

    async def settle(self):
        # types which are not latest yet would be new ones
        await self.backend.flush()

    async def close(self):
        await self.backend.async_close()


class Adminer:
    """Administration server with clients"""

    ops = 12

    async def open(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng

        async def get_cb():
            await aiorun.pause(self.rng, 1)
            if self.rng.random() < 0.3:
                self.ctx.count('failed')
                raise Exception('failed')
            return {'a': [1, 2, 3]}

        async def set_cb(conf):
            await get_cb()

        self.addr = net.free_addr()
        self.server = await adminer.listen(
            self.addr, get_log_conf_cb=get_cb, set_log_conf_cb=set_cb)
        self.proxy = await net.Proxy(self.addr, self.rng).open()
        self.client = await adminer.connect(self.addr)

    def request(self, client):
        return (client.get_log_conf() if self.rng.random() < 0.5 else
                client.set_log_conf({'b': 1}))

    async def op(self, k):
        k %= 4
        if k == 0:
            for _ in range(6):
                with contextlib.suppress(adminer.AdminerError):
                    await self.request(self.client)
        elif k == 1:
            for _ in range(6):
                await _abandon(self.ctx, self.request(self.client))
        elif k == 2:
            client = await adminer.connect(self.proxy.addr)
            self.ctx.count('connections')
            task = asyncio.ensure_future(asyncio.gather(
                *(self.request(client) for _ in range(3)),
                return_exceptions=True))
            await aiorun.pause(self.rng)
            self.proxy.cut(self.rng.random() < 0.5)
            await task
            await client.async_close()
            self.ctx.count('cuts')
        else:
            peer = await net.RawPeer.open(self.addr)
            with contextlib.suppress(ConnectionError):
                await peer.send_bytes('HatEventAdminer.MsgSetLogConfReq',
                                      b'\xff')
                with contextlib.suppress(asyncio.TimeoutError):
                    await asyncio.wait_for(peer.receive(), 0.05)
            await peer.close()

    async def close(self):
        await self.client.async_close()
        await self.server.async_close()
        await self.proxy.close()


_clients = {}


async def _monitor_connect(addr, name, group, *, data=None, state_cb=None,
                           close_req_cb=None, **kwargs):
    owner = _clients[name]
    owner.client = monitor.FakeClient(owner, name, group, data, state_cb,
                                      close_req_cb, owner.changed)
    owner.changed()
    return owner.client


def setup_worker(spec):
    # native serializer of hat-sbs loses a block of memory with some values
    for fn in (sbs.Repository.encode, sbs.Repository.decode):
        fn.__kwdefaults__ = {'serializer': sbs.serializer.PySerializer}

    hat.monitor.observer.client.connect = _monitor_connect
    cls = hat.event.server.eventer_client_runner.EventerClientRunner
    init = cls.__init__

    def wrapped_init(self, *args, **kwargs):
        kwargs.setdefault('reconnect_delay', 0.01)
        init(self, *args, **kwargs)

    cls.__init__ = wrapped_init


class Quiet:
    """Owner of monitor client which does not keep a log"""

    def __init__(self, ctx):
        self.rng = ctx.rng

    def log(self, *args):
        pass


class Server:
    """Whole server as seen by the monitor"""

    def __init__(self, work, index):
        self.work = work
        self.ctx = Quiet(work.ctx)
        self.index = index
        self.name = f'server {id(work)} {index}'
        self.visible = True
        self.client = None
        self.token = None
        self.statuses = []

    def changed(self):
        self.work.changed()


class Servers:
    """Two servers, one of them following the other"""

    ops = 4

    async def open(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.tokens = itertools.count(1)
        self.key = f'{id(self)}'
        engmod.SPECS[self.key] = _Spec(ctx.rng)
        self.servers = [Server(self, i) for i in range(2)]
        for server in self.servers:
            _clients[server.name] = server
            server.addr = net.free_addr()
            server.proxy = await net.Proxy(server.addr, ctx.rng).open()
            conf = {
                'name': server.name, 'server_id': server.index + 1,
                'backend': {
                    'module': 'hat.event.backends.lmdb',
                    'db_path': str(ctx.folder('db') / 'event.db'),
                    'identifier': None,
                    'flush_period': 0.005, 'cleanup_period': 0.01,
                    'conditions': [],
                    'latest': {'subscriptions': [['*']]},
                    'timeseries': [{'order_by': 'TIMESTAMP',
                                    'subscriptions': [['*']],
                                    'limit': {'max_entries': 20}}]},
                'modules': [{'module': 'rt.engmod', 'key': self.key}],
                'eventer_server': {'host': server.addr.host,
                                   'port': server.addr.port},
                'monitor_component': {'host': '127.0.0.1', 'port': 1,
                                      'group': 'event'}}
            server.runner = hat.event.server.main_runner.MainRunner(
                conf, reset_monitor_ready_timeout=5)
        for server in self.servers:
            await net.until(ctx, lambda: server.client and
                            server.client.res.ready, 'readiness')

    def changed(self):
        for server in self.servers:
            client = server.client
            if not client or not client.is_open:
                continue
            infos = []
            own = None
            for s in self.servers:
                c = s.client
                if not c or not c.is_open:
                    continue
                if s is not server and not s.visible:
                    continue
                data = {**c.data, 'eventer_server': {
                    'host': s.proxy.addr.host, 'port': s.proxy.addr.port}}
                info = ComponentInfo(cid=s.index, mid=0, name=c.name,
                                     group=c.group, data=data, rank=1,
                                     blessing_req=c.req, blessing_res=c.res)
                infos.append(info)
                if s is server:
                    own = info
            client.queue.put_nowait(monitor.State(own, infos))

    async def connect(self, server):
        while True:
            try:
                return await eventer.connect(server.addr, 'client')
            except (eventer.EventerInitError, ConnectionError):
                await asyncio.sleep(0.001)

    async def use(self, server):
        while True:
            client = await self.connect(server)
            self.ctx.count('connections')
            try:
                while client.status != common.Status.OPERATIONAL:
                    if not client.is_open:
                        raise ConnectionError()
                    await asyncio.sleep(0.001)
                for _ in range(3):
                    await client.register(
                        [common.RegisterEvent(('a', ), None, None)], True)
                return client
            except ConnectionError:
                # engine of previous operation is still closing
                await client.async_close()

    async def op(self, k):
        rng = self.rng
        ctx = self.ctx
        server = self.servers[k % 2]
        server.client.req = BlessingReq(next(self.tokens), 1.0)
        self.changed()
        client = await net.finished(ctx, self.use(server), 'use of a server')
        if k % 4 >= 2:
            self.servers[k % 2].proxy.cut(rng.random() < 0.5)
            ctx.count('cuts')
        if k % 4 in (0, 3):
            self.servers[1 - k % 2].visible = False
            self.changed()
            await aiorun.pause(rng)
            self.servers[1 - k % 2].visible = True
            self.changed()
        if rng.random() < 0.5:
            await asyncio.sleep(rng.random() * 0.03)
        other = None
        if k % 4 in (1, 2):
            # blessed while this one is active
            other = self.servers[1 - k % 2]
            other.client.req = BlessingReq(next(self.tokens), 1.0)
            self.changed()
            await asyncio.sleep(0.03)
            if k % 4 == 2:
                other.client.req = BlessingReq(None, None)
                self.changed()
                other = None
        await self.revoke(server, client)
        if other:
            client = await net.finished(ctx, self.use(other),
                                        'use of a server')
            await self.revoke(other, client)

    async def revoke(self, server, client):
        server.client.req = BlessingReq(None, None)
        self.changed()
        await net.until(
            self.ctx, lambda: (client.status == common.Status.STANDBY or
                               not client.is_open), 'end of engine')
        await client.async_close()
        self.ctx.count('engines')

    async def close(self):
        for server in self.servers:
            await net.finished(self.ctx, server.runner.async_close(),
                               'closing of server')
            server.proxy.cut()
            await asyncio.sleep(0.002)
            await server.proxy.close()
            del _clients[server.name]
        del engmod.SPECS[self.key]


class Runner(aio.Resource):

    def __init__(self):
        self._group = aio.Group()

    @property
    def async_group(self):
        return self._group


class Component:
    """Component following event servers"""

    ops = 4

    async def open(self, ctx):
        self.ctx = Quiet(ctx)
        self.case = ctx
        self.rng = ctx.rng
        self.name = f'component {id(self)}'
        _clients[self.name] = self
        self.client = None
        self.tokens = itertools.count(1)
        self.runner = None
        self.servers = []
        self.active = None
        for i in range(2):
            addr = net.free_addr()
            srv = await eventer.listen(addr, close_timeout=0.02)
            proxy = await net.Proxy(addr, ctx.rng).open()
            self.servers.append((srv, proxy))

        async def runner_cb(component, data, client):
            if self.rng.random() < 0.5:
                await aiorun.pause(self.rng)
            self.runner = Runner()
            return self.runner

        self.component = await hat.event.component.connect(
            addr=tcp.Address('127.0.0.1', 1), name=self.name, group='g',
            server_group='servers', client_name='client',
            runner_cb=runner_cb, events_cb=lambda *_: None,
            status_cb=lambda *_: None, reconnect_delay=0.01)
        await self.component.set_ready(True)
        self.client.req = BlessingReq(1, None)
        self.changed()

    def changed(self):
        c = self.client
        if not c or not c.is_open:
            return
        own = ComponentInfo(cid=0, mid=0, name=c.name, group='g',
                            data=c.data, rank=1, blessing_req=c.req,
                            blessing_res=c.res)
        infos = [own]
        for i, (_, proxy) in enumerate(self.servers):
            token = 1 if self.active == i else None
            infos.append(ComponentInfo(
                cid=i + 1, mid=0, name='s', group='servers',
                data={'server_id': i + 1, 'server_token': None,
                      'eventer_server': {'host': proxy.addr.host,
                                         'port': proxy.addr.port}}, rank=1,
                blessing_req=monitor.BlessingReq(token, None),
                blessing_res=monitor.BlessingRes(token, True)))
        c.queue.put_nowait(monitor.State(own, infos))

    async def running(self, old):
        await net.until(self.case, lambda: self.runner is not old and
                        self.runner.is_open, 'runner')
        self.case.count('engines')
        self.case.count('connections')

    async def op(self, k):
        k %= 4
        old = self.runner
        if k == 0:
            self.active = 0
            self.changed()
            if self.rng.random() < 0.5:
                await aiorun.pause(self.rng)
            self.active = 1
            self.changed()
            await self.running(old)
        elif k == 1:
            if self.active is not None and old and old.is_open:
                self.servers[self.active][1].cut(self.rng.random() < 0.5)
                self.case.count('cuts')
                await self.running(old)
        elif k == 2:
            await self.component.set_ready(False)
            await aiorun.pause(self.rng)
            await self.component.set_ready(True)
        else:
            self.active = None
            self.changed()
            await net.until(self.case, lambda: old is None or old.is_closed,
                            'end of runner')

    async def settle(self):
        self.active = None
        self.changed()
        await net.until(self.case, lambda: self.runner is None or
                        self.runner.is_closed, 'end of runner')

    async def close(self):
        await net.finished(self.case, self.component.async_close(),
                           'closing of component')
        for srv, proxy in self.servers:
            proxy.cut()
            await srv.async_close()
            await proxy.close()
        del _clients[self.name]


class Follower:
    """Follower of a server component"""

    ops = 4

    async def open(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.info = common.import_backend_info('hat.event.backends.lmdb')
        self.n = 0

        def conf(name):
            return {'db_path': str(ctx.folder(name) / 'event.db'),
                    'identifier': None, 'flush_period': 1000,
                    'cleanup_period': 1000, 'conditions': [],
                    'latest': {'subscriptions': [['*']]}, 'timeseries': []}

        self.server = None

        async def flushed_cb(events):
            await self.server.notify_events(events, True)

        self.remote = await self.info.create(conf('remote'), lambda _: None,
                                             flushed_cb)
        self.local = await self.info.create(conf('local'), lambda _: None,
                                            lambda _: None)
        self.addr = net.free_addr()
        self.server = await \
            hat.event.server.eventer_server.create_eventer_server(
                self.addr, self.remote, 1, close_timeout=0.02)
        self.proxy = await net.Proxy(self.addr, self.rng).open()

    async def register(self):
        self.n += 1
        t = common.Timestamp(1000 + self.n, 0)
        await self.remote.register([
            common.Event(common.EventId(1, self.n, i + 1),
                         ('a', f'{i}'), t, None, None) for i in range(3)])

    async def op(self, k):
        synced = asyncio.Event()

        def synced_cb(state, count):
            if state == hat.event.server.eventer_client.SyncedState.SYNCED:
                synced.set()

        await self.register()
        await self.remote.flush()
        follower = await hat.event.server.eventer_client.create_eventer_client(
            addr=self.proxy.addr, client_name='follower',
            local_server_id=2, remote_server_id=1, backend=self.local,
            synced_cb=synced_cb)
        self.ctx.count('connections')
        if k % 2:
            await aiorun.pause(self.rng)
            self.proxy.cut(self.rng.random() < 0.5)
            self.ctx.count('cuts')
        else:
            await net.finished(self.ctx, synced.wait(), 'synced')
            await self.register()
            await self.remote.flush()
        await follower.async_close()
        await self.local.flush()

    async def close(self):
        await self.server.async_close()
        await self.proxy.close()
        await self.remote.async_close()
        await self.local.async_close()


KINDS = [Eventer, Engines, Storage, Adminer, Servers, Component, Follower]


async def case(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.case % len(KINDS)]
    start = json.loads(usage.measure())
    work = kind()
    await work.open(ctx)
    limit = None
    orders = []

    async def cycle():
        ops = list(range(work.ops))
        rng.shuffle(ops)
        if kind is Servers or kind is Component:
            ops.sort()
        for k in ops:
            await work.op(k)
        if hasattr(work, 'settle'):
            await work.settle()
        await usage.quiet(limit)
        ctx.trace.clear()
        ctx.count('cycles')
        orders.append(bytes(ops))
        return usage.measure()

    for _ in range(3):
        m = await cycle()
    limit = json.loads(m)['tasks']
    windows = []
    while True:
        windows.append([await cycle() for _ in range(WINDOW)])
        if len(windows) < 3:
            continue
        grown = usage.growth(windows, 16 + WINDOW * work.ops * 0.5)
        if not grown or len(windows) >= 10:
            break
    if grown:
        ctx.violation('resources of finished work are not released',
                      {'workload': kind.__name__, 'cycles of a window': WINDOW,
                       'operations of a cycle': work.ops, 'grown': grown})
    for order, m in zip(orders[3:], (m for w in windows for m in w)):
        m = json.loads(m)
        ctx.done((kind.__name__, order, m['tasks']),
                 (kind.__name__, {k: v for k, v in m.items()
                                  if not k.startswith('_')}))
    await net.finished(ctx, work.close(), 'closing')
    work = None
    loop = asyncio.get_running_loop()
    end = loop.time() + 10
    while True:
        await asyncio.sleep(0.01)
        m = json.loads(usage.measure())
        left = {k: (start.get(k, 0), m[k]) for k in m
                if (k in ('tasks', 'threads', 'fd socket', 'fd file') or
                    k.startswith('resource')) and m[k] > start.get(k, 0)}
        if not left:
            break
        if loop.time() > end:
            ctx.violation('closed parts leave something behind',
                          {'workload': kind.__name__, 'left': left,
                           'tasks': [str(i) for i in asyncio.all_tasks()]})
    ctx.count('closed')


def run_case(ctx):
    aiorun.run(ctx, case)
