"""C21: component following the active event server."""

import asyncio
import itertools

from hat import aio
from hat.drivers import tcp
from hat.event import common
from hat.event import eventer
from hat.monitor.common import BlessingReq, BlessingRes, ComponentInfo
import hat.event.component
import hat.monitor.observer.client

from rt import aiorun
from rt import monitor
from rt import net

LEVEL = 'exploration'
RULE = ('a real component is told by a monitor of the harness of several '
        'event servers (real eventer servers behind cutting proxies), whose '
        'blessing, order, data and presence change all the time, as well as '
        'blessing and readiness of the component itself. Creation and '
        'closing of runners and clients, arguments of callbacks and '
        'connections seen by servers are recorded and judged. An evaluation '
        'is one life of a runner or one settled situation, distinct by what '
        'started and what ended it')
TIERS = {'quick': {'cases': 432, 'time': 75},
         'thorough': {'cases': 12000, 'time': 500}}
REQUIRE = {'runners': 500, 'settled': 500, 'settled_running': 250,
           'settled_idle': 100, 'cuts': 150, 'cut_while_creating': 30,
           'server_changes': 150, 'events': 100, 'statuses': 20,
           'closed_by_runner': 10, 'failed_runner_cb': 5, 'abandoned': 20,
           'unrelated': 80, 'changed_data': 150,
           'followed': 30}


class Server:
    """Event server"""

    def __init__(self, h, index):
        self.h = h
        self.index = index
        self.id = h.ids[index]
        # everything it was announced with
        self.ids = {self.id}
        self.proxies = []
        self.name = f'server {index}'
        self.present = True
        self.bad = None
        self.req = None
        self.res = None
        self.ready = True
        self.conns = {}
        self.refuse = False
        self.instances = itertools.count(1)

    async def open(self):
        addr = net.free_addr()
        self.srv = await eventer.listen(
            addr, connected_cb=self.on_connected,
            disconnected_cb=self.on_disconnected,
            query_cb=self.on_query, close_timeout=0.02)
        self.addr = addr
        await self.move()
        return self

    async def move(self):
        """Available on another address"""
        self.proxy = await net.Proxy(self.addr, self.h.rng).open()
        self.proxy.split = self.h.rng.choice([0, 0.2])
        self.proxy.delay = self.h.rng.choice([0, 0, 0.003])
        self.proxies.append(self.proxy)

    def had(self, addr):
        return any(i.addr == addr for i in self.proxies)

    def cut(self, *args):
        for i in self.proxies:
            i.cut(*args)

    async def on_connected(self, info):
        h = self.h
        if h.rng.random() < 0.3:
            await aiorun.pause(h.rng)
        if self.refuse:
            raise Exception('refused')
        expected = ('the client', h.token, True)
        h.ctx.check((info.client_name, info.client_token,
                     info.persisted) == expected and
                    info.server_id in (h.override or self.ids),
                    'identification of client', (info, expected, self.ids))
        h.ctx.check(sorted(info.subscription.get_query_types()) ==
                    [('a', '*')], 'subscription of client',
                    list(info.subscription.get_query_types()))
        self.conns[info.id] = info

    def on_disconnected(self, info):
        self.conns.pop(info.id, None)

    async def on_query(self, info, params):
        await aiorun.pause(self.h.rng)
        return common.QueryResult([], False)

    async def notify(self):
        await self.srv.notify_events(
            [common.Event(common.EventId(i, next(self.instances), 1), t,
                          common.now(), None, None)
             for i in {self.id, *(self.h.override or [])} - {None}
             for t in [('a', ), ('b', )]], True)

    def data(self):
        data = {'server_id': self.id,
                'eventer_server': {'host': self.proxy.addr.host,
                                   'port': self.proxy.addr.port},
                'server_token': (
                    self.h.token if self.h.token is not None else
                    self.h.rng.choice([None, 'other', '']))}
        if self.bad == 'id':
            data['server_id'] = str(self.id)
        elif self.bad == 'missing':
            del data['server_id']
        elif self.bad == 'addr':
            data['eventer_server'] = None
        elif self.bad == 'none':
            return None
        elif self.bad == 'token':
            data['server_token'] = (self.h.rng.choice([None, 'wrong'])
                                    if self.h.token is not None else 7)
        return data


class Runner(aio.Resource):

    def __init__(self, h, server_data, client):
        self.h = h
        self.data = server_data
        self.client = client
        # runners which end together with their client
        self.how = h.rng.choice(['own', 'own', 'follow', 'subgroup'])
        if self.how == 'subgroup' and client.is_open:
            self._group = client.async_group.create_subgroup()
        else:
            self._group = aio.Group()
        self.finished = False
        self.async_group.spawn(aio.call_on_cancel, self._closing)
        if self.how == 'follow':
            self.async_group.spawn(self._follow)

    @property
    def async_group(self):
        return self._group

    async def _follow(self):
        try:
            await self.client.wait_closing()
            self.h.ctx.count('followed')
        finally:
            self.close()

    async def _closing(self):
        if self.h.rng.random() < 0.5:
            await aiorun.pause(self.h.rng)
        self.finished = True
        self.h.ctx.log('runner closed')


class Harness:
    pass


_harness = None


def setup_worker(spec):

    async def connect(addr, name, group, *, data=None, state_cb=None,
                      close_req_cb=None, **kwargs):
        h = _harness
        h.ctx.check((addr, name, group) == (h.monitor_addr, 'the component',
                                            'components'),
                    'arguments given to monitor client', (addr, name, group))
        h.client = monitor.FakeClient(h, name, group, data, state_cb,
                                      close_req_cb, h.changed)
        h.client.on_delivered = h.on_delivered
        h.changed()
        return h.client

    hat.monitor.observer.client.connect = connect


def expected_data(h, state):
    """Server to be followed, by documented rules"""
    for info in state.components:
        if (info.group != 'servers' or info.blessing_req.token is None or
                info.blessing_req.token != info.blessing_res.token):
            continue
        data = info.data
        if not isinstance(data, dict):
            return None
        addr = data.get('eventer_server')
        if (not isinstance(data.get('server_id'), int) or
                not isinstance(addr, dict) or
                not isinstance(addr.get('host'), str) or
                not isinstance(addr.get('port'), int) or
                not isinstance(data.get('server_token'), (str, type(None)))):
            return None
        if h.token is not None and data.get('server_token') != h.token:
            return None
        return hat.event.component.ServerData(
            data['server_id'], tcp.Address(addr['host'], addr['port']),
            data.get('server_token'))
    return None


async def case(ctx):
    global _harness

    rng = ctx.rng
    h = _harness = Harness()
    h.ctx, h.rng, h.name = ctx, rng, 'component'
    h.token = rng.choice([None, None, 'secret', 'secret', ''])
    # None means events of all servers
    h.override = rng.choice([None, None, [5], [0], [None]])
    h.ids = rng.sample([0, 1, 2, 3, 2 ** 40], 3)
    h.all_ids = set(h.ids)
    h.monitor_addr = tcp.Address('127.0.0.1', rng.randint(1, 100))
    h.runners = []
    h.creating = 0
    h.clients = []
    h.must_not_run = True
    h.allowed = set()
    h.fail_cb = False
    h.statuses = {}
    h.last_cause = 'start'
    h.client = None
    h.states_seen = 0
    # (server, blessing)
    h.servers = [await Server(h, i).open()
                 for i in range(rng.choice([1, 2, 2, 3]))]
    h.order = list(h.servers)
    h.datas = {}
    h.others = [ComponentInfo(
        cid=50, mid=0, name='x', group='other', data=h.servers[0].data(),
        rank=1, blessing_req=BlessingReq(9, 1.0),
        blessing_res=BlessingRes(9, True))] if rng.random() < 0.5 else []
    h.tokens = itertools.count(0)

    def make_state():
        own = ComponentInfo(cid=0, mid=0, name=h.client.name,
                            group=h.client.group, data=h.client.data, rank=1,
                            blessing_req=h.client.req,
                            blessing_res=h.client.res)
        infos = [own, *h.others]
        for s in h.order:
            if s.present:
                if (s, s.bad) not in h.datas:
                    h.datas[s, s.bad] = s.data()
                infos.append(ComponentInfo(
                    cid=s.index + 1, mid=0, name=s.name, group='servers',
                    data=h.datas[s, s.bad], rank=1,
                    blessing_req=BlessingReq(s.req, None),
                    blessing_res=BlessingRes(s.res, s.ready)))
        return monitor.State(own, infos)

    def changed():
        if h.client and h.client.is_open:
            state = make_state()
            h.client.queue.put_nowait(state)

    def on_delivered(state):
        h.states_seen += 1
        data = expected_data(h, state)
        h.allowed.add(data)
        ctx.log('delivered', data, state.info.blessing_req.token)

    h.changed, h.on_delivered = changed, on_delivered
    h.make_state = make_state

    async def runner_cb(component, server_data, client):
        ctx.log('runner_cb', server_data)
        ctx.check(component is h.component, 'component given to callback')
        ctx.check(not h.must_not_run, 'runner is created though there is '
                  'nothing to run on', server_data)
        ctx.check(server_data in h.allowed, 'runner is created for a server '
                  'which is not active', {'server': server_data,
                                          'active': h.allowed})
        ctx.check(h.creating == 0 and all(r.finished for r in h.runners),
                  'runner is created before previous one is closed')
        ctx.check(all(c.is_closed for c in h.clients), 'runner is created '
                  'before previous client is closed')
        h.clients.append(client)
        h.creating += 1
        try:
            await aiorun.pause(rng)
            if rng.random() < 0.3:
                try:
                    await client.query(common.QueryLatestParams())
                except ConnectionError:
                    # failed callback ends the component
                    h.may_end = True
                    raise
            if rng.random() < 0.3:
                await asyncio.sleep(rng.random() * 0.02)
            if h.fail_cb:
                h.fail_cb = False
                ctx.count('failed_runner_cb')
                h.end = 'failed'
                raise Exception('runner callback')
        except BaseException:
            ctx.count('abandoned')
            raise
        finally:
            h.creating -= 1
        runner = Runner(h, server_data, client)
        runner.cause = h.last_cause
        h.runners.append(runner)
        ctx.count('runners')
        ctx.log('runner created')
        return runner

    def events_cb(component, client, events):
        ctx.check(component is h.component and not client.is_closed,
                  'events of closed client')
        ctx.check(not h.clients or client is h.clients[-1] or
                  h.clients[-1].is_closed, 'events of previous client')
        for e in events:
            ctx.check(e.type == ('a', ), 'received event', e)
            ctx.check(e.id.server in (
                h.all_ids if not h.override or h.override == [None]
                else h.override), 'received event', e)
            ctx.count('events')

    def status_cb(component, client, status):
        ctx.check(component is h.component, 'component given to callback')
        h.statuses[client] = status
        ctx.count('statuses')

    h.states = []
    h.end = None
    h.may_end = False
    kwargs = {'subscriptions': [('a', '*')], 'persisted': True}
    if h.token is not None:
        kwargs['client_token'] = h.token
    if h.override:
        kwargs['server_id'] = h.override[0]
    h.component = None
    close_reqs = []
    h.component = await hat.event.component.connect(
        addr=h.monitor_addr, name='the component', group='components',
        server_group='servers', client_name='the client',
        runner_cb=runner_cb,
        state_cb=lambda c, state: h.states.append(state),
        close_req_cb=close_reqs.append,
        status_cb=status_cb, events_cb=events_cb,
        reconnect_delay=0.01, eventer_kwargs=kwargs)
    try:
        ctx.check(not h.component.ready, 'component is ready when created')
        for _ in range(rng.randint(3, 8)):
            for _ in range(rng.randint(1, 5)):
                try:
                    await step(h)
                except ConnectionError:
                    if not h.may_end:
                        raise
                await aiorun.pause(rng)
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random() * 0.03)
            try:
                await settle(h)
            except ConnectionError:
                if not h.may_end:
                    raise
            if h.may_end and not h.component.is_open:
                h.end = 'failed'
            if h.end:
                break
        if not h.end and rng.random() < 0.5:
            await end(h)
        if h.may_end and not h.component.is_open:
            h.end = 'failed'
        if not h.end:
            how = rng.choice(['close', 'monitor', 'request'])
            if how == 'close':
                h.component.close()
            elif how == 'monitor':
                h.client.close()
            else:
                h.client.queue.put_nowait('close')
        await net.finished(ctx, h.component.wait_closed(), 'closing',
                           witness=lambda: {'end': h.end})
        ctx.check(all(r.finished for r in h.runners),
                  'component is closed before its runner')
        ctx.check(all(c.is_closed for c in h.clients),
                  'component is closed before its client')
        await net.until(ctx, lambda: not any(s.conns for s in h.servers),
                        'disconnecting from servers')
        if not h.end and how == 'request':
            ctx.check(close_reqs == [h.component], 'close request callback',
                      close_reqs)
        ctx.check(len(h.states) == h.states_seen or
                  len(h.states) == h.states_seen - 1,
                  'not all states were passed on',
                  (len(h.states), h.states_seen))
    finally:
        await h.component.async_close()
        for s in h.servers:
            for i in s.proxies:
                await i.close()
            await s.srv.async_close()
        _harness = None


async def step(h):
    rng, ctx = h.rng, h.ctx
    s = rng.choice(h.servers)
    k = rng.random()
    h.must_not_run = False
    if k < 0.15:
        ctx.log('component blessing')
        h.client.req = rng.choice([
            BlessingReq(None, None), BlessingReq(next(h.tokens), 1.0),
            BlessingReq(next(h.tokens), 1.0)])
        h.last_cause = 'blessing'
        h.changed()
    elif k < 0.25:
        ready = rng.random() < 0.7
        ctx.log('ready', ready)
        await h.component.set_ready(ready)
        ctx.check(h.component.ready == ready and h.client.res.ready == ready,
                  'readiness')
        h.last_cause = 'ready'
    elif k < 0.5:
        ctx.count('server_changes')
        for i in h.servers:
            r = rng.random()
            if i is s or r < 0.1:
                i.req = i.res = next(h.tokens)
            elif r < 0.5:
                i.req = i.res = None
            elif r < 0.6:
                i.res = None
            elif r < 0.7:
                i.req = next(h.tokens)
            i.ready = rng.random() < 0.8
        if rng.random() < 0.4:
            rng.shuffle(h.order)
        h.last_cause = 'server'
        h.changed()
    elif k < 0.58:
        s.present = not s.present
        h.last_cause = 'presence'
        h.changed()
    elif k < 0.65:
        s.bad = rng.choice([None, 'id', 'missing', 'addr', 'none', 'token'])
        h.last_cause = 'data'
        h.changed()
    elif k < 0.7:
        await changed_data(h, s)
        h.last_cause = 'other data'
        h.changed()
    elif k < 0.85:
        ctx.count('cuts')
        ctx.log('cut', s.name)
        if h.creating:
            ctx.count('cut_while_creating')
        s.cut(rng.random() < 0.5)
        h.last_cause = 'cut'
    elif k < 0.9:
        s.refuse = not s.refuse
        ctx.log('refuse', s.name, s.refuse)
    elif k < 0.95:
        await s.srv.set_status(rng.choice(list(common.Status)))
    else:
        await s.notify()
    if rng.random() < 0.25:
        # while runner is created
        loop = asyncio.get_running_loop()
        until = loop.time() + 0.05
        while not h.creating and loop.time() < until:
            await asyncio.sleep(0)
        if h.creating:
            for i in h.servers:
                if i.conns:
                    ctx.count('cut_while_creating')
                    ctx.count('cuts')
                    ctx.log('cut while creating', i.name)
                    i.cut(rng.random() < 0.5)
                    h.last_cause = 'cut'


async def changed_data(h, s):
    """Something of the announcement changes, the rest stays"""
    k = h.rng.randint(0, 2)
    before = h.datas.get((s, s.bad))
    if k == 0:
        s.id = max(h.all_ids) + 1
        s.ids.add(s.id)
        h.all_ids.add(s.id)
    elif k == 1:
        await s.move()
        if h.rng.random() < 0.5:
            # connections to the previous address stay
            s.proxies[-2].cut()
    data = s.data()
    for key in [i for i in h.datas if i[0] is s]:
        del h.datas[key]
    if k == 2 and h.token is None and before and s.bad is None:
        before = before['server_token']
        data['server_token'] = h.rng.choice(
            [i for i in [None, 'other', '', 'more'] if i != before])
        h.datas[s, s.bad] = data
    h.ctx.log('other data', s.name, k, data)
    h.ctx.count('changed_data')


def alive(h):
    return [r for r in h.runners if not r.finished]


async def settle(h):
    rng, ctx = h.rng, h.ctx
    for s in h.servers:
        s.refuse = False
    k = rng.random()
    if k < 0.75:
        if h.client.req.token is None:
            h.client.req = BlessingReq(next(h.tokens), 1.0)
        await h.component.set_ready(True)
        s = rng.choice(h.servers)
        if not expected_now(h) and rng.random() < 0.8:
            s.present = True
            s.bad = None
            s.req = s.res = next(h.tokens)
            h.order.remove(s)
            h.order.insert(0, s)
    h.changed()
    data = expected_now(h)
    if h.client.req.token is None or not h.component.ready:
        data = None
    ctx.log('settle', data)

    def ok():
        runners = alive(h)
        state = h.client.state
        if (not h.client.queue.empty() or not state.info or
                state != h.make_state()):
            return False
        if data is None:
            return not runners and not h.creating and not any(
                s.conns for s in h.servers)
        return (h.client.res.token == h.client.req.token and
                len(runners) == 1 and runners[0].data == data and
                runners[0].is_open and runners[0].client.is_open and
                all(len(s.conns) == ((s.proxy.addr == data.addr))
                    for s in h.servers) and
                all(i.server_id == (h.override[0] if h.override
                                    else data.server_id)
                    for s in h.servers for i in s.conns.values()))

    def witness():
        return {'expected': data, 'open': h.component.is_open,
                'runners': [(r.data, r.is_open, r.client.is_open)
                            for r in alive(h)],
                'creating': h.creating,
                'connections': {s.name: list(s.conns.values())
                                for s in h.servers},
                'blessing': (h.client.req, h.client.res)}

    loop = asyncio.get_running_loop()
    deadline = loop.time() + 30
    while True:
        if h.may_end and not h.component.is_open:
            return
        # situation stays as it is
        good = ok()
        await asyncio.sleep(0.005)
        for _ in range(50):
            await asyncio.sleep(0)
        if good and ok():
            break
        if loop.time() > deadline:
            ctx.violation(('expected runner' if data else 'closing of runner')
                          + ' did not happen in 30 s', witness())
    ctx.check(h.component.is_open, 'component closed by itself')
    ctx.count('settled')
    if data is None:
        h.must_not_run = True
        ctx.count('settled_idle')
    else:
        ctx.count('settled_running')
        r = alive(h)[0]
        s = next(s for s in h.servers if s.proxy.addr == data.addr)
        before = r.client.status
        status = rng.choice(list(common.Status))
        await s.srv.set_status(status)
        await net.until(ctx, lambda: r.client.status == status,
                        'status of server', 30)
        if status != before:
            await net.until(ctx, lambda: h.statuses.get(r.client) == status,
                            'status given to callback', 30)
        n = ctx.counters['events']
        await s.notify()
        await net.until(ctx, lambda: ctx.counters['events'] > n,
                        'notification of events', 30)
        if rng.random() < 0.5:
            await unrelated(h, r, s)
    h.allowed = {expected_now(h)}
    for r in h.runners:
        if r.finished and not getattr(r, 'judged', False):
            r.judged = True
            ctx.done((r.cause, h.last_cause, len(h.servers),
                      h.servers.index(next(
                          s for s in h.servers
                          if s.had(r.data.addr)))),
                     ('runner', r.cause, h.last_cause))
    ctx.done(('settled', data is not None, h.last_cause, len(h.servers),
              h.client.req.token is None, h.component.ready,
              [(s.present, s.bad, s.req == s.res) for s in h.order]))


async def unrelated(h, runner, active):
    """Changes which are none of business of the runner"""
    rng, ctx = h.rng, h.ctx
    data = expected_now(h)
    n = len(h.runners)
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, 4)
        if k == 0:
            # active server is blessed again
            active.req = active.res = next(h.tokens)
        elif k == 4:
            # it is still blessed
            active.ready = not active.ready
        elif k == 1:
            h.others.append(ComponentInfo(
                cid=100 + len(h.others), mid=0, name='y',
                group=rng.choice(['other', 'components']),
                data=rng.choice([None, active.data()]), rank=1,
                blessing_req=BlessingReq(None, None),
                blessing_res=BlessingRes(None, True)))
        elif k == 2 and h.others:
            h.others.pop()
        else:
            other = rng.choice(h.servers)
            if other is not active:
                other.req = next(h.tokens)
                other.res = None
        ctx.check(expected_now(h) == data, 'unrelated change')
        h.changed()
        await aiorun.pause(rng)
    await net.until(ctx, lambda: h.client.queue.empty() and
                    h.client.state == h.make_state(), 'state of monitor')
    await asyncio.sleep(0.01)
    if h.may_end and not h.component.is_open:
        return
    ctx.check(len(h.runners) == n and runner.is_open and
              runner.client.is_open and not h.creating and
              len(active.conns) == 1,
              'runner is closed by change which has nothing to do with it',
              {'open': (runner.is_open, runner.client.is_open),
               'created': len(h.runners) - n, 'creating': h.creating})
    ctx.count('unrelated')


def expected_now(h):
    return expected_data(h, monitor.State(None, [
        ComponentInfo(cid=0, mid=0, name='', group='servers',
                      data=(h.datas.get((s, s.bad)) or
                            h.datas.setdefault((s, s.bad), s.data())),
                      rank=1, blessing_req=BlessingReq(s.req, None),
                      blessing_res=BlessingRes(s.res, True))
        for s in h.order if s.present]))


async def end(h):
    """Runner ends the component"""
    rng, ctx = h.rng, h.ctx
    runners = alive(h)
    if runners and rng.random() < 0.6:
        ctx.count('closed_by_runner')
        h.end = 'runner'
        runners[0].close()
    elif runners:
        # failing of the next runner callback
        h.fail_cb = True
        for s in h.servers:
            s.cut()
        await net.until(ctx, lambda: h.end or not h.component.is_open,
                        'creation of another runner')
        h.end = 'failed'


def run_case(ctx):
    aiorun.run(ctx, case)
