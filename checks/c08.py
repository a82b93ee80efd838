"""C08: lifecycle events of clients and operational status."""

import asyncio
import itertools

from hat import aio
from hat.event import common
from hat.event import eventer
import hat.event.server.eventer_server

from rt import aiorun
from rt import net

LEVEL = 'exploration'
RULE = ('a real eventer server component on loopback, given a recording '
        'engine, goes through random sequences of status changes and engine '
        'replacements, while clients connect (with right and wrong tokens), '
        'register, disconnect and get cut off. Registrations seen by the '
        'engines, reported client names and status callbacks are compared '
        'with what the harness did; in some cases the engine accepts lifecycle '
        'events only after a long (simulated) time. An evaluation is one connection, '
        'non-trivial if some event or status change belongs to it, distinct '
        'by its fate relative to the status changes')
TIERS = {'quick': {'cases': 1632, 'time': 45},
         'thorough': {'cases': 20000, 'time': 400}}
REQUIRE = {'clients': 1500, 'connected_events': 500,
           'disconnected_events': 300, 'status_changes': 1000,
           'status_callbacks': 1500, 'refused': 150, 'registered': 150,
           'midstream': 100, 'quiescent': 300, 'not_admitted': 50,
           'shared': 50, 'bursts': 300, 'stalled': 150, 'kept': 10}


class Engine(aio.Resource):
    """Recording engine"""

    def __init__(self, rng, log):
        self.rng = rng
        self.log = log
        self.group = aio.Group()
        self.slow = rng.choice([0, 0, 0.002])
        self.ids = itertools.count(1)

    @property
    def async_group(self):
        return self.group

    async def register(self, source, events):
        if not self.is_open:
            raise Exception('engine closed')
        for e in events:
            self.log.append((self, source, e))
        if self.slow:
            await asyncio.sleep(self.rng.random() * self.slow)
        if not self.is_open:
            raise Exception('engine closed')
        t = common.now()
        return [common.Event(common.EventId(7, next(self.ids), 1), e.type, t,
                             e.source_timestamp, e.payload) for e in events]


class Backend:

    async def query(self, params):
        return common.QueryResult([], False)


class Client:

    def __init__(self, h, index, name):
        self.h = h
        self.index = index
        self.name = name
        self.statuses = []
        self.running = 0
        self.slow = h.ctx.rng.choice([0, 0, 0.003])
        self.gone = False
        self.dropped = False
        self.admitted = False
        self.registered = []
        self.connect_span = None
        self.gone_span = None

    async def on_status(self, client, status):
        self.running += 1
        self.h.ctx.check(self.running == 1,
                         'status callback is called before previous finished')
        self.statuses.append(status)
        self.h.ctx.count('status_callbacks')
        if self.slow:
            await asyncio.sleep(self.h.ctx.rng.random() * self.slow)
        self.running -= 1

    def judge_status(self, complete):
        """Initial status, followed by all changes"""
        h = self.h
        ctx = h.ctx
        for k in range(self.first_min, self.first_max + 1):
            later = h.history[k + 1:]
            if self.initial is not None and self.initial != h.history[k]:
                continue
            if (self.statuses == later if complete else
                    self.statuses == later[:len(self.statuses)]):
                return
        ctx.violation(
            'status changes of a client are wrong',
            {'client': self.index, 'initial': self.initial,
             'callbacks': self.statuses, 'complete': complete,
             'server status before and while connecting':
             h.history[self.first_min:self.first_max + 1],
             'later': h.history[self.first_max + 1:]})


class Harness:
    pass


class StalledEngine(Engine):
    """Engine which accepts registrations only while its gate is open"""

    def __init__(self, rng, log):
        super().__init__(rng, log)
        self.gate = asyncio.Event()
        self.waiting = 0

    async def register(self, source, events):
        self.waiting += 1
        try:
            await self.gate.wait()
        finally:
            self.waiting -= 1
        return await super().register(source, events)


async def stalled(ctx):
    """Lifecycle events wait for an engine which is busy for a long time"""
    rng = ctx.rng
    server_id = rng.randint(1, 5)
    addr = net.free_addr()
    log = []
    engine = StalledEngine(rng, log)
    server = await hat.event.server.eventer_server.create_eventer_server(
        addr, Backend(), server_id, close_timeout=0.02)
    proxies = []
    clients = []
    try:
        await server.set_status(common.Status.OPERATIONAL, engine)
        count = rng.randint(1, 6)
        connecting = []
        for i in range(count):
            proxy = await net.Proxy(addr, rng).open()
            proxies.append(proxy)
            connecting.append(asyncio.ensure_future(
                eventer.connect(proxy.addr, f'client {i}')))
        busy = rng.random() < 0.5
        if not busy:
            engine.gate.set()
        else:
            await net.until(ctx, lambda: engine.waiting == count,
                            'registration of connected clients')
            await aiorun.warp(rng.choice([2, 20, 100, 400]))
            engine.gate.set()
        clients = await net.finished(ctx, asyncio.gather(*connecting),
                                     'connecting')
        sources = {n: s for s, n in server.get_client_names()}
        ctx.check(sorted(sources) == sorted(f'client {i}'
                                            for i in range(count)),
                  'admitted client is not among client names', sources)

        engine.gate.clear()
        leaving = rng.sample(range(count), rng.randint(1, count))
        for i in leaving:
            if rng.random() < 0.5:
                proxies[i].cut(rng.random() < 0.5)
            else:
                clients[i].close()
        await net.until(ctx, lambda: engine.waiting == len(leaving),
                        'registration of disconnected clients')
        await aiorun.warp(rng.choice([2, 20, 100, 400]))
        engine.gate.set()

        def lifecycle(i):
            return [(s, e.payload.data) for _, s, e in log
                    if e.type == ('event', str(server_id), 'eventer',
                                  f'client {i}')]

        await net.until(
            ctx, lambda: len(log) >= count + len(leaving),
            'lifecycle events of all clients', witness=lambda: log)
        await asyncio.sleep(0.01)
        for i in range(count):
            source = sources[f'client {i}']
            expected = [(source, 'CONNECTED')]
            if i in leaving:
                expected.append((source, 'DISCONNECTED'))
            ctx.check(lifecycle(i) == expected,
                      'lifecycle events after a long wait for engine',
                      {'events': lifecycle(i), 'expected': expected})
            ctx.count('stalled')
            ctx.done(('stalled', busy, i in leaving, count),
                     ('events', [d for _, d in lifecycle(i)]))
        ctx.check(len(log) == count + len(leaving),
                  'more lifecycle events than connections', log)
    finally:
        engine.gate.set()
        for c in clients:
            await c.async_close()
        for p in proxies:
            await p.close()
        await server.async_close()
        await engine.async_close()


async def many(ctx):
    """Source of a connection stays its own however many others follow"""
    rng = ctx.rng
    addr = net.free_addr()
    log = []
    engine = Engine(rng, log)
    server = await hat.event.server.eventer_server.create_eventer_server(
        addr, Backend(), 1, close_timeout=0.02)
    kept = []
    try:
        await server.set_status(common.Status.OPERATIONAL, engine)
        total = rng.choice([300, 600])
        keep = set(rng.sample(range(total), 3)) | {0}
        for i in range(total):
            client = await net.finished(
                ctx, eventer.connect(addr, f'client {i}'), 'connecting')
            if i in keep:
                kept.append(client)
            else:
                await client.async_close()
        names = [(s, n) for s, n in server.get_client_names()
                 if int(n.split()[1]) in keep]
        connected = {e.type[3]: s for _, s, e in log
                     if e.payload.data == 'CONNECTED'}
        ctx.check(len(names) == len(keep), 'admitted client is not among '
                  'client names', names)
        for source, name in names:
            others = [n for n, s in connected.items()
                      if s == source and n != name and
                      int(n.split()[1]) > int(name.split()[1])]
            ctx.check(connected.get(name) == source and not others,
                      'source of a connection is used for another one while '
                      'it is connected', {'client': name, 'source': source,
                                          'others': others})
            ctx.count('kept')
            ctx.done(('many', total), ('client', name, 'of', total))
    finally:
        for c in kept:
            await c.async_close()
        await server.async_close()
        await engine.async_close()


async def case(ctx):
    rng = ctx.rng
    if ctx.case % 300 == 9:
        await many(ctx)
        return
    if ctx.case % 12 == 5:
        await stalled(ctx)
        return
    h = Harness()
    h.ctx = ctx
    h.log = []
    h.history = [common.Status.STANDBY]
    h.shared_running = 0
    h.shared_started = 0
    h.epoch = 0             # changed before and after each transition
    h.engine = None         # engine of a settled operational epoch
    server_id = rng.randint(1, 5)
    token = rng.choice([None, 'token'])
    addr = net.free_addr()
    server = await hat.event.server.eventer_server.create_eventer_server(
        addr, Backend(), server_id, server_token=token, close_timeout=0.02)
    proxy = await net.Proxy(addr, rng).open()
    clients = []
    engines = []

    def now():
        # every moment of a transition is different
        if h.epoch % 2:
            return h.epoch, object()
        return h.epoch, h.engine

    async def change(burst=False):
        """Next status"""
        status = rng.choice([i for i in common.Status
                             if i != common.Status.OPERATIONAL] +
                            [common.Status.OPERATIONAL] * 4)
        engine = None
        old = h.engine
        h.epoch += 1
        h.engine = None
        if old and (status != common.Status.OPERATIONAL or
                    rng.random() < 0.7) and rng.random() < 0.6:
            # engine is usually closed before or while status changes
            old.close()
            if rng.random() < 0.5:
                await asyncio.sleep(0.001)
            await old.wait_closed()
        if status == common.Status.OPERATIONAL:
            engine = Engine(rng, h.log)
            engines.append(engine)
        if status != h.history[-1]:
            h.history.append(status)
            ctx.count('status_changes')
        ctx.log('status', status.name)
        if burst:
            # without giving others an additional chance
            await server.set_status(status, engine)
            ctx.count('bursts')
        else:
            await net.finished(ctx, server.set_status(status, engine),
                               'status change')
        h.engine = engine
        h.epoch += 1

    async def register(c):
        before = now()
        event = common.RegisterEvent(
            ('client', str(c.index), str(len(c.registered))), None, None)
        c.registered.append(event)
        try:
            result = await net.finished(
                ctx, c.client.register([event], True), 'registration')
        except ConnectionError:
            ctx.check(before != now() or c.gone or c.dropped,
                      'registration failed with connection error',
                      {'client': c.index})
            if before != now():
                c.dropped = True
            return
        recorded = [(engine, source) for engine, source, e in h.log
                    if e == event]
        ctx.check(len(recorded) <= 1, 'event was registered more than once',
                  recorded)
        if before == now():
            if before[1]:
                ctx.check(result is not None and
                          [e.type for e in result] == [event.type] and
                          len(recorded) == 1 and recorded[0][0] is before[1],
                          'registration while operational',
                          {'result': result, 'recorded': recorded})
                ctx.count('registered')
            else:
                ctx.check(result is None and not recorded,
                          'registration without operational engine was not '
                          'refused', {'result': result,
                                      'recorded': recorded})
                ctx.count('refused')
        if recorded and c.source:
            ctx.check(recorded[0][1] == c.source,
                      'source of registered event',
                      {'source': recorded[0][1], 'expected': c.source})

    async def leave(c, cut):
        before = now()
        c.gone = True
        ctx.log('leave', c.index, cut)
        if cut:
            cut.cut(rng.random() < 0.5)
        elif rng.random() < 0.5:
            c.client.close()
        else:
            await c.client.async_close()
        if c.source:
            await net.until(
                ctx, lambda: c.source not in {
                    i for i, _ in server.get_client_names()},
                'removal of disconnected client from client names')
        await asyncio.sleep(0.005)
        c.gone_span = before, now()
        await c.client.async_close()
        c.judge_status(False)

    async def not_admitted(index):
        name = f'rejected {index}'
        try:
            if rng.random() < 0.5:
                client = await eventer.connect(addr, name,
                                               client_token='wrong')
            else:
                client = await eventer.connect(
                    addr, name, subscriptions=[('*', 'a')])
        except Exception:
            pass
        else:
            ctx.violation('client is admitted', name)
        ctx.check(not any(i == name for _, i in server.get_client_names()),
                  'rejected client is among client names')
        ctx.count('not_admitted')

    async def life(index):
        for generation in range(rng.randint(1, 3)):
            await aiorun.pause(rng)
            if rng.random() < 0.08:
                await not_admitted((index, generation))
                continue
            unique = rng.random() < 0.9
            name = (f'client {index} {generation}' if unique else 'shared')
            c = Client(h, (index, generation), name)
            own = None
            if rng.random() < 0.3:
                own = await net.Proxy(addr, rng).open()
                own.split, own.delay = 0.3, 0.002
                proxies.append(own)
            if not unique:
                alone = not h.shared_running
                h.shared_running += 1
                h.shared_started += 1
                number = h.shared_started
                listed = list(server.get_client_names())
            before = now()
            c.first_min = len(h.history) - 1
            try:
                client = await net.finished(ctx, eventer.connect(
                    own.addr if own else addr, name,
                    client_token=rng.choice([None, token]),
                    status_cb=c.on_status), 'connecting')
            except (ConnectionError, eventer.EventerInitError):
                # engine closed while connecting
                ctx.check(before != now(), 'client is not admitted')
                if not unique:
                    h.shared_running -= 1
                continue
            c.client = client
            c.first_max = len(h.history) - 1
            c.initial = client.status if not c.statuses else None
            c.connect_span = before, now()
            c.unique = unique
            c.source = None
            if unique:
                sources = [i for i, n in server.get_client_names()
                           if n == name]
                if client.is_open and before == now():
                    ctx.check(len(sources) == 1,
                              'admitted client is not among client names',
                              sources)
                c.source = sources[0] if sources else None
            else:
                h.shared_running -= 1
                sources = [i for i in server.get_client_names()
                           if i not in listed and i[1] == name]
                # source is known if nobody else could have caused it
                if (alone and number == h.shared_started and
                        len(sources) == 1):
                    c.source = sources[0][0]
                    ctx.count('shared')
            clients.append(c)
            ctx.count('clients')
            ctx.log('connected', c.index, name, c.source)
            for _ in range(rng.randint(0, 3)):
                await aiorun.pause(rng)
                if rng.random() < 0.5:
                    await register(c)
            k = rng.random()
            if index == 0 and k < 0.7:
                return
            if k < 0.3:
                continue
            await leave(c, own if k < 0.5 else None)

    proxies = []

    async def controller():
        for _ in range(rng.randint(1, 6)):
            await change()
            if rng.random() < 0.3:
                await change(True)
                await change(True)
            await asyncio.sleep(rng.random() * rng.choice([0.001, 0.02]))

    try:
        for turn in range(rng.randint(1, 2)):
            await net.finished(ctx, asyncio.gather(
                controller(), *(life(turn * 100 + i) for i in range(rng.randint(1, 6)))),
                'connecting of clients and status changes', 60)

            # nothing happens now
            def expected():
                return sorted(c.name for c in clients
                              if not c.gone and c.client.is_open)

            def listed():
                return sorted(n for _, n in server.get_client_names())

            await net.until(
                ctx, lambda: listed() == expected(),
                'agreement of client names with current connections',
                witness=lambda: {'listed': listed(),
                                 'connected': expected()})
            sources = [i for i, _ in server.get_client_names()]
            ctx.check(len(set(sources)) == len(sources) and
                      all(i.type == common.SourceType.EVENTER
                          for i in sources),
                      'sources of clients are not unique', sources)
            ctx.count('quiescent')
            for c in clients:
                if c.gone or not c.client.is_open:
                    continue
                await net.until(
                    ctx, lambda: c.client.status == h.history[-1] and
                    not c.running, 'convergence of client status',
                    witness=lambda: {'client': c.client.status,
                                     'server': h.history[-1]})
                await net.finished(
                    ctx, c.client.query(common.QueryLatestParams([])),
                    'query')
                c.judge_status(True)

        for c in clients:
            if not c.gone and rng.random() < 0.5:
                await leave(c, None)
        await asyncio.sleep(0.01)
        judge(ctx, h, clients, server_id)
    finally:
        for c in clients:
            await c.client.async_close()
        for p in [proxy, *proxies]:
            await p.close()
        await server.async_close()
        for e in engines:
            await e.async_close()


def judge(ctx, h, clients, server_id):
    by_name = {}
    by_source = {}
    for engine, source, e in h.log:
        if e.type[0] != 'event':
            continue
        ctx.check(source.type == common.SourceType.EVENTER and
                  e.type[:3] == ('event', str(server_id), 'eventer') and
                  len(e.type) == 4 and e.source_timestamp is None and
                  isinstance(e.payload, common.EventPayloadJson) and
                  e.payload.data in ('CONNECTED', 'DISCONNECTED'),
                  'lifecycle event', (source, e))
        by_name.setdefault(e.type[3], []).append(
            (engine, source, e.payload.data))
        by_source.setdefault(source, []).append((e.type[3], e.payload.data))
        ctx.count('connected_events' if e.payload.data == 'CONNECTED' else
                  'disconnected_events')

    for source, events in by_source.items():
        ctx.check(len({n for n, _ in events}) == 1 and
                  [d for _, d in events] in (
                      ['CONNECTED'], ['DISCONNECTED'],
                      ['CONNECTED', 'DISCONNECTED']),
                  'lifecycle events of one connection',
                  {'source': source, 'events': events})
    for name in by_name:
        ctx.check(not name.startswith('rejected'),
                  'lifecycle event of a client that was not admitted', name)

    for c in clients:
        events = by_name.get(c.name, [])
        if not c.unique:
            if not c.source:
                continue
            events = [i for i in events if i[1] == c.source]
        connected = [i for i in events if i[2] == 'CONNECTED']
        disconnected = [i for i in events if i[2] == 'DISCONNECTED']
        witness = {'client': c.index, 'source': c.source, 'events': events}
        ctx.check(len(connected) <= 1 and len(disconnected) <= 1 and
                  len({i[1] for i in events}) <= 1,
                  'more lifecycle events than connections', witness)
        if c.source and events:
            ctx.check(events[0][1] == c.source, 'source of lifecycle event',
                      witness)
        (a, engine), b = c.connect_span
        steady = (a, engine) == b
        if steady and engine:
            ctx.check(len(connected) == 1 and connected[0][0] is engine,
                      'CONNECTED of an admitted client is missing', witness)
        elif steady:
            ctx.check(not connected,
                      'CONNECTED while there was no operational engine',
                      witness)
        else:
            ctx.count('midstream')
        if c.gone_span and not c.dropped:
            (a, engine), b = c.gone_span
            if (a, engine) == b:
                if engine:
                    ctx.check(len(disconnected) == 1 and
                              disconnected[0][0] is engine,
                              'DISCONNECTED of a client is missing', witness)
                else:
                    ctx.check(not disconnected, 'DISCONNECTED while there '
                              'was no operational engine', witness)
            else:
                ctx.count('midstream')
        elif c.client.is_open:
            ctx.check(not disconnected,
                      'DISCONNECTED of a connected client', witness)
        ctx.done((bool(connected), bool(disconnected), steady,
                  c.initial, tuple(c.statuses), bool(c.gone_span))
                 if events or c.statuses else None,
                 ('events', [i[2] for i in events], 'statuses',
                  [i.name for i in c.statuses]))


def run_case(ctx):
    aiorun.run(ctx, case)
