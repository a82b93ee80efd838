"""C06: acknowledged notifications."""

import asyncio

from hat.event import common
from hat.event import eventer

from rt import aiorun
from rt import gen
from rt import model
from rt import net
from rt import storage

LEVEL = 'exploration'
RULE = ('a real eventer server on loopback sends overlapping acknowledged '
        'notifications to real clients with slow, stalled and failing '
        'callbacks, which close or get cut off at random times, while '
        'others issue requests. The moment a notification completes, every '
        'addressed client has to have finished its callback for it or be '
        'gone, it has to complete once that is so, and it reaches all others '
        'while one of them is stalled. An evaluation is one '
        'acknowledged notification, non-trivial if it addressed clients, '
        'distinct by addressed clients, fates and timing order')
TIERS = {'quick': {'cases': 704, 'time': 45},
         'thorough': {'cases': 20000, 'time': 400}}
REQUIRE = {'notifications': 1000, 'addressed': 2000, 'gone_while_waiting': 50,
           'other_gone_while_waiting': 50, 'overlapping': 300,
           'long_held': 20, 'abandoned': 50, 'connected_at_end': 100, 'not_behind': 300}


class Client:

    def __init__(self, ctx, h, index, addr):
        rng = ctx.rng
        self.ctx = ctx
        self.h = h
        self.index = index
        self.addr = addr
        self.persisted = rng.random() < 0.8
        self.server_id = rng.choice([None, None, *h.source.servers])
        self.subscriptions = ([('*', )] if rng.random() < 0.6 else
                              gen.query_types(rng, 2))
        self.slow = rng.choice([0, 0.001, 0.01, 0.03])
        self.fails = rng.random() < 0.08
        self.finished = set()     # first event ids of handled notifications
        self.gone = False
        self.connected = False
        self.hold = None
        self.cuts = 0

    def matches(self, batch):
        return [e for e in batch
                if model.matches_any(e.type, self.subscriptions) and
                (self.server_id is None or e.id.server == self.server_id)]

    async def on_events(self, client, events):
        rng = self.ctx.rng
        if self.slow:
            await asyncio.sleep(rng.random() * self.slow)
        if self.hold:
            await self.hold.wait()
        if self.fails and rng.random() < 0.2:
            self.gone = True
            self.ctx.count('failed_callbacks')
            raise Exception('callback failed')
        self.finished.add(events[0].id)

    async def connect(self):
        self.client = await eventer.connect(
            self.addr, f'{self.index}', subscriptions=self.subscriptions,
            server_id=self.server_id, persisted=self.persisted,
            events_cb=self.on_events)
        self.connected = True
        self.ctx.log('connected', self.index, self.persisted, self.server_id,
                     self.subscriptions, 'slow', self.slow)


async def case(ctx):
    rng = ctx.rng

    class h:
        source = storage.Source(rng, servers=rng.randint(1, 2), max_batch=3,
                                payloads=lambda rng: None)
        clients = []

    addr = net.free_addr()

    async def register_cb(info, events):
        if rng.random() < 0.5:
            await asyncio.sleep(rng.random() * 0.005)
        return None

    server = await eventer.listen(addr, register_cb=register_cb)
    proxies = []
    running = set()
    waiting = {}
    stop = False

    async def notify(number, batch, persisted):
        addressed = [c for c in h.clients
                     if c.connected and not c.gone and
                     c.persisted == persisted and c.matches(batch)]
        others = [c for c in h.clients if c not in addressed]
        gone_before = {c.index for c in h.clients if c.gone}
        if running:
            ctx.count('overlapping')
        running.add(number)
        waiting[number] = batch, addressed
        ctx.log('notify', number, persisted, [c.index for c in addressed])
        await server.notify_events(batch, persisted, True)
        running.discard(number)
        ctx.log('notify done', number)
        fates = []
        for c in addressed:
            handled = c.matches(batch)[0].id in c.finished
            fates.append((c.index, handled, c.gone))
            if handled:
                continue
            if c.gone:
                ctx.count('gone_while_waiting')
                continue
            ctx.violation(
                'acknowledged notification completed before a connected '
                'client handled it',
                {'client': c.index, 'notification': number,
                 'addressed': [i.index for i in addressed],
                 'disconnected meanwhile': [
                     i.index for i in h.clients
                     if i.gone and i.index not in gone_before]})
        ctx.count('notifications')
        ctx.count('addressed', len(addressed))
        if any(c.gone and c.index not in gone_before for c in others):
            ctx.count('other_gone_while_waiting')
        ctx.done((fates, len(running)) if addressed else None,
                 ('addressed', fates))

    tasks = []

    async def finished(task):
        await asyncio.wait([task])
        if not task.cancelled():
            task.result()

    async def notifier():
        number = 0
        while not stop and number < 60:
            await aiorun.pause(rng)
            number += 1
            batch = h.source.batch()
            persisted = rng.random() < 0.8
            task = asyncio.ensure_future(notify(number, batch, persisted))
            tasks.append(task)
            if rng.random() < 0.4:
                await asyncio.wait([task], timeout=0.02)
            if rng.random() < 0.05 and not task.done():
                # nobody waits for it any more
                ctx.log('abandoned', number)
                ctx.count('abandoned')
                running.discard(number)
                task.cancel()

    async def life(index):
        for generation in range(rng.randint(1, 3)):
            await aiorun.pause(rng)
            if rng.random() < 0.4:
                proxy = await net.Proxy(addr, rng).open()
                proxies.append(proxy)
                c = Client(ctx, h, (index, generation), proxy.addr)
            else:
                proxy = None
                c = Client(ctx, h, (index, generation), addr)
            # known from now on, callbacks may run before connect returns
            h.clients.append(c)
            await c.connect()
            if index == 0 and generation == 0:
                # releases at the end or disconnects
                c.hold = asyncio.Event()
                h.held = c
            await asyncio.sleep(rng.random() * 0.05)
            if not c.client.is_open:
                c.gone = True
            if rng.random() < 0.3:
                try:
                    await c.client.register([], index and
                                            rng.random() < 0.5)
                except ConnectionError:
                    pass
            if index == 0:
                return
            k = rng.random()
            if k < 0.3:
                continue
            c.gone = True
            ctx.log('gone', c.index)
            ctx.count('disconnected')
            if proxy and k < 0.7:
                proxy.cut(rng.random() < 0.5)
                await asyncio.sleep(0.001)
                await c.client.async_close()
            elif k < 0.5:
                c.client.close()
            else:
                await c.client.async_close()

    h.held = None
    run = asyncio.ensure_future(notifier())
    try:
        await net.finished(ctx, asyncio.gather(
            *(life(i) for i in range(rng.randint(2, 6)))), 'connecting', 60)
        stop = True
        await run

        # stalled client blocks only while it is connected
        await asyncio.sleep(0.01)
        if h.held and not h.held.gone:

            def behind():
                return [(number, c.index) for number in running
                        for batch, addressed in [waiting[number]]
                        for c in addressed
                        if c is not h.held and not c.gone and
                        c.client.is_open and
                        c.matches(batch)[0].id not in c.finished]

            await net.until(
                ctx, lambda: not behind(), 'notification of other clients '
                'while callback of one takes long', witness=behind)
            ctx.count('not_behind', len(running))
            if rng.random() < 0.1:
                # callback takes really long
                await aiorun.warp(rng.choice([20, 100, 400]))
                ctx.count('long_held', len(running))
                if not h.held.client.is_open:
                    ctx.violation('client whose callback takes long is '
                                  'disconnected', {'client': h.held.index})
            if rng.random() < 0.5:
                h.held.hold.set()
                ctx.log('released', h.held.index)
            else:
                h.held.gone = True
                ctx.log('stalled client leaves', h.held.index)
                h.held.client.close()

        await net.finished(
            ctx, asyncio.gather(*(finished(i) for i in tasks)),
            'acknowledged notifications, though all clients finished their '
            'callbacks or disconnected,', 30,
            lambda: {'pending': sorted(running)})
        for c in h.clients:
            if c.connected and not c.gone and not c.fails:
                ctx.check(c.client.is_open, 'client is disconnected',
                          {'client': c.index})
                await net.finished(ctx, c.client.query(
                    common.QueryLatestParams()), 'query')
                ctx.count('connected_at_end')
    finally:
        stop = True
        for c in h.clients:
            if c.hold:
                c.hold.set()
            if c.connected:
                await c.client.async_close()
        for p in proxies:
            await p.close()
        await server.async_close()
        for t in [run, *tasks]:
            t.cancel()
        await asyncio.gather(run, *tasks, return_exceptions=True)


def run_case(ctx):
    aiorun.run(ctx, case)
