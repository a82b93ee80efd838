"""C04: live notifications of eventer clients."""

import asyncio

from hat.event import common
from hat.event import eventer

from rt import aiorun
from rt import gen
from rt import model
from rt import net
from rt import storage

LEVEL = 'exploration'
RULE = ('a real eventer server on loopback notifies random batches of '
        'events in both modes, with and without acknowledgement, while many '
        'real clients with random subscriptions, server id filters and modes '
        'connect, stall in callbacks and disconnect (also abruptly, through '
        'a splitting and delaying proxy). What every client got is compared '
        'with what its filter selects of the batches notified while it was '
        'connected. An evaluation is one client connection, non-trivial if '
        'it got events and others were filtered out, distinct by filter and '
        'received sequence')
TIERS = {'quick': {'cases': 960, 'time': 45},
         'thorough': {'cases': 20000, 'time': 400}}
REQUIRE = {'clients': 500, 'notifications': 2000, 'filtered_batches': 1000,
           'joined_midstream': 100, 'partial_batches': 300,
           'large_batches': 5}


class Client:
    """Client together with what it received"""

    def __init__(self, ctx, h, index):
        rng = ctx.rng
        self.ctx = ctx
        self.h = h
        self.index = index
        self.subscriptions = (gen.query_types(rng, 3) if rng.random() < 0.85
                              else [('*', )])
        self.server_id = rng.choice([None, None, None, *h.source.servers])
        self.persisted = rng.random() < 0.5
        self.slow = rng.choice([0, 0, 0, 0.002, 0.01])
        self.name = rng.choice([f'client {index}', 'client'])
        self.received = []
        self.running = 0
        self.hold = None
        self.first_max = None
        self.end = None

    def expected(self, batch):
        return [e for e in batch
                if model.matches_any(e.type, self.subscriptions) and
                (self.server_id is None or e.id.server == self.server_id)]

    async def on_events(self, client, events):
        self.running += 1
        self.ctx.check(self.running == 1,
                       'events callback is called before previous finished')
        self.received.append(list(events))
        self.ctx.count('notifications')
        if self.hold:
            await self.hold.wait()
        if self.slow:
            await asyncio.sleep(self.ctx.rng.random() * self.slow)
        self.running -= 1

    async def connect(self, addr):
        self.first_min = len(self.h.batches[self.persisted])
        self.ctx.log('connect', self.index, self.subscriptions,
                     self.server_id, self.persisted)
        self.client = await eventer.connect(
            addr, self.name, subscriptions=self.subscriptions,
            server_id=self.server_id, persisted=self.persisted,
            events_cb=self.on_events)
        self.first_max = len(self.h.batches[self.persisted])
        self.ctx.count('clients')
        if self.first_max:
            self.ctx.count('joined_midstream')

    async def fence(self):
        await net.finished(
            self.ctx, self.client.query(common.QueryLatestParams([])),
            f'query of client {self.index}')

    def judge(self, complete):
        batches = self.h.batches[self.persisted]
        # some batch after connecting has to be the first one
        for first in range(self.first_min, self.first_max + 1):
            seq = [e for e in map(self.expected, batches[first:]) if e]
            if complete and seq == self.received:
                break
            if not complete and seq[:len(self.received)] == self.received:
                break
        else:
            self.ctx.violation(
                'client received wrong notifications',
                {'client': (self.index, self.subscriptions, self.server_id,
                            self.persisted),
                 'received': self.received,
                 'expected after connecting': [
                     e for e in map(self.expected, batches[self.first_max:])
                     if e],
                 'complete': complete,
                 'connected between batches': (self.first_min,
                                               self.first_max)})
        dropped = sum(len(b) - len(self.expected(b))
                      for b in batches[first:])
        self.ctx.count('filtered_batches',
                       sum(not self.expected(b) for b in batches[first:]))
        self.ctx.count('partial_batches', sum(
            0 < len(self.expected(b)) < len(b) for b in batches[first:]))
        self.ctx.done(
            (self.subscriptions, self.server_id, self.persisted,
             [[e.id for e in b] for b in self.received])
            if self.received and dropped else None,
            (self.subscriptions, self.server_id, self.persisted,
             [len(i) for i in self.received], 'dropped', dropped))


class Harness:
    pass


async def case(ctx):
    rng = ctx.rng
    h = Harness()
    h.source = storage.Source(rng, servers=rng.randint(1, 3),
                              max_batch=rng.choice([1, 3, 6]))
    h.batches = {False: [], True: []}
    addr = net.free_addr()

    async def query_cb(info, params):
        return common.QueryResult([], False)

    server = await eventer.listen(addr, query_cb=query_cb)
    proxy = await net.Proxy(addr, rng).open()
    proxy.split = 0.3
    proxy.delay = 0.003
    holding = rng.random() < 0.2
    large = [0] if rng.random() < 0.03 else []
    release = asyncio.Event()
    clients = []
    try:
        stop = False
        held_modes = set()

        async def notifier(persisted):
            while not stop:
                await aiorun.pause(rng)
                if large and rng.random() < 0.1 and len(large) < 3:
                    # session of many events
                    n, h.source.max_batch = h.source.max_batch, 4000
                    batch = h.source.batch()
                    h.source.max_batch = n
                    large.append(len(batch))
                    ctx.count('large_batches')
                else:
                    batch = (h.source.batch() if rng.random() < 0.95 else [])
                with_ack = rng.random() < 0.3 and persisted not in held_modes
                ctx.log('notify', persisted, with_ack,
                        batch if len(batch) < 100 else len(batch))
                h.batches[persisted].append(batch)
                await server.notify_events(batch, persisted, with_ack)
                ctx.count('batches')

        async def client_life(index):
            for generation in range(rng.randint(1, 3)):
                await aiorun.pause(rng)
                c = Client(ctx, h, (index, generation))
                if holding and index == 0:
                    # stalled until the end
                    c.hold = release
                    held_modes.add(c.persisted)
                    await asyncio.sleep(0.005)
                await c.connect(proxy.addr if rng.random() < 0.3 else addr)
                clients.append(c)
                if c.hold:
                    return
                if rng.random() < 0.6:
                    await asyncio.sleep(rng.random() * 0.03)
                if generation or rng.random() < 0.5:
                    continue
                if rng.random() < 0.4:
                    await c.fence()
                    # what was notified before the request is there
                c.end = True
                ctx.log('close', c.index)
                await c.client.async_close()
                c.judge(False)

        notifiers = [asyncio.ensure_future(notifier(False)),
                     asyncio.ensure_future(notifier(True))]
        await net.finished(
            ctx, asyncio.gather(*(client_life(i)
                                  for i in range(rng.randint(1, 6)))),
            'connecting of clients', 60)
        await asyncio.sleep(rng.random() * 0.02)
        stop = True
        await net.finished(ctx, asyncio.gather(*notifiers),
                           'notifying of events', 60)

        if holding:
            ctx.count('stalled_clients')
        for c in clients:
            if c.end or c.hold:
                continue
            await c.fence()
            c.judge(True)
        release.set()
        for c in clients:
            if c.hold:
                await c.fence()
                c.judge(True)
        ctx.equal(len(server.get_conn_infos()),
                  sum(not c.end for c in clients),
                  'number of connections')
        for c in clients:
            if not c.end:
                await c.client.async_close()
    finally:
        release.set()
        await proxy.close()
        await server.async_close()


def run_case(ctx):
    aiorun.run(ctx, case)
