"""C07: admission of clients and hostile peers."""

import asyncio
import contextlib
import itertools
import os
import struct

from hat import aio
from hat.drivers import chatter
from hat.event import common
from hat.event import eventer
import hat.event.server.eventer_server

from rt import aiorun
from rt import gen
from rt import net
from rt import storage

LEVEL = 'exploration'
RULE = ('a real eventer server component (with in-memory storage and a '
        'recording engine) on loopback serves well-behaved clients while '
        'peers with right, wrong and absent tokens connect and hostile peers '
        'send garbage bytes, malformed, unexpected, out of order and '
        'truncated messages before, during and after initialization. An '
        'evaluation is one peer, non-trivial if it was hostile or had a '
        'token, distinct by kind of attack, phase and contents')
TIERS = {'quick': {'cases': 1056, 'time': 45},
         'thorough': {'cases': 20000, 'time': 400}}
REQUIRE = {'admitted': 60, 'rejected': 200, 'hostile': 1000,
           'hostile_closed': 500, 'good_requests': 1000,
           'good_notifications': 500}


class Engine(aio.Resource):
    """Recording engine"""

    def __init__(self, backend):
        self.backend = backend
        self.group = aio.Group()
        self.registered = []
        self.session = 0

    @property
    def async_group(self):
        return self.group

    async def register(self, source, events):
        self.registered.append((source, list(events)))
        self.session += 1
        t = common.now()
        result = [common.Event(common.EventId(1, self.session, i + 1), e.type,
                               t, e.source_timestamp, e.payload)
                  for i, e in enumerate(events)]
        await self.backend.register(result)
        return result


async def create_backend():
    info = common.import_backend_info('hat.event.backends.memory')
    return await aio.call(info.create, {}, None, None)


def gen_message(rng):
    """Message which is well formed, but may be out of place"""
    k = rng.choice(['HatEventer.MsgInitReq', 'HatEventer.MsgInitRes',
                    'HatEventer.MsgStatusNotify',
                    'HatEventer.MsgEventsNotify', 'HatEventer.MsgEventsAck',
                    'HatEventer.MsgRegisterRes', 'HatEventer.MsgQueryRes',
                    'HatEventer.Timestamp', 'HatEventer.MsgNone'])
    data = {'HatEventer.MsgInitReq': {
                'clientName': 'again', 'clientToken': ('none', None),
                'subscriptions': [], 'serverId': ('none', None),
                'persisted': False},
            'HatEventer.MsgInitRes': ('error', 'x'),
            'HatEventer.MsgStatusNotify': ('standby', None),
            'HatEventer.MsgEventsNotify': [],
            'HatEventer.MsgEventsAck': None,
            'HatEventer.MsgRegisterRes': ('failure', None),
            'HatEventer.MsgQueryRes': {'events': [], 'moreFollows': False},
            'HatEventer.Timestamp': {'s': 1, 'us': 2}}.get(k)
    return k, (common.sbs_repo.encode(k, data) if data is not None or
               k == 'HatEventer.MsgEventsAck' else b'')


def malformed(rng):
    """Message of valid type with data that can not be decoded"""
    k = rng.choice(['HatEventer.MsgInitReq', 'HatEventer.MsgRegisterReq',
                    'HatEventer.MsgQueryReq'])
    if k == 'HatEventer.MsgRegisterReq':
        # claims more items then there are
        n = rng.choice([1, 5, 1000])
        return k, common.sbs_repo.encode('HatEventer.MsgRegisterReq', [
            common.register_event_to_sbs(common.RegisterEvent(
                ('a', ), None, None))] * 3)[:-n or None][:rng.randint(1, 5)]
    if k == 'HatEventer.MsgQueryReq':
        data = common.sbs_repo.encode(k, common.query_params_to_sbs(
            common.QueryTimeseriesParams([('a', 'b')])))
        return k, data[:rng.randint(0, len(data) - 1)]
    data = common.sbs_repo.encode(k, {
        'clientName': 'malformed', 'clientToken': ('none', None),
        'subscriptions': [['a']], 'serverId': ('none', None),
        'persisted': False})
    return k, data[:rng.randint(0, len(data) - 1)]


async def case(ctx):
    rng = ctx.rng
    addr = net.free_addr()
    token = rng.choice([None, 'token', '', 'ž' * 5])
    backend = await create_backend()
    engine = Engine(backend)
    server = await hat.event.server.eventer_server.create_eventer_server(
        addr, backend, 1, server_token=token, close_timeout=0.05)
    operational = rng.random() < 0.8
    if operational:
        await server.set_status(common.Status.OPERATIONAL, engine)
    numbers = itertools.count()
    admitted = set()
    stop = asyncio.Event()
    registered = []     # by good clients
    allowed = []        # registrations of peers that were admitted
    notified = []

    async def good(index):
        """Client whose service must not be disturbed"""
        received = []

        async def events_cb(client, events):
            received.append(list(events))
            ctx.count('good_notifications')

        name = f'good {index}'
        first_min = len(notified)
        client = await eventer.connect(
            addr, name, client_token=rng.choice([None, token]),
            subscriptions=[('*', )], events_cb=events_cb)
        admitted.add(name)
        first_max = len(notified)
        number = 0
        while not stop.is_set() or number < 3:
            number += 1
            event = common.RegisterEvent(
                ('good', str(index), str(number)), None, gen.payload(rng))
            registered.append(event)
            result = await net.finished(
                ctx, client.register([event], True),
                'registration of a well-behaved client')
            ctx.count('good_requests')
            if not operational:
                ctx.check(result is None, 'registration without engine')
                continue
            ctx.check(result is not None and len(result) == 1 and
                      result[0].type == event.type,
                      'registration of a well-behaved client failed', result)
            result = await net.finished(
                ctx, client.query(common.QueryLatestParams([event.type])),
                'query of a well-behaved client')
            ctx.check(len(result.events) == 1, 'query of a well-behaved '
                      'client failed', result)
        # everything was notified before this query
        await net.finished(ctx, asyncio.shield(run), 'notifying')
        await net.finished(ctx, client.query(common.QueryLatestParams([])),
                           'query of a well-behaved client')
        ctx.check(any(received == [b for b in notified[i:] if b]
                      for i in range(first_min, first_max + 1)),
                  'notifications of a well-behaved client are disturbed',
                  lambda: {'received': received,
                           'notified': notified[first_min:],
                           'after connecting': notified[first_max:]})
        ctx.check(client.is_open, 'connection of a well-behaved client was '
                  'closed')
        return client

    async def notifier():
        source = storage.Source(rng, max_batch=2)
        while not stop.is_set():
            await asyncio.sleep(0.003)
            batch = source.batch()
            notified.append(batch)
            await server.notify_events(batch, False, rng.random() < 0.5)

    async def peer_with_token():
        wrong = rng.choice(['token', '', 'Token', 'token ', 'x', 'tokentoken',
                            'ž' * 5, None, token])
        name = f'peer {next(numbers)}'
        received = []

        async def events_cb(client, events):
            received.append(events)

        ctx.log('token', wrong, 'configured', token)
        try:
            client = await net.finished(ctx, eventer.connect(
                addr, name, client_token=wrong, subscriptions=[('*', )],
                events_cb=events_cb), 'connecting')
        except eventer.EventerInitError:
            ctx.check(wrong is not None and wrong != token,
                      'client with right token is rejected',
                      {'token': wrong, 'configured': token})
            ctx.check(not received, 'rejected client was notified')
            ctx.check(name not in {i for _, i in server.get_client_names()},
                      'rejected client is listed')
            ctx.count('rejected')
        else:
            ctx.check(wrong is None or wrong == token,
                      'client with wrong token is admitted',
                      {'token': wrong, 'configured': token})
            ctx.check(name in {i for _, i in server.get_client_names()},
                      'admitted client is not listed')
            ctx.count('admitted')
            event = common.RegisterEvent((name, ), None, None)
            allowed.append(event)
            result = await net.finished(
                ctx, client.register([event], True), 'registration')
            ctx.check((result is not None) == operational,
                      'registration of admitted client', result)
            await client.async_close()
            await net.until(
                ctx, lambda: name not in {
                    i for _, i in server.get_client_names()},
                'removal of disconnected client')
        ctx.done((wrong, token) if wrong is not None else None,
                 ('token', wrong, 'configured', token))

    async def rejected_raw():
        """Peer which ignores rejection"""
        name = f'peer {next(numbers)}'
        peer = await net.RawPeer.open(addr)
        wrong = (token or '') + 'x'
        _, msg, msg_type, data = await peer.init(name, wrong, [('*', )])
        ctx.check(msg_type == 'HatEventer.MsgInitRes' and data[0] == 'error',
                  'peer with wrong token is not rejected', data)
        with contextlib.suppress(ConnectionError):
            await peer.send('HatEventer.MsgRegisterReq', [
                common.register_event_to_sbs(common.RegisterEvent(
                    ('evil', ), None, None))], last=False)
            await peer.send('HatEventer.MsgQueryReq',
                            common.query_params_to_sbs(
                                common.QueryLatestParams()), last=False)
            while True:
                _, msg_type, _ = await net.finished(
                    ctx, peer.receive(), 'closing of rejected peer')
                ctx.violation('rejected peer received message',
                              {'type': msg_type})
        ctx.count('rejected')
        ctx.count('hostile')
        ctx.count('hostile_closed')
        ctx.done(('raw', wrong, token))
        await peer.close()

    async def hostile_bytes():
        k = rng.randint(0, 5)
        if k == 0:
            data = rng.randbytes(rng.choice([1, 2, 10, 100, 5000]))
        elif k == 1:
            data = bytes([rng.choice([0, 255, 8, 4])]) + rng.randbytes(20)
        elif k == 2:
            data = b'GET / HTTP/1.1\r\n\r\n'
        elif k == 3:
            # claims to be long
            data = b'\x08' + struct.pack('>Q', rng.choice(
                [1 << 20, 1 << 40, 1 << 62])) + b'x' * 50
        elif k == 4:
            n = rng.randint(0, 50)
            data = bytes([1, n]) + rng.randbytes(n)
        else:
            data = b'\x00' * rng.randint(1, 100)
        ctx.log('bytes', data[:50])
        reader, writer = await asyncio.open_connection(addr.host, addr.port)
        writer.write(data)
        with contextlib.suppress(Exception):
            await asyncio.wait_for(reader.read(10), 0.01)
        if rng.random() < 0.5:
            writer.transport.abort()
        else:
            writer.close()
        ctx.count('hostile')
        ctx.done(('bytes', data))

    async def hostile_messages():
        peer = await net.RawPeer.open(addr)
        initialized = rng.random() < 0.6
        name = f'peer {next(numbers)}'
        try:
            if initialized:
                _, _, msg_type, data = await peer.init(
                    name, rng.choice([None, token]), [('*', )])
                ctx.check(data[0] == 'success', 'init response', data)
                if rng.random() < 0.3:
                    event = common.RegisterEvent((name, ), None, None)
                    allowed.append(event)
                    await peer.send('HatEventer.MsgRegisterReq', [
                        common.register_event_to_sbs(event)])
            k = rng.randint(0, 3)
            if k == 0:
                msg_type, data = gen_message(rng)
            elif k == 1:
                msg_type, data = malformed(rng)
            elif k == 2:
                msg_type = rng.choice(['', 'Nothing', 'HatEventer', 'ž',
                                       'HatEventer.Nothing', 'HatChatter.Msg',
                                       'x' * 1000])
                data = rng.randbytes(rng.randint(0, 20))
            else:
                msg_type = rng.choice(['HatEventer.MsgInitReq',
                                       'HatEventer.MsgRegisterReq',
                                       'HatEventer.MsgQueryReq'])
                data = rng.randbytes(rng.randint(0, 50))
            fatal = True
            try:
                decoded = common.sbs_repo.decode(msg_type, data)
            except Exception:
                pass
            else:
                if msg_type == 'HatEventer.MsgEventsAck' and initialized:
                    fatal = False
                elif not initialized and msg_type == 'HatEventer.MsgInitReq':
                    # not hostile after all
                    fatal = False
                elif initialized and msg_type in (
                        'HatEventer.MsgRegisterReq',
                        'HatEventer.MsgQueryReq'):
                    fatal = False
                    if msg_type == 'HatEventer.MsgRegisterReq':
                        with contextlib.suppress(Exception):
                            allowed.extend(
                                common.register_event_from_sbs(i)
                                for i in decoded)
            ctx.log('message', initialized, msg_type, data, 'fatal', fatal)
            await peer.send_bytes(msg_type, data, last=rng.random() < 0.5)
            if fatal:
                async def closed():
                    with contextlib.suppress(ConnectionError):
                        while True:
                            await peer.conn.receive()

                await net.finished(
                    ctx, closed(), 'closing of connection with hostile peer',
                    30, lambda: {'initialized': initialized,
                                 'type': msg_type, 'data': data})
                ctx.count('hostile_closed')
        except ConnectionError:
            pass
        ctx.count('hostile')
        ctx.done(('message', initialized, msg_type, bytes(data)),
                 ('message', 'initialized', initialized, msg_type,
                  bytes(data)))
        await peer.close()

    async def hostile_init():
        """Initialization with invalid contents"""
        peer = await net.RawPeer.open(addr)
        name = f'peer {next(numbers)}'
        subscriptions = rng.choice([[['*', 'a']], [['a'], ['a', '*', '?']],
                                    [['*', '*']]])
        _, msg, msg_type, data = await peer.init(name, None, subscriptions)
        ctx.check(msg_type == 'HatEventer.MsgInitRes' and data[0] == 'error',
                  'peer with invalid subscription is not rejected', data)
        ctx.check(name not in {i for _, i in server.get_client_names()},
                  'rejected client is listed')
        ctx.count('hostile')
        ctx.count('rejected')
        ctx.done(('init', subscriptions))
        if rng.random() < 0.5:
            with contextlib.suppress(ConnectionError):
                await net.finished(ctx, peer.receive(),
                                   'closing of rejected peer')
                ctx.violation('rejected peer received message')
        await peer.close()

    async def truncated():
        """Valid conversation cut at any byte"""
        proxy = await net.Proxy(addr, rng).open()
        proxy.limits['up'] = rng.randint(1, 150)
        name = f'peer {next(numbers)}'
        event = common.RegisterEvent((name, ), None, None)
        allowed.append(event)
        try:
            client = await eventer.connect(proxy.addr, name)
            try:
                await client.register([event], True)
            finally:
                await client.async_close()
        except ConnectionError:
            pass
        ctx.count('hostile')
        ctx.done(('truncated', proxy.bytes['up']))
        await proxy.close()

    async def attacker():
        for _ in range(rng.randint(1, 6)):
            await aiorun.pause(rng)
            await rng.choice([peer_with_token, peer_with_token, rejected_raw,
                              hostile_bytes, hostile_messages,
                              hostile_messages, hostile_messages,
                              hostile_init, truncated])()

    run = asyncio.ensure_future(notifier())
    try:
        goods = [asyncio.ensure_future(good(i)) for i in range(2)]
        await asyncio.sleep(0.005)
        await net.finished(ctx, asyncio.gather(
            *(attacker() for _ in range(rng.randint(1, 3)))), 'attacks', 60)
        stop.set()
        await net.finished(ctx, run, 'notifying')
        clients = await net.finished(ctx, asyncio.gather(*goods),
                                     'well-behaved clients')

        # still admits others
        client = await net.finished(ctx, eventer.connect(addr, 'late'),
                                    'connecting after attacks')
        admitted.add('late')
        await net.until(
            ctx, lambda: sorted(i for _, i in server.get_client_names()) ==
            sorted(admitted), 'list of clients without ended connections',
            witness=lambda: {
                'listed': sorted(i for _, i in server.get_client_names()),
                'connected': sorted(admitted)})
        ctx.check(server.is_open, 'server was closed')

        # only what admitted clients sent was registered
        for source, events in engine.registered:
            for e in events:
                if e.type[:3] == ('event', '1', 'eventer'):
                    continue
                ctx.check(e in registered or e in allowed,
                          'event of a rejected or hostile peer was '
                          'registered', e)
        if operational:
            got = [e for _, events in engine.registered for e in events]
            for e in registered:
                ctx.check(got.count(e) == 1, 'event of a well-behaved client '
                          'was not registered exactly once', e)
        for i in [client, *clients]:
            await i.async_close()
    finally:
        stop.set()
        await server.async_close()
        await engine.async_close()
        await backend.async_close()
        run.cancel()
        await asyncio.gather(run, return_exceptions=True)


def run_case(ctx):
    aiorun.run(ctx, case)
