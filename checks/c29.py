"""C29: unusable values sent by one client harm nobody else."""

import asyncio
import json
import logging
import traceback

from hat.event import common
from hat.event import eventer
from hat.event.backends.lmdb import backend as lmdb_backend
import hat.event.server.main_runner
import hat.sbs.serializer

from rt import aiorun
from rt import gen
from rt import net

LEVEL = 'exploration'
RULE = ('a whole server with on-disk storage serves well behaved clients '
        '(registering, querying, registered- and persisted-mode subscribers) '
        'while other connections send well formed messages with hostile '
        'values: numbers that can not be encoded, timestamps out of range, '
        'nesting close to limits of the decoder, types, names and '
        'subscriptions of extreme length, unusable query parameters; server '
        'and well behaved clients have to work on, and everything answered '
        'has to be notified, queried and found on disk afterwards. An '
        'evaluation is one hostile message, non-trivial if the server '
        'processed it, distinct by kind of the value and outcome')
TIERS = {'quick': {'cases': 208, 'time': 75},
         'thorough': {'cases': 20000, 'time': 450}}
REQUIRE = {'hostile': 1500, 'accepted': 300, 'closed': 500, 'good': 1500,
           'registrations': 500, 'queries': 400, 'inits': 80,
           'answers': 100, 'reopens': 100, 'mixed_batches': 150}

INTS = [-1, -2 ** 31, -2 ** 63, 2 ** 31, 2 ** 32, 2 ** 32 - 1, 2 ** 63 - 1,
        2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 63 - 1, 2 ** 70, -2 ** 70,
        10 ** 6, 999_999, 0]


def show(x):
    """Also of something nested too deep"""
    try:
        return repr(x)
    except RecursionError:
        return f'{type(x)} nested too deep'


def opt(value):
    return ('none', None) if value is None else ('value', value)


def hostile_json(rng):
    k = rng.randint(0, 9)
    if k == 0:
        return 'inf', rng.choice([
            '1e999', '-1e999', '[1e400]', '{"a": {"b": [1, 2E+308]}}',
            '0.' + '1' * 5 + 'e1000'])
    if k == 1:
        return 'nan', rng.choice(['NaN', '[NaN]', 'Infinity', '-Infinity',
                                  '{"a": -Infinity}', '[[], {"x": NaN}]'])
    if k == 2:
        n = rng.choice([rng.randint(9800, 10010), rng.randint(9970, 10000),
                        rng.randint(9985, 9999), rng.randint(1, 12000),
                        rng.randint(985, 1010)])
        return 'deep', rng.choice([
            '[' * n + ']' * n,
            '{"a":' * n + 'null' + '}' * n,
            '[{"":' * (n // 2) + '1' + '}]' * (n // 2)])
    if k == 3:
        return 'surrogates', rng.choice(['"\\ud800"', '{"\\udfff": "\\ud800x"}',
                                         '"\\ud83d\\ude00"'])
    if k == 4:
        n = rng.choice([4299, 4300, 4301, 1000, 30, 19, 20])
        return 'integer', rng.choice(['-', '']) + '1' * n
    if k == 5:
        return 'broken', rng.choice(['', '{', '[1,]', 'nul', '\0', '"\x01"',
                                     '{"a":1,"a":2}', '1 2', '"a'])
    if k == 6:
        return 'long', json.dumps('x' * rng.choice([10 ** 5, 10 ** 6]))
    if k == 7:
        return 'wide', json.dumps({f'k{i}': [i] for i in range(5000)})
    if k == 8:
        return 'float', rng.choice(['1e308', '5e-324', '-0.0', '1e-999',
                                    '123456789012345678901234567890.5'])
    return 'text', json.dumps(rng.choice(['\0', '\u2028', '', '\x7f', 'é']))


def hostile_timestamp(rng):
    return {'s': rng.choice([*INTS, 0, 1]),
            'us': rng.choice([*INTS, 0, 1, 10 ** 6])}


def hostile_type(rng):
    k = rng.randint(0, 7)
    if k == 0:
        return 'wildcards', rng.choice([
            ['*'], ['?'], ['b', '*'], ['b', '*', 'c'], ['?', '*'],
            ['*', '*'], ['b', '?', 'c']])
    if k == 1:
        return 'empty', []
    if k == 2:
        return 'empty segments', [''] * rng.randint(1, 4)
    if k == 3:
        return 'long segment', ['b', 'x' * rng.choice([512, 10 ** 5])]
    if k == 4:
        return 'many segments', ['b'] * rng.choice([100, 980, 1000, 20000])
    if k == 5:
        return 'nul', ['b', 'a\0b', '\0']
    if k == 6:
        return 'unicode', ['b', '\U0001f600', '\uffff', '‮']
    return 'reserved', ['event', '1', rng.choice(['engine', 'eventer']), 'b']


def usual(rng, index):
    return {'type': ['b', str(index)], 'sourceTimestamp': opt(None),
            'payload': opt(rng.choice([None, ('json', '1')]))}


def hostile_event(rng, index):
    event = usual(rng, index)
    k = rng.randint(0, 9)
    if k < 4:
        kind, data = hostile_json(rng)
        event['payload'] = opt(('json', data))
        return f'json {kind}', event
    if k < 7:
        event['sourceTimestamp'] = opt(hostile_timestamp(rng))
        return 'timestamp', event
    if k < 9:
        kind, event['type'] = hostile_type(rng)
        return f'type {kind}', event
    event['payload'] = opt(('binary', {
        'type': rng.choice(['', '\0', 'x' * 10 ** 5]),
        'data': bytes(rng.choice([0, 1, 10 ** 6]))}))
    return 'binary', event


def hostile_types(rng):
    k = rng.randint(0, 6)
    if k == 0:
        return [['b', '*', 'c'], ['*', '*'], ['*', '?']]
    if k == 1:
        return [['b'] * rng.choice([500, 960, 985, 1000, 20000])
                + rng.choice([[], ['*']])]
    if k == 2:
        return [['b', str(i)] for i in range(20000)]
    if k == 3:
        return [[rng.choice(['?', 'b']) for _ in range(14)] + ['*']
                for _ in range(300)]
    if k == 4:
        return []
    if k == 5:
        return [[], [''], ['*'], ['?'], ['?', '*'], ['\0']]
    return [['x' * 10 ** 5], ['*']]


def hostile_query(rng):
    def integer():
        return rng.choice([None, *INTS, 1])

    def event_id():
        if rng.random() < 0.5:
            return None
        return {i: rng.choice([*INTS, 1])
                for i in ('server', 'session', 'instance')}

    def timestamp():
        return None if rng.random() < 0.5 else hostile_timestamp(rng)

    k = rng.randint(0, 2)
    types = None if rng.random() < 0.4 else hostile_types(rng)
    if k == 0:
        return 'latest', ('latest', {'eventTypes': opt(types)})
    if k == 1:
        return 'timeseries', ('timeseries', {
            'eventTypes': opt(types), 'tFrom': opt(timestamp()),
            'tTo': opt(timestamp()), 'sourceTFrom': opt(timestamp()),
            'sourceTTo': opt(timestamp()),
            'order': (rng.choice(['ascending', 'descending']), None),
            'orderBy': (rng.choice(['timestamp', 'sourceTimestamp']), None),
            'maxResults': opt(integer()), 'lastEventId': opt(event_id())})
    return 'server', ('server', {
        'serverId': rng.choice([*INTS, 1, 1, 1]),
        'persisted': rng.random() < 0.5,
        'maxResults': opt(integer()), 'lastEventId': opt(event_id())})


def encode(name, data):
    return common.sbs_repo.encode(
        name, data, serializer=hat.sbs.serializer.PySerializer)


def equal(stored, sent):
    """Stored event has contents that were sent"""
    data = common.register_event_to_sbs(common.RegisterEvent(
        stored.type, stored.source_timestamp, stored.payload))
    if list(data['type']) != sent['type']:
        return False
    kind, value = sent['sourceTimestamp']
    if kind == 'value':
        # native decoder of hat-sbs keeps 64 bits
        value = {k: (v + 2 ** 63) % 2 ** 64 - 2 ** 63
                 for k, v in value.items()}
    if data['sourceTimestamp'] != (kind, value):
        return False
    if sent['payload'][0] == 'none':
        return stored.payload is None
    kind, value = sent['payload'][1]
    if kind == 'json':
        return (isinstance(stored.payload, common.EventPayloadJson) and
                json.dumps(json.loads(value)) ==
                json.dumps(stored.payload.data))
    return (isinstance(stored.payload, common.EventPayloadBinary) and
            stored.payload.type == value['type'] and
            bytes(stored.payload.data) == bytes(value['data']))


def same(a, b):
    """Equality of events without deep recursion of comparison"""
    return a[:4] == b[:4] and key(a) == key(b)


def key(event):
    return encode_event(event)


def encode_event(event):
    return bytes(common.sbs_repo.encode('HatEventer.Event',
                                        common.event_to_sbs(event)))


class Good:
    """Well behaved clients"""

    def __init__(self, ctx, addr):
        self.ctx = ctx
        self.addr = addr
        self.clients = {}
        self.notified = {}
        self.sent = 0
        self.answered = {}

    async def connect(self, name, **kwargs):
        self.notified[name] = []

        def notified(_, events):
            self.notified[name].extend(events)

        for _ in range(500):
            try:
                self.clients[name] = await eventer.connect(
                    self.addr, name, events_cb=notified, **kwargs)
                return
            except ConnectionError:
                await asyncio.sleep(0.01)
        self.ctx.violation('server does not accept clients')

    def check(self, what):
        for name, client in self.clients.items():
            self.ctx.check(client.is_open, 'connection of a well behaved '
                           'client was closed', {'client': name,
                                                 'after': what})

    async def call(self, what, fn, *args):
        ctx = self.ctx
        try:
            return await net.finished(ctx, fn(*args), what)
        except ConnectionError:
            ctx.violation('connection of a well behaved client was closed',
                          {'during': what, 'tail': self.tail()})

    def tail(self):
        return self.ctx.state.get('tail', [])[-12:]

    async def register(self):
        rng = self.ctx.rng
        events = []
        for _ in range(rng.randint(1, 3)):
            self.sent += 1
            events.append(common.RegisterEvent(
                ('g', str(self.sent)),
                None if rng.random() < 0.5 else gen.timestamp(rng),
                rng.choice([None, common.EventPayloadJson(self.sent)])))
        result = await self.call('registration',
                                 self.clients['request'].register, events,
                                 True)
        self.ctx.check(
            result is not None and len(result) == len(events) and
            all(i.type == j.type and i.payload == j.payload and
                i.source_timestamp == j.source_timestamp
                for i, j in zip(result, events)),
            'registration of a well behaved client was not stored',
            {'events': events, 'result': result})
        for i in result:
            self.answered[i.id] = i
        self.ctx.count('good', len(events))

    async def query(self):
        """Everything stored is available to everybody"""
        ctx = self.ctx
        client = self.clients['request']
        k = ctx.rng.randint(0, 3)
        if k == 0:
            expected = [i for i in self.answered.values()
                        if i.type == ('g', str(self.sent))]
            result = await self.call(
                'query', client.query, common.QueryLatestParams(
                    [('g', str(self.sent))]))
            ctx.check(list(result.events) == expected,
                      'latest query of a well behaved client is wrong')
            return
        if k == 1:
            result = await self.call(
                'query', client.query, common.QueryLatestParams())
            got = {i.id for i in result.events}
        elif k == 2:
            result = await self.call(
                'query', client.query, common.QueryTimeseriesParams(
                    order=ctx.rng.choice(list(common.Order))))
            got = {i.id for i in result.events}
        else:
            result = await self.call(
                'query', client.query, common.QueryServerParams(1))
            got = {i.id for i in result.events}
        ctx.check({i.id for i in self.answered.values()
                   if i.type[:1] == ('g', )} <= got or result.more_follows,
                  'event is missing in result of a query')


async def one(ctx, h, good, addr, state):
    """Single hostile message"""
    rng = ctx.rng
    state['index'] += 1
    k = rng.random()
    peer = state['peer']
    if peer is None or not peer.conn.is_open or rng.random() < 0.2:
        if peer:
            await peer.close()
        peer = state['peer'] = await net.finished(
            ctx, net.RawPeer.open(addr), 'connecting of a peer')
        if k < 0.15:
            ctx.count('inits')
            what = f'init {state["index"]}'
            types = hostile_types(rng)
            name = rng.choice(['', '\0', '*', '?', 'x' * 10 ** 5, 'bad'])
            server = rng.choice([None, None, *INTS])
            persisted = rng.random() < 0.5
            tail(ctx, what, name[:10], server, show(types)[:60])
            await peer.send_bytes('HatEventer.MsgInitReq', encode(
                'HatEventer.MsgInitReq', {
                    'clientName': name,
                    'clientToken': opt(None), 'subscriptions': types,
                    'serverId': opt(server), 'persisted': persisted}),
                last=False)
            outcome, msg_type, data = await answer(
                ctx, peer, 'HatEventer.MsgInitRes')
            if outcome == 'answered' and data[0] == 'success':
                outcome = 'admitted'
            else:
                state['peer'] = None
                await peer.close()
            ctx.count('hostile')
            ctx.done(('init', outcome, len(types)))
            return
        await net.finished(ctx, peer.init(
            'bad', subscriptions=rng.choice([[], [('b', '*')], [('*', )]])),
            'initialization of a peer')

    ctx.count('hostile')

    if k < 0.45:
        ctx.count('queries')
        kind, params = hostile_query(rng)
        tail(ctx, 'query', show(params)[:300])
        await peer.send_bytes('HatEventer.MsgQueryReq',
                              encode('HatEventer.MsgQueryReq', params),
                              last=False)
        outcome, msg_type, data = await answer(ctx, peer,
                                               'HatEventer.MsgQueryRes')
        if outcome == 'answered':
            ctx.count('answers')
        ctx.done(('query', kind, outcome))
        return

    ctx.count('registrations')
    index = state['index']
    events = []
    kinds = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind, event = hostile_event(rng, index)
        events.append(event)
        kinds.append(kind)
    if rng.random() < 0.3:
        ctx.count('mixed_batches')
        events.insert(rng.randint(0, len(events)), usual(rng, index))
    tail(ctx, 'register', kinds, show(events)[:300])
    await peer.send_bytes('HatEventer.MsgRegisterReq',
                          encode('HatEventer.MsgRegisterReq', events),
                          last=False)
    outcome, msg_type, data = await answer(ctx, peer,
                                           'HatEventer.MsgRegisterRes')
    if outcome == 'answered':
        ctx.check(data[0] == 'events' and len(data[1]) == len(events),
                  'accepted registration has wrong answer',
                  {'kinds': kinds, 'answer': show(data)[:500]})
        result = [common.event_from_sbs(i) for i in data[1]]
        for i, sent in zip(result, events):
            ctx.check(equal(i, sent), 'stored event differs from what was '
                      'sent', {'kinds': kinds, 'sent': show(sent)[:500],
                               'event': show(i)[:500]})
            good.answered[i.id] = i
        ctx.count('accepted')
    else:
        state['refused'].add(index)
    ctx.done(('register', tuple(kinds), outcome))


def tail(ctx, *args):
    ctx.log(*args)
    t = ctx.state.setdefault('tail', [])
    t.append(args)
    del t[:-20]


async def answer(ctx, peer, expected):
    """Answer or closed connection, nothing else"""
    async def receive():
        while True:
            msg, msg_type, data = await peer.receive()
            if msg_type == expected:
                return msg_type, data

    try:
        msg_type, data = await net.finished(
            ctx, receive(), 'answer to a hostile message',
            witness=lambda: ctx.state['tail'][-1])
        return 'answered', msg_type, data
    except ConnectionError:
        ctx.count('closed')
        return 'closed', None, None


class Log(logging.Handler):
    """Reported errors of a server, as witness only"""

    def __init__(self, ctx):
        super().__init__(logging.WARNING)
        self.ctx = ctx

    def emit(self, record):
        if record.exc_info:
            self.ctx.log('error', record.getMessage()[:200],
                         repr(record.exc_info[1])[:200])
            self.ctx.state['last_error'] = (
                record.getMessage()[:200], self.trace(record.exc_info[2]))

    def trace(self, tb):
        return [f'{i.filename[-40:]}:{i.lineno} {i.name}'
                for i in traceback.extract_tb(tb)[-6:]]


async def case(ctx):
    ctx.state['tail'] = []
    ctx.state['last_error'] = None
    handler = Log(ctx)
    logger = logging.getLogger('hat.event')
    logger.addHandler(handler)
    try:
        await run(ctx)
    finally:
        logger.removeHandler(handler)


async def run(ctx):
    rng = ctx.rng
    addr = net.free_addr()
    path = ctx.folder() / 'db'
    conf = {'type': 'event', 'version': 'v', 'server_id': 1,
            'backend': {
                'module': 'hat.event.backends.lmdb',
                'identifier': None,
                'db_path': str(path),
                'flush_period': rng.choice([0.02, 0.05, 0.2]),
                'cleanup_period': rng.choice([0.05, 1]),
                'conditions': rng.choice([[], [], [{
                    'subscriptions': [['b', '*']],
                    'condition': {'type': 'any', 'conditions': [
                        {'type': 'json', 'data_path': ['a', 0]},
                        {'type': 'json', 'data_type': 'array'},
                        {'type': 'json', 'data_value': [1, {'a': 2}]}]}}]]),
                'latest': {'subscriptions': [['*']]},
                'timeseries': [
                    {'order_by': 'TIMESTAMP', 'subscriptions': [['*']],
                     **rng.choice([{}, {}, {'limit': {
                         'duration': 10 ** 6, 'size': 10 ** 9}}])},
                    {'order_by': 'SOURCE_TIMESTAMP',
                     'subscriptions': [['*']],
                     **rng.choice([{}, {'limit': {'max_entries': 2}}])}]},
            'eventer_server': {'host': addr.host, 'port': addr.port},
            'modules': []}

    conditioned = bool(conf['backend']['conditions'])
    runner = hat.event.server.main_runner.MainRunner(conf)
    good = Good(ctx, addr)
    states = [{'index': i * 10 ** 6, 'peer': None, 'refused': set()}
              for i in range(rng.randint(1, 3))]
    try:
        await good.connect('request')
        await good.connect('registered', subscriptions=[('*', )])
        await good.connect('persisted', subscriptions=[('*', )],
                           persisted=True)

        async def hostile(state):
            for _ in range(rng.randint(3, 10)):
                await one(ctx, None, good, addr, state)
                await aiorun.pause(rng)
                ctx.check(runner.is_open, 'server stopped',
                          {'error': ctx.state['last_error'],
                           'tail': good.tail()})

        async def ordinary():
            for _ in range(rng.randint(3, 8)):
                await good.register()
                await aiorun.pause(rng)
                if rng.random() < 0.6:
                    await good.query()

        tasks = [asyncio.ensure_future(i)
                 for i in (ordinary(), *(hostile(i) for i in states))]
        done, pending = await asyncio.wait(
            tasks, return_when=asyncio.FIRST_EXCEPTION)
        for i in pending:
            i.cancel()
        if pending:
            await asyncio.wait(pending)
        for i in done:
            i.result()
        await good.register()

        def missing(name):
            got = {i.id for i in good.notified[name]}
            return [i for i in good.answered if i not in got]

        for name in ('registered', 'persisted'):
            await net.until(
                ctx, lambda: not missing(name),
                f'notification of {name} events',
                witness=lambda: {'missing': missing(name)[:5],
                                 'open': runner.is_open,
                                 'tail': good.tail()})
            ids = [i.id for i in good.notified[name]]
            ctx.check(ids == sorted(set(ids)), 'notified out of order')
        good.check('everything')
        await good.query()
        ctx.check(runner.is_open, 'server stopped', {'error': ctx.state['last_error'],
                           'tail': good.tail()})

        for state in states:
            if state['peer']:
                await state['peer'].close()
        for client in good.clients.values():
            await net.finished(ctx, client.async_close(), 'closing of client')
    finally:
        await net.finished(ctx, runner.async_close(), 'closing of server', 60)

    # everything that was answered is on disk and nothing that was refused
    backend = await lmdb_backend.create(conf['backend'], None, None)
    try:
        stored = {}
        last = None
        while True:
            result = await backend.query(common.QueryServerParams(
                1, persisted=True, max_results=100, last_event_id=last))
            for i in result.events:
                stored[i.id] = i
                last = i.id
            if not result.more_follows:
                break
    finally:
        await backend.async_close()
    ctx.count('reopens')
    for i in good.answered.values():
        ctx.check((i.id in stored and same(stored[i.id], i)) or
                  (conditioned and i.id not in stored and i.type[:1] != ('g', )),
                  'answered event is not on disk',
                  {'event': show(i)[:500],
                   'stored': show(stored.get(i.id))[:500]})
    refused = {str(j) for state in states for j in state['refused']}
    for i in stored.values():
        if i.type[:1] == ('b', ) and len(i.type) == 2:
            ctx.check(i.type[1] not in refused,
                      'part of a refused registration is stored',
                      {'event': show(i)[:500]})


def run_case(ctx):
    aiorun.run(ctx, case)
