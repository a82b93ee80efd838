"""C05: eventer requests and answers."""

import asyncio
import collections
import itertools

from hat.event import common
from hat.event import eventer

from rt import aiorun
from rt import gen
from rt import net
from rt import storage

LEVEL = 'exploration'
RULE = ('real eventer clients issue concurrent requests of all kinds over '
        'loopback (with cancelled callers) to a real server whose callbacks '
        'take random time, refuse or fail; a proxy splits and delays data '
        'and in a part of cases cuts the connection at a random byte of '
        'either direction, or more requests are sent than fit into buffers. The '
        'server records what it was asked, clients '
        'what they were answered; raw peers check which messages are '
        'answered. An evaluation is one connection, non-trivial if requests '
        'overlapped, distinct by kinds of requests, outcomes and cut point')
TIERS = {'quick': {'cases': 1000, 'time': 45},
         'thorough': {'cases': 30000, 'time': 400}}
REQUIRE = {'bare': 5, 'requests': 5000, 'answered': 3000, 'cut': 100,
           'connection_errors': 100, 'cancelled': 100, 'refused': 100,
           'raw_messages': 300, 'long': 8, 'flooded': 3000,
           'large': 20}


async def case_flood(ctx):
    """More requests than can be buffered"""
    rng = ctx.rng
    addr = net.free_addr()
    hold = asyncio.Event()
    handled = []

    async def register_cb(info, events):
        await hold.wait()
        handled.append(int(events[0].type[0]))
        return []

    async def query_cb(info, params):
        await hold.wait()
        handled.append(int(params.event_types[0][0]))
        return common.QueryResult([], rng.random() < 0.5)

    server = await eventer.listen(addr, register_cb=register_cb,
                                  query_cb=query_cb)
    proxy = await net.Proxy(addr, rng).open()
    end = rng.choice(['cut', 'close', 'server', 'answer'])
    try:
        client = await eventer.connect(proxy.addr, 'client')
        text = 'x' * rng.choice([10000, 20000])
        total = rng.randint(2600, 3500)
        tasks = []
        for i in range(total):
            if rng.random() < 0.5:
                aw = client.register([common.RegisterEvent(
                    (str(i), text), None, None)], rng.random() < 0.9)
            else:
                aw = client.query(common.QueryLatestParams([(str(i), text)]))
            tasks.append(asyncio.ensure_future(aw))
        # as much is sent as fits
        await asyncio.sleep(rng.choice([0, 0.2, 0.5]))
        ctx.log('flood', total, len(text), end,
                'done', sum(i.done() for i in tasks))
        if end == 'answer':
            hold.set()
        elif end == 'cut':
            await net.until(ctx, lambda: proxy.links, 'connection to server')
            proxy.cut(rng.random() < 0.5)
        elif end == 'close':
            client.close()
        else:
            await server.async_close()
        await net.finished(ctx, asyncio.wait(tasks), 'many requests', 60)
        outcomes = collections.Counter()
        for i, task in enumerate(tasks):
            e = task.exception()
            ctx.check(e is None or (isinstance(e, ConnectionError) and
                                    end != 'answer'),
                      'request failed with something else than connection '
                      'error', {'request': i, 'error': repr(e), 'end': end})
            outcomes['failed' if e else 'done'] += 1
        if end == 'answer':
            await net.until(ctx, lambda: len(handled) == total,
                            'handling of all requests')
        ctx.check(handled == list(range(len(handled))),
                  'requests were not handled in order', handled)
        ctx.count('flooded', outcomes['failed' if end != 'answer' else
                                      'done'])
        ctx.done(('flood', end, bool(outcomes['done'])),
                 ('requests', total, 'outcomes', dict(outcomes)))
        await client.async_close()
    finally:
        hold.set()
        await proxy.close()
        await server.async_close()


async def case(ctx):
    if ctx.case % 100 == 11:
        await case_flood(ctx)
    elif ctx.case % 50 == 12:
        await case_bare(ctx)
    elif ctx.rng.random() < 0.05:
        await case_long(ctx)
    else:
        await case_random(ctx)


async def case_bare(ctx):
    """Server and client without some of their callbacks"""
    rng = ctx.rng
    source = storage.Source(rng, servers=2, max_batch=3)
    addr = net.free_addr()
    batch = source.batch()
    result = common.QueryResult(source.batch(), rng.random() < 0.5)
    kwargs = {k: v for k, v in {
        'connected_cb': lambda info: None,
        'disconnected_cb': lambda info: None,
        'register_cb': lambda info, events: batch,
        'query_cb': lambda info, params: result}.items()
        if rng.random() < 0.5}
    server = await eventer.listen(addr, **kwargs)
    client_kwargs = {k: v for k, v in {
        'status_cb': lambda client, status: None,
        'events_cb': lambda client, events: None}.items()
        if rng.random() < 0.5}
    client = await eventer.connect(addr, 'client', subscriptions=[('*', )],
                                   **client_kwargs)
    try:
        for _ in range(rng.randint(3, 10)):
            k = rng.randint(0, 4)
            event = common.RegisterEvent(('a', ), None, None)
            if k == 0:
                got = await net.finished(ctx, client.register([event], True),
                                         'registration')
                want = batch if 'register_cb' in kwargs else None
                ctx.check((got and list(got)) == (want and list(want)),
                          'answer of registration', (got, sorted(kwargs)))
            elif k == 1:
                await net.finished(ctx, client.register([event], False),
                                   'registration')
            elif k == 2:
                got = await net.finished(ctx, client.query(
                    common.QueryLatestParams()), 'query')
                want = (result if 'query_cb' in kwargs else
                        common.QueryResult([], False))
                ctx.check((list(got.events), got.more_follows) ==
                          (list(want.events), want.more_follows),
                          'answer of query', (got, sorted(kwargs)))
            elif k == 3:
                await net.finished(ctx, server.notify_events(
                    source.batch(), rng.random() < 0.5, rng.random() < 0.7),
                    'notification')
            else:
                await server.set_status(rng.choice(list(common.Status)))
            ctx.check(client.is_open, 'connection of client was closed',
                      (sorted(kwargs), sorted(client_kwargs)))
        ctx.count('bare')
        ctx.done(('bare', tuple(sorted(kwargs)),
                  tuple(sorted(client_kwargs))))
    finally:
        await client.async_close()
        await server.async_close()


async def case_long(ctx):
    """Answers which take really long"""
    rng = ctx.rng
    source = storage.Source(rng, servers=2, max_batch=3)
    addr = net.free_addr()
    hold = asyncio.Event()
    handled = []
    answers = []

    async def connected_cb(info):
        if info.client_name == 'slow':
            await hold.wait()

    async def register_cb(info, events):
        handled.append(list(events))
        await hold.wait()
        answers.append(rng.choice([None, source.batch()]))
        return answers[-1]

    async def query_cb(info, params):
        handled.append(params)
        await hold.wait()
        answers.append(common.QueryResult(source.batch(),
                                          rng.random() < 0.5))
        return answers[-1]

    server = await eventer.listen(addr, connected_cb=connected_cb,
                                  register_cb=register_cb, query_cb=query_cb)
    try:
        client = await eventer.connect(addr, 'client')
        idle = await eventer.connect(addr, 'idle')
        slow = asyncio.ensure_future(eventer.connect(addr, 'slow'))
        tasks = []
        sent = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.5:
                x = [gen.register_event(rng) for _ in range(2)]
                aw = client.register(x, True)
            else:
                x = storage.gen_latest(rng, source)
                aw = client.query(x)
            sent.append(x)
            tasks.append(asyncio.ensure_future(aw))
            await asyncio.sleep(0)
        await net.until(ctx, lambda: handled, 'handling of request')
        await aiorun.warp(rng.choice([20, 100, 400, 1000]))
        ctx.check(client.is_open and idle.is_open, 'client is disconnected '
                  'while request takes long', (client.is_open, idle.is_open))
        ctx.check(not any(i.done() for i in tasks) and not slow.done(),
                  'request ended while it takes long', [*tasks, slow])
        hold.set()
        for i, task in enumerate(tasks):
            got = await net.finished(ctx, task, 'request which takes long')
            if isinstance(answers[i], common.QueryResult):
                got = got._replace(events=list(got.events))
            ctx.equal(got, answers[i], 'answer of request')
        ctx.equal(handled, sent, 'requests seen by the server')
        await (await net.finished(ctx, slow, 'connecting')).async_close()
        ctx.check((await net.finished(ctx, idle.query(
            common.QueryLatestParams()), 'query')).events is not None,
            'idle client')
        ctx.count('long')
        await client.async_close()
        await idle.async_close()
    finally:
        hold.set()
        await server.async_close()


async def case_random(ctx):
    rng = ctx.rng
    source = storage.Source(rng, servers=2, max_batch=3)
    addr = net.free_addr()
    slow = rng.choice([0, 0, 0.001, 0.005])
    failing = rng.random() < 0.15
    received = {}       # client name -> list of requests
    answers = {}        # (client name, index) -> answer
    infos = {}
    busy = set()
    failures = []
    # requests and answers with a lot of events
    large = rng.random() < 0.06

    def batch():
        result = source.batch()
        if large and rng.random() < 0.1:
            result = [result[0]._replace(
                id=result[0].id._replace(instance=i + 1),
                payload=common.EventPayloadJson(i))
                for i in range(rng.randint(500, 5000))]
        return result

    async def answer(info, request):
        if info.client_name in busy:
            failures.append('request is handled before the previous one of '
                            'the same connection was finished')
        busy.add(info.client_name)
        infos.setdefault(info.client_name, set()).add(info)
        requests = received.setdefault(info.client_name, [])
        requests.append(request)
        index = len(requests) - 1
        if slow:
            await asyncio.sleep(rng.random() * slow)
        elif rng.random() < 0.3:
            await asyncio.sleep(0)
        busy.discard(info.client_name)
        if failing and rng.random() < 0.05:
            answers[info.client_name, index] = 'fails'
            raise Exception('callback failed')
        return index

    async def register_cb(info, events):
        index = await answer(info, ('register', list(events)))
        result = None if rng.random() < 0.2 else batch()
        if result is not None and rng.random() < 0.1:
            result = []
        answers[info.client_name, index] = result
        return result

    async def query_cb(info, params):
        index = await answer(info, ('query', params))
        result = common.QueryResult(
            batch() if rng.random() < 0.8 else [],
            rng.random() < 0.5)
        answers[info.client_name, index] = result
        return result

    server = await eventer.listen(addr, register_cb=register_cb,
                                  query_cb=query_cb)
    # other traffic on the same connections
    stop = False

    async def notifier():
        while not stop:
            await asyncio.sleep(0.002)
            await server.notify_events(source.batch(), False,
                                       rng.random() < 0.3)
            await server.set_status(rng.choice(list(common.Status)))

    names = itertools.count()

    async def connection():
        name = f'{next(names)}' + rng.choice(['', '/ž', ' '])
        token = rng.choice([None, 'abc', ''])
        server_id = rng.choice([None, 1, 5])
        persisted = rng.random() < 0.5
        subscriptions = ([('*', )] if rng.random() < 0.3 else [])
        proxy = await net.Proxy(addr, rng).open()
        proxy.split = 0.2
        proxy.delay = rng.choice([0, 0.002])
        client = await eventer.connect(
            proxy.addr, name, client_token=token, server_id=server_id,
            persisted=persisted, subscriptions=subscriptions)
        sent = []           # requests in order of sending
        outcomes = []
        cut = None
        if rng.random() < 0.5:
            cut = (rng.choice(['up', 'down']),
                   int(2 ** (rng.random() * 13)))
            proxy.limits[cut[0]] = cut[1]

        async def request():
            k = rng.random()
            if k < 0.5:
                await aiorun.pause(rng)
            if not client.is_open:
                return
            if k < 0.6:
                events = [gen.register_event(rng)
                          for _ in range(rng.randint(0, 3))]
                if large and rng.random() < 0.2:
                    events = [common.RegisterEvent(
                        ('a', str(i)), None, None)
                        for i in range(rng.randint(500, 5000))]
                    ctx.count('large')
                with_response = rng.random() < 0.7
                entry = ('register', events)
                aw = client.register(events, with_response)
            else:
                with_response = True
                params = rng.choice([storage.gen_latest,
                                     storage.gen_timeseries,
                                     storage.gen_server])(rng, source)
                entry = ('query', params)
                aw = client.query(params)
            index = len(sent)
            sent.append(entry)
            ctx.count('requests')
            task = asyncio.ensure_future(aw)
            if rng.random() < 0.1:
                # request is sent, caller does not wait
                await asyncio.sleep(0)
                await aiorun.pause(rng)
                if task.cancel():
                    ctx.count('cancelled')
            await asyncio.wait([task], timeout=30)
            if not task.done():
                ctx.violation('request is not answered in 30 s',
                              {'request': entry, 'cut': cut,
                               'open': client.is_open, 'server got': len(
                                   received.get(name, []))})
            if task.cancelled():
                outcomes.append((index, entry[0], 'cancelled'))
                return
            error = task.exception()
            if isinstance(error, ConnectionError):
                outcomes.append((index, entry[0], 'connection error'))
                ctx.count('connection_errors')
                if cut is None and not failing:
                    ctx.violation('request failed with connection error on '
                                  'a working connection', {'request': entry})
                return
            if error:
                ctx.violation('request failed with other then connection '
                              f'error: {error!r}', {'request': entry})
            got = task.result()
            if not with_response:
                ctx.check(got is None, 'result of registration without '
                          'response', got)
                outcomes.append((index, entry[0], 'sent'))
                return
            expected = answers.get((name, index), 'not handled')
            if isinstance(expected, common.QueryResult):
                same = (isinstance(got, common.QueryResult) and
                        list(got.events) == list(expected.events) and
                        got.more_follows == expected.more_follows)
            elif expected is None:
                same = got is None
                ctx.count('refused')
            else:
                same = (isinstance(got, list) and got == expected)
            ctx.check(same, 'request got wrong answer',
                      {'request': entry, 'index': index, 'got': got,
                       'expected': expected, 'connection': name})
            ctx.count('answered')
            outcomes.append((index, entry[0], 'answered'))

        async def requests():
            for _ in range(rng.randint(0, 12)):
                await request()

        n = rng.randint(1, 6) if rng.random() < 0.85 else rng.randint(20, 60)
        await net.finished(ctx, asyncio.gather(*(requests()
                                                 for _ in range(n))),
                           'requests', 80)
        if cut is None and not failing and client.is_open:
            # all that was sent is handled
            index = len(sent)
            params = common.QueryLatestParams([('fence', )])
            sent.append(('query', params))
            result = await net.finished(ctx, client.query(params), 'query')
            ctx.equal(list(result.events), answers[name, index].events,
                      'answer of query')
            ctx.equal(received[name], sent,
                      'requests seen by the server differ from sent ones')
        else:
            got = received.get(name, [])
            ctx.equal(got, sent[:len(got)],
                      'requests seen by the server are not a prefix of sent '
                      'ones')
            if cut:
                ctx.count('cut')
        await net.finished(ctx, client.async_close(), 'closing of client')
        try:
            await client.query(common.QueryLatestParams())
            ctx.violation('closed client answered')
        except ConnectionError:
            pass
        for info in infos.get(name, ()):
            ctx.equal((info.client_name, info.client_token, info.server_id,
                       info.persisted,
                       sorted(info.subscription.get_query_types())),
                      (name, token, server_id, persisted,
                       sorted(subscriptions)), 'identity of client')
        ctx.check(len(infos.get(name, ())) <= 1, 'identity of client changes',
                  infos)
        ctx.done((outcomes, cut) if n > 1 and outcomes else None,
                 ('cut', cut, 'concurrent', n, outcomes[:20]))
        await proxy.close()

    async def raw():
        """Which messages are answered and how"""
        peer = await net.RawPeer.open(addr)
        name = f'raw {next(names)}'
        _, msg, msg_type, data = await peer.init(name)
        ctx.check(msg_type == 'HatEventer.MsgInitRes' and
                  data[0] == 'success', 'init response', data)
        pending = []
        for _ in range(rng.randint(1, 10)):
            events = [gen.register_event(rng)]
            k = rng.randint(0, 2)
            if k == 2:
                conv = await peer.send(
                    'HatEventer.MsgQueryReq', common.query_params_to_sbs(
                        common.QueryLatestParams()), last=False)
            else:
                conv = await peer.send(
                    'HatEventer.MsgRegisterReq',
                    [common.register_event_to_sbs(i) for i in events],
                    last=k == 0)
            if k:
                pending.append((k, conv))
        conv = await peer.send(
            'HatEventer.MsgQueryReq', common.query_params_to_sbs(
                common.QueryLatestParams()), last=False)
        pending.append((2, conv))
        try:
            for k, conv in pending:
                while True:
                    msg, msg_type, data = await net.finished(
                        ctx, peer.receive(), 'answer to raw peer')
                    if msg_type != 'HatEventer.MsgStatusNotify':
                        break
                ctx.check(msg.conv == conv and msg_type ==
                          ('HatEventer.MsgRegisterRes' if k == 1 else
                           'HatEventer.MsgQueryRes'),
                          'raw peer received unexpected message',
                          {'type': msg_type, 'conv': msg.conv,
                           'expected conv': conv, 'kind': k})
                ctx.count('raw_messages')
        except ConnectionError:
            if not failing:
                raise
        await peer.close()

    run = asyncio.ensure_future(notifier())
    try:
        await net.finished(ctx, asyncio.gather(
            *(connection() for _ in range(rng.randint(1, 3))),
            *(raw() for _ in range(rng.randint(0, 1)))), 'connections', 85)
        ctx.check(not failures, 'server', failures)
    finally:
        stop = True
        await server.async_close()
        await asyncio.wait([run], timeout=1)
        run.cancel()
        await asyncio.gather(run, return_exceptions=True)


def run_case(ctx):
    aiorun.run(ctx, case)
