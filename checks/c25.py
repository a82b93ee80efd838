"""C25: administration requests."""

import asyncio
import contextlib
import itertools
import logging

from hat.event import adminer
from hat.event import common
import hat.event.server.adminer_server

from rt import aiorun
from rt import gen
from rt import net

LEVEL = 'exploration'
RULE = ('real administration clients issue concurrent, abandoned and failing '
        'requests to a real administration server on loopback, with '
        'connections cut at random bytes and hostile peers around; answers '
        'are matched with what the callbacks produced for that very request. '
        'The server component is also driven with real logging '
        'configurations whose effect on loggers is inspected. An evaluation '
        'is one request, non-trivial if others overlapped it, distinct by '
        'kind, outcome and overlap')
TIERS = {'quick': {'cases': 2688, 'time': 45},
         'thorough': {'cases': 20000, 'time': 400}}
REQUIRE = {'get_answers': 500, 'set_answers': 500, 'errors': 200,
           'abandoned': 200, 'after_abandoned': 200, 'cut': 60,
           'connection_errors': 60, 'hostile': 200, 'overlapping': 500,
           'applied': 100, 'rejected_confs': 30, 'long': 2,
           'flooded': 5000}

_names = itertools.count()


async def attack(ctx, addr):
    rng = ctx.rng
    ctx.count('hostile')
    k = rng.randint(0, 4)
    if k == 0:
        reader, writer = await asyncio.open_connection(addr.host, addr.port)
        writer.write(rng.randbytes(rng.randint(1, 40)))
        with contextlib.suppress(Exception):
            await asyncio.wait_for(reader.read(10), 0.005)
        writer.close()
        return
    peer = await net.RawPeer.open(addr)
    with contextlib.suppress(ConnectionError):
        if k == 1:
            await peer.send_bytes('HatEventAdminer.MsgSetLogConfReq',
                                  rng.randbytes(rng.randint(0, 10)))
        elif k == 2:
            await peer.send_bytes(rng.choice([
                '', 'HatEventAdminer.MsgGetLogConfRes', 'HatEventer.MsgNone',
                'HatEventer.MsgRegisterReq', 'HatEventAdminer.Response']),
                rng.randbytes(3))
        elif k == 3:
            # not a json
            await peer.send('HatEventAdminer.MsgSetLogConfReq',
                            rng.choice(['{', '', 'x', '[1,', '\x00']),
                            last=False)
            _, msg_type, data = await net.finished(
                ctx, peer.receive(), 'answer to malformed configuration')
            ctx.check(data[0] == 'error', 'malformed configuration is '
                      'accepted', data)
        await asyncio.sleep(rng.random() * 0.005)
    await peer.close()


class Failure(Exception):
    pass


async def case_generic(ctx):
    rng = ctx.rng
    addr = net.free_addr()
    serials = itertools.count(1)
    versions = itertools.count(1)
    produced = {}         # serial to result or error
    sets = {}             # version to number of callbacks and outcome
    slow = rng.choice([0, 0.002, 0.01])
    failing = rng.choice([0, 0.1, 0.5])
    implemented = rng.random() < 0.95

    async def work():
        if rng.random() < 0.7:
            await asyncio.sleep(rng.random() * slow)

    async def get_cb():
        serial = next(serials)
        await work()
        if rng.random() < failing:
            produced[serial] = rng.choice(['error', 'error', 'empty'])
            raise rng.choice([
                Exception, ValueError, OSError, Failure, ConnectionError,
                EOFError, asyncio.TimeoutError])(
                f'get {serial}' if produced[serial] == 'error' else '')
        produced[serial] = {'serial': serial, 'data': gen.json_data(rng)}
        return produced[serial]

    async def set_cb(conf):
        version = conf['version']
        ctx.check(version not in sets, 'configuration is set twice', conf)
        sets[version] = conf, None
        await work()
        if rng.random() < failing:
            sets[version] = conf, rng.choice(
                ['', f'set {version}', f'set {version} ž\x00𝄞',
                 f'set {version} ' * 300])
            raise rng.choice([
                Exception, ValueError, OSError, Failure, ConnectionError,
                EOFError, asyncio.TimeoutError])(
                sets[version][1])
        sets[version] = conf, 'success'

    server = await adminer.listen(
        addr, get_log_conf_cb=get_cb if implemented else None,
        set_log_conf_cb=set_cb if implemented else None)
    proxies = []
    running = set()
    used = set()

    async def request(c):
        client = c['client']
        overlap = len(running)
        token = object()
        running.add(token)
        kind = rng.choice(['get', 'set'])
        conf = None
        if kind == 'set':
            conf = {'version': next(versions), 'data': gen.json_data(rng)}
            fn = client.set_log_conf(conf)
        else:
            fn = client.get_log_conf()
        ctx.log(kind, c['index'])
        task = asyncio.ensure_future(fn)
        if rng.random() < 0.15:
            await aiorun.pause(rng)
            if task.cancel():
                ctx.count('abandoned')
                c['abandoned'] = True
            outcome = 'abandoned'
            await asyncio.wait([task])
            running.discard(token)
            return
        if c.get('abandoned'):
            ctx.count('after_abandoned')
        if overlap:
            ctx.count('overlapping')
        try:
            result = await net.finished(ctx, task, f'{kind} request', 30,
                                        lambda: {'client': c['index']})
        except adminer.AdminerError as e:
            outcome = 'error'
            ctx.count('errors')
            if not implemented:
                pass
            elif kind == 'get' and str(e) == '':
                empty = [i for i, v in produced.items()
                         if v == 'empty' and i not in used]
                ctx.check(empty, 'request is answered with error of another '
                          'one', str(e))
                used.add(empty[0])
                ctx.count('empty_errors')
            elif kind == 'get':
                name, _, serial = str(e).partition(' ')
                ctx.check(name == 'get' and int(serial) not in used and
                          produced.get(int(serial)) == 'error',
                          'request is answered with error of another one',
                          str(e))
                used.add(int(serial))
            else:
                ctx.check(sets[conf['version']] == (conf, str(e)),
                          'request is answered with error of another one',
                          {'conf': conf, 'error': str(e)})
        except ConnectionError:
            outcome = 'connection'
            ctx.check(c['cut'] or c['closed'], 'connection of client was '
                      'closed', {'client': c['index']})
            ctx.count('connection_errors')
        else:
            outcome = 'success'
            ctx.check(implemented, 'request succeeded', result)
            if kind == 'get':
                serial = result['serial']
                ctx.check(serial not in used and
                          produced.get(serial) == result,
                          'get is answered with result of another request',
                          {'result': result})
                used.add(serial)
                ctx.check(serial > c['last'], 'answers of a client are out '
                          'of order', {'serial': serial, 'last': c['last']}
                          ) if c['sequential'] else None
                c['last'] = max(serial, c['last'])
                ctx.count('get_answers')
            else:
                ctx.check(result is None and
                          sets.get(conf['version']) == (conf, 'success'),
                          'set is answered without being done',
                          {'conf': conf, 'sets': sets.get(conf['version'])})
                ctx.count('set_answers')
        running.discard(token)
        ctx.done((kind, outcome, min(overlap, 6), bool(c.get('abandoned')),
                  c['cut'], slow, failing) if overlap else None,
                 (kind, outcome, 'overlapping', overlap))

    async def life(index):
        target = addr
        c = {'index': index, 'cut': False, 'closed': False, 'last': 0}
        if rng.random() < 0.3:
            proxy = await net.Proxy(addr, rng).open()
            proxies.append(proxy)
            proxy.split = 0.3
            target = proxy.addr
            if rng.random() < 0.7:
                c['cut'] = True
                ctx.count('cut')
                proxy.limits[rng.choice(['up', 'down'])] = rng.randint(1, 600)
        try:
            c['client'] = await net.finished(ctx, adminer.connect(target),
                                             'connecting')
        except ConnectionError:
            ctx.check(c['cut'], 'connecting failed')
            return
        c['sequential'] = rng.random() < 0.3
        tasks = []
        for _ in range(rng.randint(1, 8)):
            await aiorun.pause(rng)
            task = asyncio.ensure_future(request(c))
            tasks.append(task)
            if c['sequential']:
                await task
        if rng.random() < 0.2:
            c['closed'] = True
            c['client'].close()
        try:
            await asyncio.gather(*tasks)
        finally:
            if not c['cut'] and not c['closed']:
                ctx.check(c['client'].is_open,
                          'connection of client was closed',
                          {'client': index,
                           'abandoned': c.get('abandoned')})
            await c['client'].async_close()

    async def attacker():
        for _ in range(rng.randint(0, 3)):
            await aiorun.pause(rng)
            await attack(ctx, addr)

    try:
        await net.finished(ctx, asyncio.gather(
            attacker(), *(life(i) for i in range(rng.randint(1, 4)))),
            'requests', 80)
        ctx.check(server.is_open, 'server was closed')
    finally:
        for p in proxies:
            await p.close()
        await server.async_close()


def gen_conf(rng, name):
    level = rng.choice(['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'])
    return {'version': 1, 'disable_existing_loggers': False,
            'handlers': {'null': {'class': 'logging.NullHandler'}},
            'loggers': {name: {'level': level, 'propagate': False,
                               'handlers': ['null']}},
            'comment': gen.json_data(rng)}


async def case_server(ctx):
    """Server component with real logging configuration"""
    rng = ctx.rng
    addr = net.free_addr()
    name = f'verif.{next(_names)}'
    initial = rng.choice([None, gen_conf(rng, name)])
    server = await hat.event.server.adminer_server.create_adminer_server(
        addr, initial)
    clients = [await adminer.connect(addr) for _ in range(2)]
    current = initial
    try:
        for _ in range(rng.randint(1, 6)):
            client = rng.choice(clients)
            await attack(ctx, addr)
            if rng.random() < 0.3:
                bad = rng.choice([
                    {}, {'version': 2}, None, 'x', [],
                    {'version': 1, 'disable_existing_loggers': False,
                     'incremental': True,
                     'loggers': {name: {'level': 'NOTHING'}}},
                    {'version': 1, 'disable_existing_loggers': False,
                     'incremental': True,
                     'handlers': {'missing': {'level': 'INFO'}}}])
                try:
                    await net.finished(ctx, client.set_log_conf(bad), 'set')
                except adminer.AdminerError:
                    ctx.count('rejected_confs')
                else:
                    ctx.violation('invalid configuration is accepted', bad)
            else:
                conf = gen_conf(rng, name)
                await net.finished(ctx, client.set_log_conf(conf), 'set')
                current = conf
                logger = logging.getLogger(name)
                ctx.equal(logging.getLevelName(logger.level),
                          conf['loggers'][name]['level'],
                          'level of configured logger')
                ctx.check(not logger.propagate and
                          len(logger.handlers) == 1, 'configured logger')
                ctx.count('applied')
            for i in clients:
                ctx.equal(await net.finished(ctx, i.get_log_conf(), 'get'),
                          current, 'configuration which is read')
            ctx.done(('server', current is initial))
    finally:
        for i in clients:
            await i.async_close()
        await server.async_close()
        logging.Logger.manager.loggerDict.pop(name, None)


async def case_long(ctx):
    """Answers which take really long"""
    rng = ctx.rng
    addr = net.free_addr()
    hold = asyncio.Event()
    called = []

    async def get_cb():
        called.append('get')
        await hold.wait()
        return {'x': len(called)}

    async def set_cb(conf):
        called.append(conf)
        await hold.wait()

    server = await adminer.listen(addr, get_log_conf_cb=get_cb,
                                  set_log_conf_cb=set_cb)
    try:
        client = await adminer.connect(addr)
        idle = await adminer.connect(addr)
        kinds = [rng.choice(['get', 'set']) for _ in range(rng.randint(1, 3))]
        tasks = []
        for kind in kinds:
            tasks.append(asyncio.ensure_future(
                client.get_log_conf() if kind == 'get' else
                client.set_log_conf('set')))
            await asyncio.sleep(0)
        await net.until(ctx, lambda: called, 'handling of request')
        await aiorun.warp(rng.choice([20, 100, 400, 1000]))
        ctx.check(client.is_open and idle.is_open, 'client is disconnected '
                  'while request takes long', (client.is_open, idle.is_open))
        ctx.check(not any(i.done() for i in tasks), 'request ended while it '
                  'takes long', tasks)
        hold.set()
        for i, kind in enumerate(kinds):
            got = await net.finished(ctx, tasks[i], 'request')
            ctx.equal(got, {'x': i + 1} if kind == 'get' else None,
                      'answer of request')
        ctx.equal(called, kinds, 'requests seen by the server')
        await net.finished(ctx, idle.set_log_conf(1), 'request of idle client')
        ctx.count('long')
        await client.async_close()
        await idle.async_close()
    finally:
        hold.set()
        await server.async_close()


async def case_flood(ctx):
    """More requests than can be buffered"""
    rng = ctx.rng
    addr = net.free_addr()
    hold = asyncio.Event()
    handled = []

    async def set_cb(conf):
        await hold.wait()
        handled.append(conf[0])
        if conf[0] % 7 == 0:
            raise Exception(f'refused {conf[0]}')

    server = await adminer.listen(addr, set_log_conf_cb=set_cb)
    proxy = await net.Proxy(addr, rng).open()
    end = rng.choice(['cut', 'close', 'server', 'answer'])
    try:
        client = await adminer.connect(proxy.addr)
        text = 'x' * rng.choice([10000, 20000])
        total = rng.randint(2600, 3500)
        tasks = [asyncio.ensure_future(client.set_log_conf([i, text]))
                 for i in range(total)]
        # as much is sent as fits
        await asyncio.sleep(rng.choice([0, 0.2, 0.5]))
        ctx.log('flood', total, len(text), end,
                'done', sum(i.done() for i in tasks))
        if end == 'answer':
            hold.set()
        elif end == 'cut':
            await net.until(ctx, lambda: proxy.links, 'connection to server')
            proxy.cut(rng.random() < 0.5)
        elif end == 'close':
            client.close()
        else:
            await server.async_close()
        await net.finished(ctx, asyncio.wait(tasks), 'many requests', 60)
        for i, task in enumerate(tasks):
            e = task.exception()
            if end != 'answer':
                ctx.check(isinstance(e, ConnectionError), 'request failed '
                          'with something else than connection error',
                          {'request': i, 'error': repr(e), 'end': end})
            elif i % 7 == 0:
                ctx.check(isinstance(e, adminer.AdminerError) and
                          str(e) == f'refused {i}', 'error of request',
                          {'request': i, 'error': repr(e)})
            else:
                ctx.check(e is None, 'request failed',
                          {'request': i, 'error': repr(e)})
        if end == 'answer':
            ctx.check(len(handled) == total, 'requests are not handled',
                      len(handled))
        ctx.check(handled == list(range(len(handled))),
                  'requests were not handled in order', handled)
        ctx.count('flooded', total)
        ctx.done(('flood', end), ('requests', total, end))
        await client.async_close()
    finally:
        hold.set()
        await proxy.close()
        await server.async_close()


async def case(ctx):
    if ctx.case % 400 == 11:
        await case_flood(ctx)
    elif ctx.rng.random() < 0.02:
        await case_long(ctx)
    elif ctx.case % 5 == 0:
        await case_server(ctx)
    else:
        await case_generic(ctx)


def run_case(ctx):
    aiorun.run(ctx, case)
