"""C24: event manager commands."""

import asyncio
import json
import os
import signal
import sys
import tomllib

import tomli_w
import yaml

from hat.event import common
from hat.event import eventer

from rt import aiorun
from rt import forked
from rt import gen
from rt import model
from rt import net
from rt import storage

LEVEL = 'exploration'
RULE = ('the real command is run in processes of its own, with random '
        'arguments, payload files and standard input, against a real eventer '
        'server which accepts, rejects, fails or is not there; what the '
        'server got is compared with the arguments and what the command '
        'printed and its exit code with what the server answered or '
        'notified. An evaluation is one command, distinct by arguments and '
        'outcome')
TIERS = {'quick': {'cases': 1000, 'time': 45},
         'thorough': {'cases': 6000, 'time': 500}}
REQUIRE = {'register_accepted': 90, 'register_refused': 35,
           'register_bad_input': 18, 'stdin_payloads': 60,
           'payload_json': 30, 'payload_yaml': 10, 'payload_toml': 10,
           'payload_binary': 20, 'payload_none': 12,
           'query_latest': 70, 'query_timeseries': 130, 'query_server': 70,
           'query_failed': 35, 'query_orders': 90, 'query_last_ids': 100,
           'subscribe': 150, 'subscribe_events': 1400,
           'subscribe_filtered': 3000, 'own_process': 3}


def setup_worker(spec):
    import hat.event.manager.main  # NOQA


def command():
    from hat.event.manager import main
    return main.main()


# expected output -------------------------------------------------------------

def event_json(e):
    if e.payload is None:
        payload = None
    elif isinstance(e.payload, common.EventPayloadBinary):
        payload = {'data_type': 'binary', 'binary_type': e.payload.type,
                   'data': bytes(e.payload.data).hex()}
    else:
        payload = {'data_type': 'json', 'data': e.payload.data}

    def t(x):
        return None if x is None else {'s': x.s, 'us': x.us}

    return {'id': {'server': e.id.server, 'session': e.id.session,
                   'instance': e.id.instance},
            'type': list(e.type), 'timestamp': t(e.timestamp),
            'source_timestamp': t(e.source_timestamp), 'payload': payload}


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


# generators ------------------------------------------------------------------

def gen_type(rng, query=False):
    """Event type expressible on command line"""
    while True:
        t = gen.query_type(rng, 4) if query else gen.event_type(rng, 4)
        if t and not any('/' in i or '\x00' in i for i in t) and not (
                '/'.join(t).startswith('-')):
            return t


def gen_timestamp(rng):
    """Argument and its value (None for current time)"""
    k = rng.random()
    if k < 0.15:
        return 'now', None
    s = rng.choice([0, 1, 1000, 10 ** 9, -1, rng.randint(0, 2 ** 31)])
    n = rng.choice([0, 0, 1, 32, 63])
    return repr(s + n / 64) if n or rng.random() < 0.5 else str(s), (
        common.Timestamp(s, n * 15625))


def option(rng, name, value):
    value = str(value)
    return ([f'{name}={value}'] if value.startswith('-') or rng.random() < 0.3
            else [name, value])


def gen_data(rng):
    return gen.json_data(rng, 3)


def encode(rng, kind):
    """Random data and its encoding"""
    while True:
        data = gen_data(rng)
        if kind == 'json':
            return data, json.dumps(data, ensure_ascii=rng.random() < 0.5,
                                    indent=rng.choice([None, 2])).encode()
        try:
            if kind == 'yaml':
                text = yaml.safe_dump(data, allow_unicode=rng.random() < 0.5)
                if same(yaml.safe_load(text), data):
                    return data, text.encode()
            else:
                data = data if isinstance(data, dict) else {'x': data}
                text = tomli_w.dumps(data)
                if same(tomllib.loads(text), data):
                    return data, text.encode()
        except Exception:
            continue


suffixes = {'json': ['.json'], 'yaml': ['.yaml', '.yml'], 'toml': ['.toml'],
            'binary': ['.bin', '', '.txt']}


class Case:

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.folder = ctx.folder('c24')
        self.connected = []
        self.disconnected = 0
        self.registered = []
        self.queried = []
        self.behaviour = None
        self.answer = None
        self.n = 0

    async def on_connected(self, info):
        self.connected.append(info)

    async def on_disconnected(self, info):
        self.disconnected += 1

    async def on_register(self, info, events):
        self.registered.append(list(events))
        await aiorun.pause(self.rng)
        if self.behaviour == 'reject':
            return None
        if self.behaviour == 'fail':
            raise Exception('fail')
        if self.behaviour == 'cut':
            self.proxy.cut(reset=True)
            return None
        return [common.Event(common.EventId(1, 1, i + 1), e.type,
                             common.now(), e.source_timestamp, e.payload)
                for i, e in enumerate(events)]

    async def on_query(self, info, params):
        self.queried.append(params)
        await aiorun.pause(self.rng)
        if self.behaviour == 'fail':
            raise Exception('fail')
        if self.behaviour == 'cut':
            self.proxy.cut(reset=True)
        return self.answer

    def base(self, addr, own_process=False):
        """Common arguments"""
        rng = self.rng
        args = option(rng, '--port', addr.port)
        if addr.host != '127.0.0.1' or rng.random() < 0.3:
            args += option(rng, '--host', addr.host)
        self.client_name = 'manager'
        self.client_token = None
        if rng.random() < 0.5:
            self.client_name = rng.choice(['a', 'manager 1', 'ž', ''])
            args += option(rng, '--client-name', self.client_name)
        if rng.random() < 0.5:
            self.client_token = rng.choice(['t', 'ž 1', ''])
            args += option(rng, '--client-token', self.client_token)
        return args

    async def run(self, args, stdin=None):
        rng = self.rng
        out = self.folder / f'out{self.n}'
        self.n += 1
        self.connected.clear()
        self.registered.clear()
        self.queried.clear()
        self.disconnected = 0
        self.ctx.log('run', args, 'behaviour', self.behaviour)
        self.started = common.now()
        if rng.random() < 0.01:
            self.ctx.count('own_process')
            with open(out, 'wb') as o, open(stdin or os.devnull, 'rb') as i:
                process = await asyncio.create_subprocess_exec(
                    sys.executable, '-m', 'hat.event.manager', *args,
                    stdin=i, stdout=o, stderr=asyncio.subprocess.DEVNULL)
            code = await net.finished(self.ctx, process.wait(), 'command')
        else:
            pid = forked.start(command, ['manager', *args], stdout=out,
                               stdin=stdin)
            code = await net.finished(self.ctx, forked.wait(pid), 'command')
        self.finished = common.now()
        self.ctx.log('exit code', code)
        return code, self.lines(out)

    def lines(self, out):
        """What the command has printed"""
        text = out.read_text('utf-8')
        try:
            result = [json.loads(i) for i in text.split('\n') if i]
        except ValueError as e:
            self.ctx.violation('command printed something that is not JSON',
                               {'error': repr(e), 'text': text[:1000]})
        return result

    def check_time(self, got, expected, given, what):
        if not given:
            self.ctx.check(got is None, f'{what} which was not given', got)
        elif expected is None:
            self.ctx.check(self.started <= got <= self.finished,
                           f'{what} is not the current time', got)
        else:
            self.ctx.equal(got, expected, what)

    def check_client(self, subscriptions=(), server_id=None, persisted=False):
        self.ctx.check(len(self.connected) == 1,
                       'command did not connect exactly once',
                       self.connected)
        info = self.connected[0]
        self.ctx.equal((info.client_name, info.client_token, info.server_id,
                        info.persisted),
                       (self.client_name, self.client_token, server_id,
                        persisted), 'presentation of client')
        self.ctx.equal(
            model.normalize(list(info.subscription.get_query_types())),
            model.normalize(subscriptions), 'subscriptions of client')

    # register

    async def register(self):
        ctx, rng = self.ctx, self.rng
        self.behaviour = rng.choices(
            ['accept', 'reject', 'fail', 'cut', 'absent', 'bad'],
            [60, 12, 6, 6, 4, 12])[0]
        args = self.base(self.addr if self.behaviour != 'absent'
                         else net.free_addr())
        args.append('register')
        event_type = gen_type(rng)
        given = rng.random() < 0.5
        t, timestamp = gen_timestamp(rng)
        if given:
            args += option(rng, '--source-timestamp', t)
        kind = rng.choice(['json', 'json', 'yaml', 'toml', 'binary', 'binary',
                           'none'])
        from_stdin = rng.random() < 0.5
        explicit = rng.random() < 0.5
        payload = None
        stdin = None
        if kind == 'none':
            args += option(rng, '--payload-type', 'none')
        else:
            if from_stdin:
                explicit = explicit or kind != 'json'
                path = stdin = self.folder / f'stdin{self.n}'
                if rng.random() < 0.5:
                    args += option(rng, '--payload-path', '-')
                ctx.count('stdin_payloads')
            else:
                suffix = (rng.choice(['', '.json', '.toml', '.x'])
                          if explicit else rng.choice(suffixes[kind]))
                path = self.folder / f'payload{self.n}{suffix}'
                args += option(rng, '--payload-path', path)
            if explicit:
                args += option(rng, '--payload-type', kind)
            if kind == 'binary':
                data = rng.randbytes(rng.choice([0, 1, 20, 300]))
                if rng.random() < 0.2:
                    data = b'{"a": 1}\r\n\x1a'
                path.write_bytes(data)
                binary_type = ''
                if rng.random() < 0.6:
                    binary_type = rng.choice(['', 'bin', 'ž'])
                    args += option(rng, '--binary-type', binary_type)
                payload = common.EventPayloadBinary(binary_type, data)
            else:
                data, raw = encode(rng, kind)
                path.write_bytes(raw)
                payload = common.EventPayloadJson(data)
        args.append('/'.join(event_type))
        if self.behaviour == 'bad':
            reasons = ['timestamp', 'choice', 'no type']
            if kind in ('json', 'toml'):
                reasons += ['garbage'] * 3
            if kind != 'none' and not from_stdin:
                reasons += ['missing'] * 2
            reason = rng.choice(reasons)
            if reason == 'timestamp':
                args[-1:-1] = ['--source-timestamp', 'abc']
            elif reason == 'choice':
                args[-1:-1] = ['--payload-type', 'xml']
            elif reason == 'no type':
                args.pop()
            elif reason == 'garbage':
                path.write_bytes(b'{"a": = 1')
            else:
                path.unlink()
            ctx.log('bad', reason)

        code, lines = await self.run(args, stdin)

        if self.behaviour == 'bad':
            ctx.count('register_bad_input')
            ctx.check(code not in (0, -9), 'bad input reported as success')
            ctx.check(not self.registered, 'bad input registered an event',
                      self.registered)
        elif self.behaviour == 'absent':
            ctx.check(code != 0, 'success without server')
        else:
            self.check_client()
            ctx.check(len(self.registered) == 1 and
                      len(self.registered[0]) == 1,
                      'not exactly one event was registered once',
                      self.registered)
            e = self.registered[0][0]
            ctx.equal(e.type, event_type, 'registered event type')
            self.check_time(e.source_timestamp, timestamp, given,
                            'source timestamp')
            got = e.payload
            if isinstance(got, common.EventPayloadBinary):
                got = got._replace(data=bytes(got.data))
            ctx.check(type(got) is type(payload) and
                      (got == payload if kind != 'none' else True) and
                      same(getattr(got, 'data', None) if kind != 'binary'
                           else None,
                           getattr(payload, 'data', None) if kind != 'binary'
                           else None),
                      'registered payload', {'got': got, 'expected': payload})
            if self.behaviour == 'accept':
                ctx.count('register_accepted')
                ctx.count(f'payload_{kind}')
                ctx.check(code == 0, 'accepted event reported as failure',
                          {'exit code': code})
            else:
                ctx.check(code != 0, 'refused event reported as success',
                          {'behaviour': self.behaviour})
        if self.behaviour in ('reject', 'fail', 'cut', 'absent'):
            ctx.count('register_refused')
        ctx.done((args[1:], self.behaviour, payload),
                 (args, self.behaviour, code))

    # query

    async def query(self):
        ctx, rng = self.ctx, self.rng
        self.behaviour = rng.choices(['answer', 'fail', 'cut', 'absent'],
                                     [85, 5, 5, 5])[0]
        args = self.base(self.addr if self.behaviour != 'absent'
                         else net.free_addr())
        kind = rng.choice(['latest', 'timeseries', 'timeseries', 'server'])
        args += ['query', kind]
        options = []
        params = {}
        times = {}

        def maximum():
            if rng.random() < 0.5:
                params['max_results'] = rng.choice([0, 1, 10, 10 ** 6])
                options.append(option(rng, '--max-results',
                                      params['max_results']))
            if rng.random() < 0.5:
                i = common.EventId(rng.choice([1, 42]), rng.randint(0, 99),
                                   rng.choice([0, 7, 2 ** 40]))
                params['last_event_id'] = i
                options.append(option(rng, '--last-event-id',
                                      ','.join(str(n) for n in i)))

        if kind in ('latest', 'timeseries') and rng.random() < 0.7:
            types = [gen_type(rng, True) for _ in range(rng.randint(0, 3))]
            options.append(['--event-types', *('/'.join(i) for i in types)])
            params['event_types'] = types
        if kind == 'timeseries':
            for i in ('t_from', 't_to', 'source_t_from', 'source_t_to'):
                if rng.random() < 0.3:
                    t, times[i] = gen_timestamp(rng)
                    options.append(option(rng, f'--{i.replace("_", "-")}', t))
            if rng.random() < 0.5:
                params['order'] = rng.choice(list(common.Order))
                options.append(option(rng, '--order', params['order'].name))
            if rng.random() < 0.5:
                params['order_by'] = rng.choice(list(common.OrderBy))
                options.append(option(rng, '--order-by',
                                      params['order_by'].name))
            if 'order' in params or 'order_by' in params:
                ctx.count('query_orders')
            maximum()
            rng.shuffle(options)
        elif kind == 'server':
            if rng.random() < 0.5:
                options.append(['--persisted'])
                params['persisted'] = True
            maximum()
            params['server_id'] = rng.choice([0, 1, 42, 2 ** 60])
            rng.shuffle(options)
            options.append([str(params['server_id'])])
        if 'last_event_id' in params:
            ctx.count('query_last_ids')
        args += [j for i in options for j in i]

        source = storage.Source(rng)
        events = [e for _ in range(rng.choice([0, 1, 3]))
                  for e in source.batch()]
        self.answer = common.QueryResult(events, rng.random() < 0.5)

        code, lines = await self.run(args)

        ctx.count(f'query_{kind}')
        if self.behaviour == 'absent':
            ctx.count('query_failed')
            ctx.check(code != 0 and not lines, 'success without server')
            return
        self.check_client()
        ctx.check(len(self.queried) == 1, 'not exactly one query',
                  self.queried)
        got = self.queried[0]
        cls = {'latest': common.QueryLatestParams,
               'timeseries': common.QueryTimeseriesParams,
               'server': common.QueryServerParams}[kind]
        ctx.check(type(got) is cls, 'query of other kind', got)
        expected = cls(**params)
        types = getattr(got, 'event_types', None)
        if types is not None:
            got = got._replace(event_types=[tuple(i) for i in types])
        for i in ('t_from', 't_to', 'source_t_from', 'source_t_to'):
            if kind == 'timeseries':
                self.check_time(getattr(got, i), times.get(i), i in times, i)
                got = got._replace(**{i: None})
        ctx.equal(got, expected, 'query parameters', arguments=args)
        if self.behaviour == 'answer':
            ctx.check(code == 0, 'answered query reported as failure', code)
            ctx.check(same(lines, [{
                'events': [event_json(e) for e in events],
                'more_follows': self.answer.more_follows}]),
                'printed result is not the answer',
                {'printed': lines, 'answer': self.answer})
        else:
            ctx.count('query_failed')
            ctx.check(code != 0, 'failed query reported as success')
            ctx.check(not lines, 'failed query printed a result', lines)
        ctx.done((args[1:], self.behaviour, [e.id for e in events]),
                 (args, self.behaviour, code, lines[:1]))

    # subscribe

    async def subscribe(self):
        ctx, rng = self.ctx, self.rng
        self.behaviour = None
        args = [*self.base(self.addr), 'subscribe']
        server_id = None
        persisted = False
        options = []
        if rng.random() < 0.4:
            server_id = rng.choice([1, 2])
            options.append(option(rng, '--server-id', server_id))
        if rng.random() < 0.4:
            persisted = True
            options.append(['--persisted'])
        types = ([] if rng.random() < 0.3 else
                 [gen_type(rng, True) for _ in range(rng.randint(1, 3))])
        rng.shuffle(options)
        args += [j for i in options for j in i]
        args += ['/'.join(i) for i in types]
        subscriptions = types or [('*', )]

        async def notify():
            expected = []
            source = storage.Source(rng, servers=2, max_batch=6)
            while not self.server.get_conn_infos():
                await asyncio.sleep(0.002)
            for _ in range(rng.choice([0, 5, 20])):
                mode = rng.random() < (0.7 if persisted else 0.3)
                batch = source.batch()
                ctx.log('notify', mode, [(e.id, e.type) for e in batch])
                matching = [e for e in batch
                            if mode == persisted and
                            server_id in (None, e.id.server) and
                            model.matches_any(e.type, subscriptions)]
                ctx.count('subscribe_filtered', len(batch) - len(matching))
                expected += matching
                await self.server.notify_events(batch, mode,
                                                with_ack=rng.random() < 0.5)
            # acknowledged when everything before it is printed
            last = common.Event(
                common.EventId(server_id or 1, 10 ** 9, 1),
                ('x', ), common.now(), None, None)
            if server_id in (None, 1, 2):
                t = next((tuple('x' if j == '?' else j for j in i if j != '*')
                          for i in subscriptions), ())
                last = last._replace(type=t)
            await self.server.notify_events([last], persisted, with_ack=True)
            return [*expected, last]

        task = asyncio.ensure_future(notify())
        way = rng.choice(['SIGTERM', 'SIGINT', 'cut', 'close'])
        out = self.folder / f'out{self.n}'
        self.n += 1
        self.connected.clear()
        self.started = common.now()
        ctx.log('run', args, 'end', way)
        pid = forked.start(command, ['manager', *args], stdout=out)
        try:
            expected = await net.finished(ctx, task, 'notification')
            self.check_client(subscriptions, server_id, persisted)
            if way == 'SIGTERM' or way == 'SIGINT':
                os.kill(pid, getattr(signal, way))
            elif way == 'cut':
                self.proxy.cut(reset=rng.random() < 0.5)
            else:
                await self.server.async_close()
            code = await net.finished(ctx, forked.wait(pid), 'command')
            pid = None
        finally:
            if pid is not None:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
        ctx.log('exit code', code)
        lines = self.lines(out)
        ctx.check(all(isinstance(i, list) and
                      all(isinstance(e, dict) for e in i) for i in lines),
                  'printed lines are not lists of events', lines[:3])
        got = [e for line in lines for e in line]
        if not same(got, [event_json(e) for e in expected]):
            ctx.violation('printed events are not the matching ones', {
                'arguments': args, 'printed': [e['id'] for e in got],
                'expected': [e.id for e in expected],
                'first printed': got[:2], 'first expected': expected[:2]})
        ctx.count('subscribe')
        ctx.count('subscribe_events', len(got))
        ctx.done((args[1:], way, [e.id for e in expected]),
                 (args, way, code, lines[:2]))
        if way == 'close':
            await self.open_server()

    async def open_server(self):
        self.server = await eventer.listen(
            self.target, connected_cb=self.on_connected,
            disconnected_cb=self.on_disconnected,
            register_cb=self.on_register, query_cb=self.on_query)


async def case(ctx):
    rng = ctx.rng
    c = Case(ctx)
    c.target = net.free_addr()
    await c.open_server()
    c.proxy = net.Proxy(c.target, rng)
    # default host in some cases
    await c.proxy.open('127.0.0.1' if rng.random() < 0.25 else None)
    if rng.random() < 0.3:
        c.proxy.split = 0.3
    c.addr = c.proxy.addr
    try:
        for _ in range(rng.randint(3, 6)):
            await rng.choice([c.register, c.query, c.query, c.subscribe])()
            await net.until(ctx, lambda: not c.server.get_conn_infos(),
                            'disconnection of finished command')
    finally:
        await c.proxy.close()
        await c.server.async_close()


def run_case(ctx):
    aiorun.run(ctx, case)
