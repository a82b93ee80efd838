"""C33: configuration of the server."""

import asyncio
import contextlib
import copy
import json
import os
import pathlib
import signal
import socket
import sys
import tomllib

import tomli_w
import yaml

from hat.drivers import tcp
from hat.event import adminer
from hat.event import common
from hat.event import eventer

from rt import aiorun
from rt import forked
from rt import gen
from rt import model
from rt import net
from rt import rawdb
from rt import storage

LEVEL = 'exploration'
RULE = ('the real server command is run in a process of its own with random '
        'valid configurations, and with ones made invalid by a single random '
        'change anywhere in them. Invalid ones have to end the process '
        'unsuccessfully without anything left; of valid ones everything '
        'observable through clients, files and log is compared with the '
        'configuration. An evaluation is one run of the server, distinct by '
        'the configuration')
TIERS = {'quick': {'cases': 2040, 'time': 75},
         'thorough': {'cases': 8000, 'time': 480}}
REQUIRE = {'valid': 150, 'refused': 500, 'refused_server': 120,
           'refused_backend': 180, 'refused_module': 90,
           'refused_import': 35, 'refused_data': 15, 'json': 30, 'yaml': 40,
           'toml': 40, 'stdin': 30, 'own_process': 5, 'events': 2000,
           'derived': 400, 'latest': 200, 'series': 100, 'adminer': 60,
           'no_adminer': 60, 'logged': 40, 'modules': 150,
           'backend_lmdb': 100, 'backend_memory': 12, 'backend_strict': 10,
           'tokens_checked': 400, 'limited': 20, 'persisted': 20}
UP = 30


def setup_worker(spec):
    import hat.event.server.main  # NOQA
    import hat.event.backends.lmdb  # NOQA
    import rt.strict  # NOQA
    import rt.strict2  # NOQA
    import rt.strictbackend  # NOQA


def command():
    from hat.event.server import main
    return main.main()


# valid configurations --------------------------------------------------------

SERIES = ['a', 'b', 'c', 'd']


def gen_log(rng, folder):
    level = rng.choice(['DEBUG', 'INFO'])
    conf = {'version': 1,
            'disable_existing_loggers': False,
            'formatters': {'f': {'format': rng.choice(
                ['%(levelname)s|%(name)s|%(message)s',
                 '[%(asctime)s %(levelname)s %(name)s] %(message)s'])}},
            'handlers': {'h': {'class': 'logging.FileHandler',
                               'filename': str(folder / 'log.txt'),
                               'encoding': 'utf-8',
                               'formatter': 'f'}}}
    if rng.random() < 0.5:
        conf['root'] = {'level': level, 'handlers': ['h']}
    else:
        conf['loggers'] = {'hat.event': {'level': level, 'handlers': ['h'],
                                         'propagate': rng.random() < 0.5}}
    return conf


def gen_modules(rng, folder):
    result = []
    for i in range(rng.choice([0, 0, 1, 2, 3])):
        n = rng.randrange(3)
        result.append({
            'module': rng.choice(['rt.strict2', 'rt.strict']), 'from': SERIES[n],
            # acyclic
            'to': [rng.choice(SERIES[n + 1:])
                   for _ in range(rng.randint(0, 2))],
            'mark': str(folder / f'{i}.mark')})
        if rng.random() < 0.2:
            result[-1]['level'] = 1
        if rng.random() < 0.2:
            result[-1]['unknown'] = {'a': [1]}
    return result


def gen_backend(rng, folder, kind):
    if kind == 'memory':
        return {'module': 'hat.event.backends.memory'}
    if kind == 'strict':
        return {'module': 'rt.strictbackend', 'path': str(folder / 'made')}
    conf = storage.gen_conf(rng, folder / 'event.db', cleanup_period=1000,
                            flush_period=rng.choice([0.02, 0.05, 1, 1000]))
    if rng.random() < 0.3:
        conf['identifier'] = rng.choice(['ž', 'x y', '', 'id2'])
    if rng.random() < 0.25:
        # cleanup that can be observed
        conf['flush_period'] = 0.02
        conf['cleanup_period'] = 0.02
        for i in conf['timeseries']:
            i['limit'] = {'max_entries': rng.choice([0, 1, 3, 7])}
            if rng.random() < 0.4:
                i['limit']['min_entries'] = rng.choice([0, 2, 5])
    return {'module': 'hat.event.backends.lmdb', **conf}


def gen_conf(rng, folder, kind):
    host = net.own_host()
    conf = {'name': rng.choice(['server', 'ž', '', 'event server']),
            'server_id': rng.choice([0, 1, 2, 5, 300, 2 ** 31, 2 ** 40,
                                     2 ** 63 - 1]),
            'backend': gen_backend(rng, folder, kind),
            'modules': gen_modules(rng, folder),
            'eventer_server': {'host': host, 'port': net.free_port(host)}}
    if rng.random() < 0.5:
        conf['type'] = 'event'
    if rng.random() < 0.3:
        conf['version'] = rng.choice(['1.2.3', '', 'x'])
    if rng.random() < 0.5:
        conf['log'] = gen_log(rng, folder)
    k = rng.random()
    if k < 0.2:
        conf['server_token'] = None
    elif k < 0.6:
        conf['server_token'] = rng.choice(['token', '', 'ž'])
    if rng.random() < 0.5:
        conf['adminer_server'] = {'host': host, 'port': net.free_port(host)}
    if rng.random() < 0.2:
        conf['something'] = [None, {'else': 1}]
    if rng.random() < 0.3:
        items = list(conf.items())
        rng.shuffle(items)
        conf = dict(items)
    return conf


# changes which make configuration invalid ------------------------------------

def values(rng, *types):
    """Random value that isn't of given JSON types"""
    pool = [('null', None), ('boolean', True), ('boolean', False),
            ('string', ''), ('string', 'x'), ('string', '1'),
            ('number', 1.5), ('integer', 1), ('integer', 0), ('array', []),
            ('array', [1]), ('array', ['x']), ('object', {}),
            ('object', {'x': 1})]
    return rng.choice([v for t, v in pool if t not in types and not (
        t == 'integer' and 'number' in types)])


def change(rng, conf, *path):
    """Function which replaces value"""
    def fn(value):
        x = conf
        for i in path[:-1]:
            x = x[i]
        x[path[-1]] = value
    return fn


def break_server(rng, conf):
    """Violate schema of the server"""
    if 'monitor_component' not in conf and rng.random() < 0.2:
        conf['monitor_component'] = {'host': '127.0.0.1', 'port': 1,
                                     'group': 'g'}
    ways = [('type', 'any', lambda: rng.choice(
        ['events', 'Event', '', None, 1, ['event']]))]
    ways += [(key, 'missing', None) for key in
             ['name', 'server_id', 'backend', 'modules', 'eventer_server']]
    ways += [(key, 'value', types) for key, types in [
        ('version', ['string']), ('name', ['string']),
        ('server_id', ['integer']), ('server_token', ['string', 'null']),
        ('backend', ['object']), ('modules', ['array']),
        ('eventer_server', ['object']), ('adminer_server', ['object']),
        ('monitor_component', ['object']), ('log', ['object'])]]
    for key, keys in [('eventer_server', ['host', 'port']),
                      ('adminer_server', ['host', 'port']),
                      ('monitor_component', ['host', 'port', 'group'])]:
        if key in conf:
            ways += [((key, i), 'missing', None) for i in keys]
            ways += [((key, i), 'value',
                      ['integer' if i == 'port' else 'string'])
                     for i in keys]
    ways += [(('backend', 'module'), 'missing', None),
             (('backend', 'module'), 'value', ['string'])]
    for i in range(len(conf['modules'])):
        ways += [(('modules', i, 'module'), 'missing', None),
                 (('modules', i, 'module'), 'value', ['string']),
                 (('modules', i), 'value', ['object'])]
    if 'log' in conf:
        ways += [(('log', 'version'), 'missing', None),
                 (('log', 'version'), 'value', ['integer']),
                 (('log', 'handlers', 'h', 'class'), 'missing', None),
                 (('log', 'handlers', 'h', 'class'), 'value', ['string']),
                 (('log', 'disable_existing_loggers'), 'value',
                  ['boolean'])]
    return apply(rng, conf, ways)


def break_backend(rng, conf):
    """Violate schema of the storage"""
    backend = conf['backend']
    if backend['module'] == 'rt.strictbackend':
        ways = [('path', 'missing', None), ('path', 'value', ['string']),
                ('level', 'any', lambda: rng.choice([0, 3, '1', None]))]
        return ['backend', *apply(rng, backend, ways)]
    ways = [(key, 'missing', None) for key in [
        'db_path', 'identifier', 'flush_period', 'cleanup_period',
        'conditions', 'latest', 'timeseries']]
    ways += [(key, 'value', types) for key, types in [
        ('db_path', ['string']), ('identifier', ['string', 'null']),
        ('flush_period', ['number']), ('cleanup_period', ['number']),
        ('conditions', ['array']), ('latest', ['object']),
        ('timeseries', ['array']), ('timeseries_max_results', ['integer']),
        ('timeseries_event_type_cache_size', ['integer'])]]
    ways += [(('latest', 'subscriptions'), 'missing', None),
             (('latest', 'subscriptions'), 'value', ['array']),
             (('latest', 'subscriptions'), 'any', lambda: rng.choice(
                 [[['a'], 'b'], [['a', 1]], [None], [[['a']]], [{}]]))]

    if not backend['timeseries'] or rng.random() < 0.3:
        backend['timeseries'].append(
            {'order_by': 'TIMESTAMP', 'subscriptions': [['z', '*']]})
    if rng.random() < 0.5:
        rng.choice(backend['timeseries']).setdefault('limit', {})
    for i, partition in enumerate(backend['timeseries']):
        p = 'timeseries', i
        ways += [(p, 'value', ['object']),
                 ((*p, 'order_by'), 'missing', None),
                 ((*p, 'order_by'), 'any', lambda: rng.choice(
                     ['timestamp', 'ID', None, 1, ['TIMESTAMP']])),
                 ((*p, 'subscriptions'), 'missing', None),
                 ((*p, 'subscriptions'), 'value', ['array'])]
        if 'limit' in partition:
            ways += [((*p, 'limit', key), 'value', ['number'])
                     for key in ['min_entries', 'max_entries', 'duration',
                                 'size']] * 2
        ways.append(((*p, 'limit'), 'value', ['object']))

    if not backend['conditions'] and rng.random() < 0.5:
        backend['conditions'].append(
            {'subscriptions': [['a', '*']],
             'condition': storage.gen_condition(rng)})
    for i, _ in enumerate(backend['conditions']):
        p = 'conditions', i
        ways += [((*p, 'condition'), 'any', lambda: {
            'type': 'json', 'data_type': rng.choice(
                ['int', 'integer', 'float', 'dict', 'list', 'bool', 'NULL',
                 'any', '*', None])})] * 3
        ways += [(p, 'value', ['object']),
                 ((*p, 'condition'), 'missing', None),
                 ((*p, 'subscriptions'), 'missing', None),
                 ((*p, 'subscriptions'), 'value', ['array'])]
        ways += [((*p, *path), 'any', value) for path, value in
                 condition_ways(rng, backend['conditions'][i]['condition'],
                                ['condition'])] * 2
    return ['backend', *apply(rng, backend, ways)]


def condition_ways(rng, conf, path):
    yield path, lambda: values(rng, 'object')
    yield path, lambda: {}
    yield [*path, 'type'], lambda: rng.choice(['none', None, 'ALL', 1])
    if conf['type'] == 'json':
        yield [*path, 'data_type'], lambda: rng.choice(
            ['int', 'integer', 'dict', None, 1, 'Number'])
        yield [*path, 'data_path'], lambda: rng.choice(
            [1.5, None, {}, ['a', None], [['a', 0.5]], True])
    else:
        yield [*path, 'conditions'], lambda: values(rng, 'array')
        for i, x in enumerate(conf['conditions']):
            yield from condition_ways(rng, x, [*path, 'conditions', i])


def break_module(rng, conf):
    """Violate schema of one of modules"""
    i = rng.randrange(len(conf['modules']))
    ways = [(key, 'missing', None) for key in ['from', 'to', 'mark']]
    ways += [('from', 'value', ['string']), ('to', 'value', ['array']),
             ('mark', 'value', ['string']), ('from', 'any', lambda: ''),
             ('to', 'any', lambda: rng.choice([[1], ['b', None]])),
             ('mark', 'any', lambda: conf['modules'][i].get('mark') + 's'),
             ('level', 'any', lambda: rng.choice([0, 3, '1', None]))]
    return ['modules', i, *apply(rng, conf['modules'][i], ways)]


def break_import(rng, conf):
    """Refer to something that isn't what it should be"""
    strange = ['no.such.module', 'rt.notinfo', 'json', '', 'rt.strict.Module',
               'hat.event.backends', 'rt']
    if conf['modules'] and rng.random() < 0.6:
        i = rng.randrange(len(conf['modules']))
        conf['modules'][i]['module'] = rng.choice(
            [*strange, 'rt.strictbackend', 'hat.event.backends.memory',
             'hat.event.backends.lmdb'])
        return ['modules', i, conf['modules'][i]['module']]
    conf['backend']['module'] = rng.choice([*strange, 'rt.strict'])
    return ['backend', conf['backend']['module']]


def apply(rng, conf, ways):
    """Do one of changes"""
    while True:
        path, way, arg = rng.choice(ways)
        path = path if isinstance(path, (tuple, list)) else [path]
        x = conf
        for i in path[:-1]:
            x = x[i]
        if way == 'missing':
            if path[-1] in x:
                del x[path[-1]]
                return [*path, 'missing']
            continue
        value = values(rng, *arg) if way == 'value' else arg()
        if (isinstance(x, dict) and path[-1] == 'data_value'):
            continue
        x[path[-1]] = value
        return [*path, value]


# running ---------------------------------------------------------------------

def write(rng, folder, conf, kinds=('json', 'yaml', 'yml', 'toml', 'stdin')):
    """Configuration in some form, returns arguments of process"""
    while True:
        kind = rng.choice(kinds)
        if kind == 'toml':
            try:
                text = tomli_w.dumps(conf)
                if tomllib.loads(text) != conf:
                    continue
            except Exception:
                continue
        elif kind in ('yaml', 'yml'):
            text = yaml.safe_dump(conf, allow_unicode=rng.random() < 0.5,
                                  sort_keys=rng.random() < 0.5)
            if yaml.safe_load(text) != conf:
                continue
        else:
            text = json.dumps(conf, ensure_ascii=rng.random() < 0.5)
        break
    path = folder / f'conf.{"json" if kind == "stdin" else kind}'
    path.write_bytes(text.encode())
    return kind, path


def without_null(x):
    """TOML can't express it"""
    if isinstance(x, dict):
        return all(without_null(i) for i in x.values())
    if isinstance(x, list):
        return all(without_null(i) for i in x)
    return x is not None


def listing(folder):
    return sorted(str(i.relative_to(folder)) for i in folder.rglob('*'))


async def run_refused(ctx, rng, folder):
    kind = rng.choices(['server', 'backend', 'module', 'import', 'data'],
                       [30, 40, 20, 10, 5])[0]
    conf = gen_conf(rng, folder,
                    rng.choice(['lmdb', 'lmdb', 'lmdb', 'strict'])
                    if kind in ('backend', 'import') else
                    rng.choice(['lmdb', 'memory', 'strict']))
    while kind == 'module' and not conf['modules']:
        conf['modules'] = gen_modules(rng, folder)
    # everything is reserved so that anything done too early fails later
    what = []
    if kind == 'data':
        data = rng.choice([b'', b'{', b'\xff\xfe\xfa', b'[', b'null', b'[]',
                           b'"x"', b'1', b'{}',
                           json.dumps([conf]).encode(),
                           json.dumps(conf).encode()[:-1]])
        path = folder / rng.choice(['conf.json', 'conf.yaml', 'conf.toml',
                                    'conf.txt', 'missing.json'])
        if path.name != 'missing.json':
            path.write_bytes(data)
        form, what = 'json', [path.name, data[:20]]
    else:
        what = {'server': break_server, 'backend': break_backend,
                'module': break_module,
                'import': break_import}[kind](rng, conf)
        forms = ['json', 'json', 'yaml', 'yml', 'stdin']
        if without_null(conf):
            forms.append('toml')
        form, path = write(rng, folder, conf, forms)
    ctx.log('invalid', kind, what, 'as', form)
    before = listing(folder)
    pid = forked.start(
        command, ['server', '--conf', '-' if form == 'stdin' else path],
        stdin=path if form == 'stdin' else None)
    task = asyncio.ensure_future(forked.wait(pid))
    try:
        done, _ = await asyncio.wait([task], timeout=UP)
        ctx.check(done, 'server runs with invalid configuration',
                  {'invalid': what, 'conf': conf})
    finally:
        if not task.done():
            with contextlib.suppress(ProcessLookupError):
                os.kill(pid, signal.SIGKILL)
            await task
    ctx.check(task.result() not in (0, None),
              'server with invalid configuration ends successfully',
              {'invalid': what, 'code': task.result()})
    ctx.equal(listing(folder), before,
              'something was done with invalid configuration', invalid=what)
    ctx.count('refused')
    ctx.count(f'refused_{kind}')
    ctx.done((kind, what, form), (kind, what, form))


class Server:
    """Running server process"""

    def __init__(self, ctx, folder, conf):
        self.ctx = ctx
        self.rng = ctx.rng
        self.folder = folder
        self.conf = conf
        self.addr = tcp.Address(conf['eventer_server']['host'],
                                conf['eventer_server']['port'])
        self.process = None
        self.task = None
        self.code = None

    async def start(self):
        rng, conf = self.rng, self.conf
        if rng.random() < 0.05:
            # default location, others are of lesser importance
            self.ctx.count('own_process')
            folder = self.folder / 'home' / 'hat'
            folder.mkdir(parents=True)
            names = ['event.yaml', 'event.yml', 'event.toml', 'event.json']
            if not without_null(conf):
                names.remove('event.toml')
            i = rng.randrange(len(names))
            suffix = names[i].split('.')[1]
            _, path = write(rng, self.folder, conf, [suffix])
            path.rename(folder / names[i])
            other = {**conf, 'name': 5}
            for name in names[i + 1:]:
                if rng.random() < 0.5:
                    (folder / name).write_text(
                        json.dumps(other) if name != 'event.toml' else 'x=1')
            env = {**os.environ, 'XDG_CONFIG_HOME': str(self.folder / 'home')}
            self.process = await asyncio.create_subprocess_exec(
                sys.executable, '-m', 'hat.event.server', env=env,
                stdin=asyncio.subprocess.DEVNULL,
                stdout=asyncio.subprocess.DEVNULL,
                stderr=asyncio.subprocess.DEVNULL)
            self.pid = self.process.pid
            self.task = asyncio.ensure_future(self.process.wait())
            self.form = suffix
        else:
            forms = ['json', 'yaml', 'yml', 'stdin']
            if without_null(conf):
                forms = [*forms, 'toml', 'toml', 'toml', 'toml']
            self.form, path = write(rng, self.folder, conf, forms)
            stdin = self.form == 'stdin'
            self.pid = forked.start(
                command, ['server', '--conf', '-' if stdin else path],
                stdin=path if stdin else None)
            self.task = asyncio.ensure_future(forked.wait(self.pid))
        self.ctx.count('yaml' if self.form == 'yml' else self.form)

    async def up(self):
        async def wait():
            while True:
                self.ctx.check(not self.task.done(),
                               'server with valid configuration ended',
                               lambda: {'code': self.task.result(),
                                        'conf': self.conf})
                try:
                    return await eventer.connect(self.addr, 'up')
                except (ConnectionError, OSError, eventer.EventerInitError):
                    await asyncio.sleep(0.01)

        client = await net.finished(self.ctx, wait(), 'start of server', UP)
        await net.until(
            self.ctx, lambda: client.status == common.Status.OPERATIONAL,
            'operational status', UP, lambda: self.conf)
        return client

    async def end(self):
        os.kill(self.pid, self.rng.choice([signal.SIGTERM, signal.SIGINT]))
        return await net.finished(self.ctx, self.task, 'end of server', UP)

    async def kill(self):
        if self.task and not self.task.done():
            with contextlib.suppress(ProcessLookupError):
                os.kill(self.pid, signal.SIGKILL)
            await self.task


def occupied(host, port):
    s = socket.socket()
    try:
        s.bind((host, port))
        return False
    except OSError:
        return True
    finally:
        s.close()


def closure(modules, event):
    """Types of all events of session, besides their remaining segments"""
    result = [event.type]
    pending = [event.type]
    while pending:
        t = pending.pop()
        if not t or t[0] == 'event':
            continue
        for m in modules:
            if m['from'] == t[0]:
                new = [(to, *t[1:]) for to in m['to']]
                result.extend(new)
                pending.extend(new)
    return result


async def run_valid(ctx, rng, folder):
    kind = rng.choices(['lmdb', 'memory', 'strict'], [80, 12, 8])[0]
    conf = gen_conf(rng, folder, kind)
    if rng.random() < 0.4:
        # expressible as TOML
        conf.pop('something', None)
        if conf.get('server_token', '') is None:
            del conf['server_token']
        if kind == 'lmdb' and conf['backend']['identifier'] is None:
            conf['backend']['identifier'] = 'id'
    original = copy.deepcopy(conf)
    s = Server(ctx, folder, conf)
    clients = []
    try:
        await s.start()
        client = await s.up()
        clients.append(client)
        ctx.log('up as', s.form)

        events = []

        async def on_events(_, batch):
            events.extend(batch)

        watcher = await eventer.connect(s.addr, 'watcher',
                                        subscriptions=[('*', )],
                                        events_cb=on_events)
        clients.append(watcher)

        persisted = []

        async def on_persisted(_, batch):
            persisted.extend(batch)

        clients.append(await eventer.connect(
            s.addr, 'watcher', subscriptions=[('*', )], persisted=True,
            events_cb=on_persisted))

        await check_token(ctx, rng, conf, s, clients)
        await check_adminer(ctx, conf, clients)

        # events
        sent = []
        for _ in range(rng.randint(1, 8)):
            batch = [gen.register_event(rng, 3, odd=0.02)
                     for _ in range(rng.randint(1, 4))]
            batch = [i for i in batch if not i.type or i.type[0] != 'event']
            got = await net.finished(ctx, client.register(batch, True),
                                     'registration')
            ctx.check(got is not None, 'registration was refused')
            ctx.check(all(e.id.server == conf['server_id'] for e in got),
                      'identifiers are of another server',
                      {'conf': conf['server_id'], 'got': got[:1]})
            sent.append((batch, got))
        last = sent[-1][1][-1].id if sent[-1][1] else None
        expected = []
        for batch, _ in sent:
            for i in batch:
                expected.extend(closure(conf['modules'], i))
        if last:
            await net.until(
                ctx, lambda: sum(1 for e in events
                                 if e.type[:1] != ('event', )) >=
                len(expected), 'notification of events', UP,
                lambda: {'expected': expected,
                         'got': [e.type for e in events]})
        own = [e for e in events if e.type[:1] != ('event', )]
        ctx.equal(sorted(e.type for e in own), sorted(expected),
                  'registered events', conf=conf['modules'])
        ctx.count('events', len(own))
        ctx.count('derived', len(own) - sum(len(i) for i, _ in sent))

        # modules were created once, each with its own configuration
        for i in range(len(conf['modules'])):
            ctx.equal((folder / f'{i}.mark').read_text(),
                      f"{conf['modules'][i]['from']} {i}\n",
                      'creation of module')
            ctx.count('modules')
        ctx.equal(sorted(i.name for i in folder.glob('*.mark')),
                  sorted(f'{i}.mark' for i in range(len(conf['modules']))),
                  'created modules')

        ctx.count(f'backend_{kind}')
        if kind == 'lmdb':
            await check_lmdb(ctx, rng, conf, client, events,
                             persisted)
        else:
            result = await net.finished(ctx, client.query(
                common.QueryServerParams(conf['server_id'])), 'query')
            ctx.equal([e for e in result.events if e.type[:1] != ('event', )],
                      own, 'stored events')

        ctx.check(not s.task.done(), 'server ended')
        for i in clients:
            await i.async_close()
        code = await s.end()
        ctx.equal(code, 0, 'exit code of server')
        ctx.check(not occupied(*s.addr), 'port is still open')
        check_log(ctx, conf, folder)
        if kind == 'lmdb':
            check_file(ctx, conf, folder, own)
        ctx.equal(conf, original, 'harness')
        ctx.count('valid')
        ctx.done((json.dumps(conf['backend'], default=str),
                  len(conf['modules']), sorted(conf), s.form),
                 ('valid', s.form, sorted(conf), len(own)))
    finally:
        for i in clients:
            i.close()
        await s.kill()


async def check_token(ctx, rng, conf, s, clients):
    token = conf.get('server_token')
    for given in rng.sample([None, token, 'other', 'token', ''], 3):
        accepted = given is None or given == token
        try:
            c = await net.finished(ctx, eventer.connect(
                s.addr, 'token', client_token=given), 'connection')
        except (eventer.EventerInitError, ConnectionError) as e:
            ctx.check(not accepted, 'client was refused',
                      {'server': token, 'client': given, 'error': repr(e)})
        else:
            clients.append(c)
            ctx.check(accepted, 'client with wrong token was accepted',
                      {'server': token, 'client': given})
        ctx.count('tokens_checked')


async def check_adminer(ctx, conf, clients):
    if 'adminer_server' not in conf:
        ctx.count('no_adminer')
        return
    addr = tcp.Address(conf['adminer_server']['host'],
                       conf['adminer_server']['port'])
    c = await net.finished(ctx, adminer.connect(addr), 'adminer')
    try:
        got = await net.finished(ctx, c.get_log_conf(), 'log conf')
        ctx.equal(got, conf.get('log'), 'log configuration')
    finally:
        await c.async_close()
    ctx.count('adminer')


def check_log(ctx, conf, folder):
    path = folder / 'log.txt'
    if 'log' not in conf:
        ctx.check(not path.exists(), 'log without configuration')
        return
    lines = path.read_text('utf-8').splitlines()
    level = (conf['log'].get('root') or
             conf['log']['loggers']['hat.event'])['level']
    mine = [i for i in lines if 'hat.event.server' in i]
    if level == 'DEBUG':
        ctx.check(mine, 'nothing was logged', lines[:5])
        ctx.count('logged')
    first = conf['log']['formatters']['f']['format'][0]
    if first == '[':
        ctx.check(all(i[0] == '[' for i in mine), 'format of log', mine[:3])
    else:
        ctx.check(all(i.split('|')[0] in ('DEBUG', 'INFO', 'WARNING',
                                          'ERROR') for i in mine),
                  'format of log', mine[:3])
    if level == 'INFO':
        ctx.check(not any('DEBUG' in i[:40] for i in mine),
                  'level of log', mine[:3])


async def check_lmdb(ctx, rng, conf, client, events, persisted):
    backend = conf['backend']
    limited = backend['cleanup_period'] < 1
    m = model.Storage()
    m.configure(backend)
    m.register(events)
    types = rng.choice([
        [(i, '*') for i in SERIES], [(i, '*') for i in reversed(SERIES)],
        [(i, '*') for i in SERIES], [('a', '*')], [('b', '*'), ('c', )],
        [(rng.choice(SERIES), '?')], [('d', '*'), ('a', '*')], []])
    params = common.QueryLatestParams(types)
    result = await net.finished(ctx, client.query(params), 'query')
    ctx.equal({e.type: e for e in result.events}, m.query_latest(params),
              'latest events', conf=backend)
    ctx.count('latest', len(result.events))
    for order_by in common.OrderBy:
        params = common.QueryTimeseriesParams(
            event_types=types, order_by=order_by,
            order=rng.choice(list(common.Order)))
        result = await net.finished(ctx, client.query(params), 'query')
        limit = backend.get('timeseries_max_results', 4096)
        expected, more = m.query_timeseries(params, limit)
        if not limited:
            ctx.equal((list(result.events), result.more_follows),
                      (expected, more), 'timeseries', params=params,
                      conf=backend)
            ctx.count('series', len(expected))
            continue
        # oldest are removed down to limit
        full, _ = m.query_timeseries(params, 10 ** 6)
        ctx.check(all(e in full for e in result.events),
                  'unknown event in timeseries', params)
    if backend['flush_period'] < 0.1:
        await net.until(
            ctx, lambda: {e.id for e in events if e.type[:1] != ('event', )}
            <= {e.id for e in persisted}, 'persisted notification', UP,
            lambda: {'conf': backend})
        ctx.count('persisted')
    if not limited:
        return
    for key in m.active:
        # events of this partition, whatever else is in it
        order_by, _ = key
        p = m.partitions[key]
        index = m.active.index(key)
        if any(k[0] == order_by and k in m.active[:index]
               for k in m.active):
            continue
        bound = bounds(backend)[index]

        async def count():
            # any subscription of this partition selects it
            result = await client.query(common.QueryTimeseriesParams(
                order_by=order_by))
            return len(result.events)

        if not p.types or not p.events:
            continue
        deadline = asyncio.get_running_loop().time() + UP
        while await net.finished(ctx, count(), 'query') > bound:
            ctx.check(asyncio.get_running_loop().time() < deadline,
                      'timeseries is not cleaned up',
                      {'conf': backend, 'bound': bound})
            await asyncio.sleep(0.02)
        ctx.count('limited')


def bounds(backend):
    return [max(i['limit']['max_entries'], i['limit'].get('min_entries', 0))
            for i in unique(backend['timeseries'])]


def unique(series):
    seen = []
    for i in series:
        key = i['order_by'], model.normalize(i['subscriptions'])
        if key not in seen:
            seen.append(key)
            yield i


def check_file(ctx, conf, folder, own):
    path = pathlib.Path(conf['backend']['db_path'])
    ctx.check(path.exists(), 'there is no database')
    d = rawdb.dump(path)
    ctx.equal(d['SYSTEM_SETTINGS'].get(1), conf['backend']['identifier'],
              'identifier of database')


async def case(ctx):
    rng = ctx.rng
    folder = ctx.folder('c33')
    if rng.random() < 0.3:
        await run_valid(ctx, rng, folder)
    else:
        for i in range(rng.choice([1, 1, 2])):
            (folder / str(i)).mkdir()
            await run_refused(ctx, rng, folder / str(i))


def run_case(ctx):
    aiorun.run(ctx, case)
