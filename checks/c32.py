"""C32: identity of databases."""

import asyncio
import hashlib
import os
import pathlib
import threading

import lmdb

from hat import json
from hat.event import common
import hat.event.server.main_runner

from checks import c22
from rt import aiorun
from rt import gen
from rt import net
from rt import rawdb
from rt import storage

LEVEL = 'exploration'
RULE = ('a database file goes through random generations of the on-disk '
        'storage configured with random identifiers, and creations of it '
        'that are canceled at any moment. A model knows which identifier '
        'belongs to the file; wrong identifiers, other versions, databases '
        'of older versions and files which are something else have to be '
        'refused, leaving every byte of them and no open file, task or '
        'thread, so that the right configuration works afterwards and '
        'returns everything that was registered. Whole servers given such a '
        'file have to end without listening. An evaluation is one creation, '
        'non-trivial if it was refused or canceled or the file had an '
        'identifier, distinct by kind, identifiers and contents')
TIERS = {'quick': {'cases': 2640, 'time': 45},
         'thorough': {'cases': 30000, 'time': 400}}
REQUIRE = {'adopted': 150, 'kept': 300, 'refused_identifier': 300,
           'refused_version': 100, 'refused_old': 60, 'refused_file': 150,
           'canceled': 150, 'canceled_first': 40, 'servers': 60, 'startups': 100,
           'checked_queries': 1000, 'nonempty': 400}

IDENTIFIERS = ['id', 'Id', 'id ', 'ie', '', 'null', '0', 'ž', 'i\0d', '"id"',
               'x' * 3000]


def digest(path):
    if not path.exists():
        return None
    if path.is_dir():
        return sorted(i.name for i in path.iterdir())
    return hashlib.sha1(path.read_bytes()).hexdigest()


def opened(path):
    result = []
    for i in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink(f'/proc/self/fd/{i}')
        except OSError:
            continue
        if target.startswith(str(path)):
            result.append(target)
    return result


class Leftovers:

    def __init__(self, ctx, path):
        self.ctx = ctx
        self.path = path
        self.tasks = len(asyncio.all_tasks())
        self.threads = threading.active_count()

    async def check(self, what):
        loop = asyncio.get_running_loop()
        end = loop.time() + 5
        while loop.time() < end:
            files = opened(self.path)
            tasks = len(asyncio.all_tasks())
            threads = threading.active_count()
            if (not files and tasks <= self.tasks and
                    threads <= self.threads):
                return
            await asyncio.sleep(0.002)
        self.ctx.violation(f'{what} leaves something behind', {
            'files': files, 'tasks': (self.tasks, tasks),
            'threads': (self.threads, threads)})


class Harness:

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.folder = ctx.folder('db')
        self.path = self.folder / 'event.db'
        self.info = common.import_backend_info('hat.event.backends.lmdb')
        self.identifier = None
        self.exists = False
        self.source = storage.Source(ctx.rng, servers=ctx.rng.randint(1, 2))
        self.conf = self.gen_conf()
        self.db = storage.Lmdb(ctx, self.conf, self.source)
        # few, so that they repeat
        self.identifiers = ctx.rng.sample(IDENTIFIERS, ctx.rng.randint(2, 3))

    def gen_conf(self, path=None):
        period = self.rng.choice([1000, 0.001])
        return storage.gen_conf(self.rng, path or self.path,
                                flush_period=period, cleanup_period=period)

    def note(self, kind, *args):
        self.ctx.log(kind, *args, 'identifier', self.identifier)
        trivial = kind == 'open' and self.identifier is None
        self.ctx.done(None if trivial else
                      (kind, args, self.identifier, len(self.db.batches)),
                      (kind, *args))

    def settings(self, path):
        return rawdb.dump_copy(
            path, self.folder / 'copy')['SYSTEM_SETTINGS']

    async def open(self):
        """Generation of right identifier"""
        ctx = self.ctx
        rng = self.rng
        identifier = rng.choice(
            [None, self.identifier] if self.identifier is not None else
            [None, *self.identifiers])
        conf = {**(self.conf if rng.random() < 0.6 else self.gen_conf()),
                'identifier': identifier}
        before = Leftovers(ctx, self.path)
        self.note('open', identifier)
        try:
            await net.finished(ctx, self.db.open(conf), 'creation')
        except Exception as e:
            ctx.violation('storage refuses its own database',
                          {'error': repr(e), 'identifier': identifier,
                           'identifier of database': self.identifier})
        self.conf = conf
        self.exists = True
        if self.identifier is not None:
            ctx.count('kept')
        elif identifier is not None:
            self.identifier = identifier
            ctx.count('adopted')
        settings = self.settings(self.path)
        values = list(settings.values())
        ctx.check(sum(i == self.identifier for i in values) == 1
                  if self.identifier is not None else len(values) == 1,
                  'identifier is not in the opened database',
                  {'settings': dict(settings),
                   'identifier': self.identifier})
        try:
            for _ in range(rng.randint(0, 4)):
                await self.db.register()
                if rng.random() < 0.3:
                    await self.db.flush()
            for _ in range(rng.randint(1, 3)):
                await self.query()
        finally:
            await net.finished(ctx, self.db.close(), 'closing')
        await before.check('closed storage')

    async def query(self):
        kind = self.rng.choice(['latest', 'timeseries', 'server'])
        params = getattr(storage, f'gen_{kind}')(self.rng, self.source)
        events, more, flushed, lo, hi = await self.db.query(params)
        args = [self.ctx, self.db, params, events, more]
        if kind == 'server':
            args.append(flushed)
        getattr(storage, f'check_{kind}')(*args, lo, hi)
        self.ctx.count('checked_queries')
        if events:
            self.ctx.count('nonempty')

    async def refused(self, kind, conf, what):
        ctx = self.ctx
        path = pathlib.Path(conf['db_path'])
        before = Leftovers(ctx, path)
        contents = digest(path)
        files = self.files()
        self.note(kind, conf['identifier'], what)
        try:
            backend = await net.finished(
                ctx, self.info.create(conf, None, None), 'creation')
        except Exception:
            pass
        else:
            await backend.async_close()
            ctx.violation(f'storage opens a database it should not ({kind})',
                          {'what': what, 'identifier': conf['identifier'],
                           'identifier of database': self.identifier})
        ctx.check(digest(path) == contents and self.files() == files,
                  f'refused database is changed ({kind})',
                  {'what': what, 'identifier': conf['identifier'],
                   'files': (files, self.files())})
        await before.check('refused creation')
        ctx.count(kind)
        if self.rng.random() < 0.1:
            await self.server(conf, what)

    def files(self):
        return sorted(i.name for i in self.folder.iterdir()
                      if not i.name.endswith('-lock'))

    async def server(self, conf, what):
        """Whole server"""
        ctx = self.ctx
        path = pathlib.Path(conf['db_path'])
        before = Leftovers(ctx, path)
        contents = digest(path)
        addr = net.free_addr()
        adminer_addr = net.free_addr()
        runner = hat.event.server.main_runner.MainRunner({
            'name': 'server', 'server_id': 1,
            'backend': {'module': 'hat.event.backends.lmdb', **conf},
            'modules': [],
            'eventer_server': {'host': addr.host, 'port': addr.port},
            'adminer_server': {'host': adminer_addr.host,
                               'port': adminer_addr.port}})
        done = asyncio.ensure_future(runner.wait_closed())
        try:
            while not done.done():
                for i in (addr, adminer_addr):
                    try:
                        _, writer = await asyncio.open_connection(i.host,
                                                                  i.port)
                    except OSError:
                        continue
                    writer.close()
                    ctx.violation('server without storage listens', what)
                await asyncio.wait([done], timeout=0.002)
                if asyncio.get_running_loop().time() > self.limit:
                    ctx.violation('server without storage does not end',
                                  what)
        finally:
            done.cancel()
            await runner.async_close()
        ctx.check(digest(path) == contents,
                  'database refused by server is changed', what)
        await before.check('server')
        ctx.count('servers')

    async def startup(self):
        """Server which can't start or is closed while it starts"""
        ctx = self.ctx
        rng = self.rng
        path = self.folder / 'server.db'
        before = Leftovers(ctx, path)
        addr = net.free_addr()
        adminer_addr = net.free_addr()
        monitor_addr = net.free_addr()
        conf = {'name': 'server', 'server_id': 1,
                'backend': {'module': 'hat.event.backends.lmdb',
                            **self.gen_conf(path), 'identifier': 'server'},
                'modules': [],
                'eventer_server': {'host': addr.host, 'port': addr.port},
                'adminer_server': {'host': adminer_addr.host,
                                   'port': adminer_addr.port}}
        kind = rng.choice(['eventer', 'adminer', 'monitor', 'closed',
                           'closed', 'module'])
        silent = kind != 'monitor' and rng.random() < 0.3
        if kind == 'monitor' or silent:
            conf['monitor_component'] = {
                'host': monitor_addr.host, 'port': monitor_addr.port,
                'group': 'event'}
        if kind == 'module':
            conf['modules'] = [{'module': 'rt.failing'}]
            conf.pop('monitor_component', None)
        ctx.log('startup', kind, silent)
        occupied = []
        async def on_connection(reader, writer):
            try:
                await reader.read()
            finally:
                writer.close()
        busy = {'eventer': addr, 'adminer': adminer_addr}.get(kind)
        for i in ([busy] if busy else []) + ([monitor_addr] if silent else
                                             []):
            occupied.append(await asyncio.start_server(
                on_connection, i.host, i.port))
        runner = hat.event.server.main_runner.MainRunner(conf)
        try:
            if kind == 'closed':
                if rng.random() < 0.5:
                    for _ in range(rng.randint(0, 40)):
                        await asyncio.sleep(0)
                else:
                    await asyncio.sleep(rng.random() *
                                        rng.choice([0.002, 0.01]))
                runner.close()
            await net.finished(ctx, runner.wait_closed(),
                               'ending of a server that can not start', 60,
                               lambda: {'kind': kind})
        finally:
            await runner.async_close()
            for i in occupied:
                i.close()
                await i.wait_closed()
        for i in (addr, adminer_addr):
            if i == busy or kind == 'closed':
                # asyncio leaves sockets of canceled create_server open
                continue
            try:
                _, writer = await asyncio.open_connection(i.host, i.port)
            except OSError:
                continue
            writer.close()
            ctx.violation('ended server listens', kind)
        await before.check('server that could not start')
        # database can be used
        if path.exists():
            backend = await net.finished(ctx, self.info.create(
                {**conf['backend'], 'identifier': None}, None, None),
                'creation')
            await backend.async_close()
            await before.check('closed storage')
        ctx.done((kind, silent, path.exists()), ('startup', kind, silent))
        ctx.count('startups')
        ctx.count(f'startup_{kind}')

    async def wrong_identifier(self):
        if self.identifier is None:
            return await self.open()
        conf = {**(self.conf if self.rng.random() < 0.5 else
                   self.gen_conf()),
                'identifier': self.rng.choice(
                    [i for i in IDENTIFIERS if i != self.identifier])}
        await self.refused('refused_identifier', conf, 'identifier')

    async def wrong_version(self):
        """Database written by another version"""
        if not self.exists:
            return await self.open()
        rng = self.rng
        other = self.folder / 'other.db'
        other.write_bytes(self.path.read_bytes())
        settings = self.settings(other)
        versions = [k for k, v in settings.items() if v == '0.9']
        if not versions:
            # version of the storage is not known here
            versions = [k for k, v in settings.items()
                        if v != self.identifier]
        version = rng.choice(['0.8', '0.10', '1.0', '', '0.9 ', 0.9, None, 9,
                              ['0.9']])
        with lmdb.Environment(str(other), map_size=1 << 30, subdir=False,
                              max_dbs=9) as env:
            db = env.open_db(b'SYSTEM_SETTINGS', create=False)
            with env.begin(db=db, write=True) as txn:
                txn.put(c22.uint(versions[0]),
                        json.encode(version).encode())
        await self.refused('refused_version',
                           {**self.gen_conf(other), 'identifier': rng.choice(
                               [None, self.identifier])}, version)

    async def old(self):
        """Databases which have to be converted"""
        rng = self.rng
        version = rng.choice(['0.6', '0.7'])
        other = self.folder / f'{rng.random()}.db'
        c22.Old(self.ctx, rng, version).write(other)
        await self.refused('refused_old', {
            **self.gen_conf(other),
            'identifier': rng.choice([None, 'id'])}, version)

    async def other(self):
        """Something else"""
        rng = self.rng
        other = self.folder / f'{rng.random()}.db'
        kind = rng.choice(['garbage', 'text', 'directory', 'foreign',
                           'plain', 'partial', 'no folder', 'file as folder'])
        if kind == 'garbage':
            other.write_bytes(rng.randbytes(rng.choice(
                [1, 10, 100, 4096, 8192, 50000])))
        elif kind == 'text':
            other.write_text('type: event\n' * rng.choice([1, 10, 1000]))
        elif kind == 'directory':
            other.mkdir()
            (other / 'file').write_text('x')
        elif kind == 'no folder':
            other = self.folder / 'missing' / 'event.db'
        elif kind == 'file as folder':
            other.write_text('x')
            other = other / 'event.db'
            await self.refused_path(other)
            return
        else:
            with lmdb.Environment(str(other), map_size=1 << 30, subdir=False,
                                  max_dbs=9) as env:
                if kind == 'plain':
                    with env.begin(write=True) as txn:
                        txn.put(b'key', b'value')
                elif kind == 'foreign':
                    db = env.open_db(b'users')
                    with env.begin(db=db, write=True) as txn:
                        for i in range(rng.choice([1, 300])):
                            txn.put(str(i).encode(), b'value')
                else:
                    for name in rng.sample(rawdb.names, rng.randint(1, 8)):
                        env.open_db(name.encode())
            pathlib.Path(f'{other}-lock').unlink(missing_ok=True)
        await self.refused('refused_file', {
            **self.gen_conf(other),
            'identifier': rng.choice([None, 'id'])}, kind)

    async def refused_path(self, path):
        parent = path.parent
        contents = digest(parent)
        before = Leftovers(self.ctx, parent)
        self.note('refused_file', 'file as folder')
        try:
            backend = await self.info.create(self.gen_conf(path), None, None)
        except Exception:
            pass
        else:
            await backend.async_close()
            self.ctx.violation('storage is created in a file')
        self.ctx.check(digest(parent) == contents, 'other file is changed')
        await before.check('refused creation')
        self.ctx.count('refused_file')

    async def cancel(self):
        """Creation is given up"""
        ctx = self.ctx
        rng = self.rng
        conf = {**self.conf, 'identifier': rng.choice(
            [None, self.identifier] if self.identifier is not None else
            [None, *self.identifiers])}
        before = Leftovers(ctx, self.path)
        self.note('cancel', conf['identifier'])
        task = asyncio.ensure_future(self.info.create(conf, None, None))
        if rng.random() < 0.4:
            for _ in range(rng.randint(0, 12)):
                await asyncio.sleep(0)
        else:
            await asyncio.sleep(rng.random() * rng.choice([0.001, 0.005]))
        task.cancel()
        await net.finished(ctx, asyncio.wait([task]), 'canceled creation')
        if task.cancelled():
            ctx.count('canceled')
            if not self.exists:
                ctx.count('canceled_first')
        elif task.exception():
            ctx.violation('storage refuses its own database',
                          repr(task.exception()))
        else:
            await task.result().async_close()
        await before.check('canceled creation')
        # identifier is adopted or not
        if self.path.exists() and self.identifier is None:
            values = list(self.settings(self.path).values())
            if conf['identifier'] in values:
                self.identifier = conf['identifier']
            if values:
                self.exists = True


async def case(ctx):
    h = Harness(ctx)
    h.limit = asyncio.get_running_loop().time() + 60
    steps = [(h.open, 5), (h.wrong_identifier, 3), (h.wrong_version, 1),
             (h.old, 0.5), (h.other, 1.2), (h.cancel, 2),
             (h.startup, 0.7)]
    for _ in range(ctx.rng.randint(4, 10)):
        step, = ctx.rng.choices([i for i, _ in steps],
                                [i for _, i in steps])
        await step()
    await h.open()


def run_case(ctx):
    aiorun.run(ctx, case)
