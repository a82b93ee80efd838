"""C13: crash safety of the on-disk storage."""

import asyncio
import collections
import ctypes
import hashlib
import os
import pathlib
import pickle
import random
import struct
import subprocess
import sys

from rt import core

LEVEL = 'fault_enumeration'
RULE = ('the real storage runs in a child process in which every write, sync '
        'and truncate of the database file is recorded in order, together '
        'with markers for registrations, persisted callbacks, completed '
        'flushes and the close. The file is rebuilt as it would be left by a '
        'process kill before every recorded write (and inside of it, at page '
        'granularity) and by power losses that lose arbitrary parts of '
        'writes not yet synced. Each distinct image is read raw and compared '
        'with the reference model after a whole number of batches between '
        'the reported and the registered ones, checked for internal '
        'agreement, and a sample is reopened and queried by the real '
        'storage; the next generation continues from one of the images. An '
        'evaluation is one image, non-trivial if it holds events, distinct '
        'by file contents')
TIERS = {'quick': {'cases': 352, 'time': 45, 'case_timeout': 120},
         'thorough': {'cases': 4000, 'time': 480, 'case_timeout': 200}}
REQUIRE = {'images_kill': 600, 'images_power': 300, 'images_reopened': 100,
           'generations': 40, 'images_exact': 500}
ASSUMPTIONS = [
    'a write or sync that returned is final, and writes not synced can be '
    'lost in whole pages; LMDB commits by one write of its meta page, which '
    'is atomic (smaller than a disk sector)',
    'power loss while the file is first created is only explored after its '
    'first page pair has been synced']

PAGE = 4096


# child ----------------------------------------------------------------------

def child():
    """Runs histories given on standard input under the recorder"""
    lib = ctypes.CDLL(os.environ['LD_PRELOAD'].split(':')[0])

    def marker(text):
        lib.crashlog_marker(text.encode())

    from hat.event import common

    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            return
        spec = pickle.loads(
            sys.stdin.buffer.read(struct.unpack('>Q', head)[0]))
        lib.crashlog_start(spec['folder'].encode(), spec['log'].encode())
        try:
            asyncio.run(child_history(spec, marker, common))
            result = 'ok'
        except Exception as e:
            import traceback
            result = traceback.format_exc()
        lib.crashlog_stop()
        data = pickle.dumps(result)
        sys.stdout.buffer.write(struct.pack('>Q', len(data)) + data)
        sys.stdout.buffer.flush()


async def child_history(spec, marker, common):
    from rt import storage
    rng = random.Random(spec['seed'])
    info = common.import_backend_info('hat.event.backends.lmdb')
    registered = 0
    persisted = 0

    async def on_flushed(events):
        nonlocal persisted
        persisted += 1
        marker(f'P {persisted}')

    backend = await info.create(spec['conf'], None, on_flushed)
    marker('O')
    try:
        async def writer():
            nonlocal registered
            for batch in spec['batches']:
                k = rng.random()
                if k < 0.15:
                    await storage.pause(rng)
                elif k < 0.2:
                    await asyncio.sleep(0.004)
                registered += 1
                marker(f'R {registered}')
                await backend.register(batch)

        async def flusher():
            for _ in range(spec['flushes']):
                await storage.pause(rng)
                await asyncio.sleep(rng.random() * 0.01)
                n = registered
                await backend.flush()
                marker(f'F {n}')

        await asyncio.gather(writer(), flusher())
        if spec['late'] and rng.random() < 0.7:
            await asyncio.sleep(0.01)
    finally:
        await backend.async_close()
    marker('X')


# recorder -------------------------------------------------------------------

Op = collections.namedtuple('Op', ['kind', 'flags', 'offset', 'data'])


def read_log(path):
    data = path.read_bytes()
    pos = 0
    while pos < len(data):
        kind, flags, _, n, offset = struct.unpack_from('<BBHIQ', data, pos)
        pos += 16
        yield Op(chr(kind), flags, offset, data[pos:pos + n])
        pos += n


class Child:

    module = 'checks.c13'

    def __init__(self, scratch):
        self.lib = scratch / f'crashlog.{os.getpid()}.so'
        source = pathlib.Path(__file__).parent.parent / 'native/crashlog.c'
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', str(self.lib),
                        str(source), '-ldl'], check=True)
        self.process = None

    def run(self, spec):
        if self.process is None:
            self.process = subprocess.Popen(
                [sys.executable, '-m', self.module],
                env={**os.environ, 'LD_PRELOAD': str(self.lib)},
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL)
        data = pickle.dumps(spec)
        self.process.stdin.write(struct.pack('>Q', len(data)) + data)
        self.process.stdin.flush()
        head = self.process.stdout.read(8)
        if len(head) < 8:
            self.close()
            return 'child process died'
        return pickle.loads(
            self.process.stdout.read(struct.unpack('>Q', head)[0]))

    def close(self):
        if self.process:
            self.process.kill()
            self.process.wait()
            self.process = None


recorder = None


def setup_worker(spec):
    global recorder
    recorder = Child(pathlib.Path(os.environ['VERIF_SCRATCH']))


def close_worker(spec):
    recorder.close()


# images ---------------------------------------------------------------------

def apply(image, op):
    if op.kind == 'W':
        end = op.offset + len(op.data)
        if len(image) < end:
            image.extend(bytes(end - len(image)))
        image[op.offset:end] = op.data
    elif op.kind == 'T':
        if len(image) > op.offset:
            del image[op.offset:]
        else:
            image.extend(bytes(op.offset - len(image)))
    elif op.kind == 'C' and op.flags:
        del image[:]


def chunks(op):
    """Page parts of a write"""
    result = []
    pos = 0
    while pos < len(op.data):
        n = PAGE - (op.offset + pos) % PAGE
        result.append(Op('W', op.flags, op.offset + pos,
                         op.data[pos:pos + n]))
        pos += n
    return result


def images(ctx, initial, ops):
    """(kind, image, persisted lower bound, registered upper bound, index)"""
    rng = ctx.rng
    current = bytearray(initial or b'')   # as seen by the operating system
    durable = bytearray(initial or b'')   # certainly on disk
    unsynced = []                         # page writes since last sync
    exists = initial is not None
    # first pages are on disk
    ready = len(initial or b'') >= 2 * PAGE
    lower = upper = 0
    opened = False
    for i, op in enumerate(ops):
        if op.kind == 'M':
            name, _, n = op.data.decode().partition(' ')
            if name == 'R':
                upper = int(n)
            elif name in 'PF':
                lower = max(lower, int(n))
            elif name == 'X':
                lower = upper
            elif name == 'O':
                opened = True
            if name in 'PFX' and exists:
                # just reported: most that can be expected with least synced
                yield 'kill', bytes(current), lower, upper, i, opened
                if ready and unsynced:
                    yield 'power', bytes(durable), lower, upper, i, opened
            continue
        if op.kind == 'P':
            raise core.Inconclusive('database file is mapped for writing')
        if op.kind == 'C':
            exists = True
            apply(current, op)
            continue
        if exists and op.kind == 'W':
            yield 'kill', bytes(current), lower, upper, i, opened
            parts = chunks(op)
            if ready and len(parts) > 1 and rng.random() < 0.3:
                torn = bytearray(current)
                for j in parts[:rng.randint(1, len(parts) - 1)]:
                    apply(torn, j)
                yield 'kill', bytes(torn), lower, upper, i, opened
            if ready and unsynced:
                for _ in range(2 if rng.random() < 0.5 else 1):
                    lossy = bytearray(durable)
                    p = rng.random()
                    for j in unsynced:
                        if rng.random() < p:
                            apply(lossy, j)
                    yield ('power', bytes(lossy), lower, upper, i, opened)
        apply(current, op)
        if op.kind == 'W':
            if op.flags:
                # synchronous write covers only its own data
                apply(durable, op)
                unsynced = [j for j in unsynced
                            if not (j.offset >= op.offset and
                                    j.offset + len(j.data) <=
                                    op.offset + len(op.data))]
            else:
                unsynced.extend(chunks(op))
        elif op.kind == 'T':
            unsynced.append(op)
        elif op.kind == 'S':
            for j in unsynced:
                apply(durable, j)
            unsynced = []
            ready = True
        if op.kind == 'W' and op.flags and ready and unsynced:
            lossy = bytearray(durable)
            for j in unsynced:
                if rng.random() < 0.5:
                    apply(lossy, j)
            yield 'power', bytes(lossy), lower, upper, i, opened
    if exists:
        yield 'kill', bytes(current), lower, upper, len(ops), opened
        if ready:
            yield 'power', bytes(durable), lower, upper, len(ops), opened


def content(d):
    """What database contains, without internal numbering"""
    from hat.event import common
    partitions = {
        k: (common.OrderBy(v['order']),
            frozenset(tuple(i) for i in v['subscriptions']))
        for k, v in d['TIMESERIES_PARTITION'].items()}
    timeseries = {}
    for (pid, ts, eid), e in d['TIMESERIES_DATA'].items():
        timeseries.setdefault(partitions[pid], {})[eid] = e
    return {'latest': {e.type: e for e in d['LATEST_DATA'].values()},
            'timeseries': timeseries,
            'last ids': dict(d['SYSTEM_LAST_EVENT_ID']),
            'last timestamps': dict(d['SYSTEM_LAST_TIMESTAMP'])}


def model_content(s):
    return {'latest': dict(s.latest),
            'timeseries': {k: dict(p.events)
                           for k, p in s.partitions.items() if p.events},
            'last ids': dict(s.last_ids),
            'last timestamps': dict(s.last_timestamps)}


def difference(got, expected):
    result = {}
    for k in got:
        if got[k] != expected[k]:
            result[k] = {'got': core.short(got[k], 1500),
                         'expected': core.short(expected[k], 1500)}
    return result


def matches(got, expected, limited):
    if not limited:
        return got == expected
    for k in ('latest', 'last ids', 'last timestamps'):
        if got[k] != expected[k]:
            return False
    for key, events in got['timeseries'].items():
        all_events = expected['timeseries'].get(key, {})
        if any(all_events.get(i) != e for i, e in events.items()):
            return False
    return True


def judge(ctx, image, lower, upper, versions, limited, opened, path, kind):
    """Version of the model which image holds"""
    from rt import rawdb
    path.write_bytes(image)
    try:
        d = rawdb.dump(path)
    except Exception as e:
        if not opened:
            return None, None
        ctx.violation(f'database left by {kind} can not be read',
                      {'error': repr(e), 'size': len(image)})
    errors = rawdb.structure(d)
    ctx.check(not errors, f'databases disagree after {kind}', errors[:20])
    if not d['SYSTEM_SETTINGS']:
        # not initialized
        ctx.check(not lower, 'database without settings holds persisted '
                  'batches')
        for name, entries in d.items():
            ctx.check(not entries, f'database without settings has entries '
                      f'in {name}')
        return 0, d
    got = content(d)
    for v in range(upper, lower - 1, -1):
        if matches(got, versions[v], limited):
            return v, d
    for v, expected in enumerate(versions):
        if matches(got, expected, limited):
            ctx.violation(
                f'database left by {kind} holds {v} batches, but '
                f'{lower} were already reported as persisted and {upper} '
                f'were registered', {'versions': (v, lower, upper)})
    ctx.violation(
        f'database left by {kind} does not hold a prefix of the registered '
        f'batches', {'lower': lower, 'upper': upper,
                     'difference to lower': difference(got, versions[lower]),
                     'difference to upper': difference(got, versions[upper]),
                     })


async def reopen(ctx, path, conf, s, limited, source, kind):
    """Open image with the real storage, compare answers and use it"""
    from hat.event import common
    from rt import rawdb

    info = common.import_backend_info('hat.event.backends.lmdb')
    try:
        backend = await info.create(conf, None, None)
    except Exception as e:
        ctx.violation(f'database left by {kind} can not be opened: {e!r}',
                      {'size': path.stat().st_size})
    try:
        r = await backend.query(common.QueryLatestParams())
        ctx.equal({e.type: e for e in r.events}, s.visible,
                  f'latest events after {kind}')
        for server in source.servers:
            ctx.equal(await backend.get_last_event_id(server),
                      s.last_ids.get(server, common.EventId(server, 0, 0)),
                      f'last event id after {kind}')
            r = await backend.query(common.QueryServerParams(server))
            stored = s.stored(server)
            if limited:
                ctx.check(all(e in stored for e in r.events),
                          f'server query after {kind}')
            else:
                ctx.equal((list(r.events), r.more_follows),
                          (stored[:4096], len(stored) > 4096),
                          f'server query after {kind}')
        if not limited:
            for order_by in common.OrderBy:
                params = common.QueryTimeseriesParams(order_by=order_by)
                r = await backend.query(params)
                ctx.equal((list(r.events), r.more_follows),
                          s.query_timeseries(params, conf.get(
                              'timeseries_max_results', 4096)),
                          f'timeseries query after {kind}')
        batches = [source.batch() for _ in range(2)]
        t = s.copy()
        for batch in batches:
            t.register(batch)
            await backend.register(batch)
    finally:
        await backend.async_close()
    got = content(rawdb.dump(path))
    ctx.check(matches(got, model_content(t), limited),
              f'database left by {kind} does not work',
              difference(got, model_content(t)))


def run_case(ctx):
    from rt import model
    from rt import storage

    rng = ctx.rng
    limited = rng.random() < 0.3
    folder = ctx.folder('db')
    path = folder / 'event.db'

    def gen_conf():
        conf = storage.gen_conf(
            rng, path, conditions=0.1, limits=limited, wide=0.7,
            flush_period=rng.choice([0.001, 0.004, 0.02, 1000]),
            cleanup_period=rng.choice([0.001, 0.005]) if limited else 1000)
        conf['identifier'] = None
        return conf

    conf = gen_conf()
    ctx.log('conf', conf)
    source = storage.Source(rng, hostile=0.1, max_batch=4)
    s = model.Storage()
    s.configure(conf)
    initial = None

    for generation in range(rng.randint(1, 3)):
        batches = [source.batch() for _ in range(rng.randint(0, 14))]
        spec = {'folder': str(folder), 'log': str(folder / 'log'),
                'conf': conf, 'batches': batches, 'seed': rng.random(),
                'flushes': rng.randint(0, 3), 'late': limited}
        for i in folder.iterdir():
            i.unlink()
        if initial is not None:
            path.write_bytes(initial)
        ctx.log('generation', generation, 'batches', batches)
        result = recorder.run(spec)
        if result != 'ok':
            ctx.violation('storage failed while recording', result)
        ctx.count('generations')
        ops = list(read_log(folder / 'log'))
        ctx.count('writes', sum(i.kind == 'W' for i in ops))
        ctx.count('syncs', sum(i.kind == 'S' for i in ops))

        states = [s.copy()]
        for batch in batches:
            t = states[-1].copy()
            t.register(batch)
            states.append(t)
        versions = [model_content(i) for i in states]

        # recorder is trusted only if it explains the file
        final = bytearray(initial or b'')
        for op in ops:
            apply(final, op)
        if bytes(final) != path.read_bytes():
            raise core.Inconclusive('recorded operations do not explain the '
                                    'file')

        found = []
        seen = set()
        n_ops = len(ops)
        for kind, image, lower, upper, index, opened in images(ctx, initial,
                                                               ops):
            key = (hashlib.sha1(image).digest(), lower, upper)
            if key in seen:
                continue
            seen.add(key)
            name = ('process kill' if kind == 'kill' else
                    'power loss')
            ctx.log(f'{name} at operation {index}/{n_ops}: '
                    f'{lower}..{upper}')
            v, d = judge(ctx, image, lower, upper, versions, limited, opened,
                         folder / 'image.db', name)
            ctx.count(f'images_{kind}')
            if v is not None:
                ctx.count('images_limited' if limited else 'images_exact')
                events = (len(d['TIMESERIES_DATA']) + len(d['LATEST_DATA']))
                ctx.done(key[0] if events else None,
                         (name, 'operation', index, 'of', n_ops, 'holds', v,
                          'of', upper, 'batches', lower, 'persisted'))
                if v < upper:
                    ctx.count('images_losing_unflushed')
            else:
                ctx.done(None)
                v = 0
            found.append((image, v, name, opened))

        n = len(found)
        picked = set(rng.sample(range(n), min(n, 12)))
        # everything around creation
        picked |= {i for i in range(n) if not found[i][3]}
        for i in sorted(picked):
            image, v, name, opened = found[i]
            for j in folder.iterdir():
                j.unlink()
            path.write_bytes(image)
            t = states[v].copy()
            # reopening sees events by the current configuration
            t.configure(conf)
            ctx.log(f'reopen image {i} of {n} ({name})')
            asyncio.run(reopen(ctx, path, conf, t, limited, clone(source, ctx),
                               name))
            ctx.count('images_reopened')

        initial, v, _, _ = found[rng.randrange(n)]
        s = states[v].copy()
        if limited:
            # continue with what was left by cleanup
            from rt import rawdb
            path.write_bytes(initial)
            try:
                got = content(rawdb.dump(path))
            except Exception:
                got = {'timeseries': {}}
            for k, p in s.partitions.items():
                left = got['timeseries'].get(k, {})
                p.events = {i: e for i, e in p.events.items() if i in left}
        if rng.random() < 0.3:
            conf = gen_conf()
            ctx.log('conf', conf)
        s.configure(conf)


def clone(source, ctx):
    from rt import storage
    result = storage.Source(ctx.rng, hostile=0)
    result.servers = source.servers
    result.sessions = {k: v + 5000 for k, v in source.sessions.items()}
    result.clocks = {k: v + 5000 for k, v in source.clocks.items()}
    return result


if __name__ == '__main__':
    child()
