"""C30: storage on a failing disk."""

import asyncio
import ctypes
import errno
import hashlib
import os
import pathlib
import pickle
import random
import struct
import sys
import types

from checks import c13
from rt import core

LEVEL = 'fault_enumeration'
RULE = ('the real storage runs in a child process where chosen writes, syncs '
        'and truncates of the database file fail (disk full, input/output '
        'error, short writes; once or for several operations or for good), '
        'while batches are registered and flushed. Nothing may hang, nothing '
        'may be reported as persisted which is not, and reports follow the '
        'order of registrations. The file that is left, and files left by a '
        'process kill and power loss around the failure, have to hold a '
        'whole number of batches between the reported and the registered '
        'ones, and the real storage has to open it and work. An evaluation '
        'is one image, non-trivial if it holds events, distinct by contents')
TIERS = {'quick': {'cases': 672, 'time': 45, 'case_timeout': 120},
         'thorough': {'cases': 6000, 'time': 480, 'case_timeout': 200}}
REQUIRE = {'generations': 200, 'failed': 100, 'failed_writes': 60,
           'stopped': 60, 'survived': 5, 'images': 500, 'reopened': 400,
           'reported_before_failure': 20, 'registered_during_failure': 5,
           'creations_failed': 10, 'queries': 2000, 'queries_failed': 20}
ASSUMPTIONS = c13.ASSUMPTIONS


# child ----------------------------------------------------------------------

def child():
    lib = ctypes.CDLL(os.environ['LD_PRELOAD'].split(':')[0])
    lib.crashlog_failed.restype = ctypes.c_long
    lib.crashlog_fail.argtypes = [ctypes.c_long] * 4

    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            return
        spec = pickle.loads(
            sys.stdin.buffer.read(struct.unpack('>Q', head)[0]))
        lib.crashlog_start(spec['folder'].encode(), spec['log'].encode())
        lib.crashlog_fail(*spec['fail'])
        try:
            result = asyncio.run(history(spec, lib))
        except Exception:
            import traceback
            result = {'error': traceback.format_exc()}
        result['failed'] = lib.crashlog_failed()
        lib.crashlog_stop()
        data = pickle.dumps(result)
        sys.stdout.buffer.write(struct.pack('>Q', len(data)) + data)
        sys.stdout.buffer.flush()


async def history(spec, lib):
    from hat.event import common
    from rt import storage

    rng = random.Random(spec['seed'])
    info = common.import_backend_info('hat.event.backends.lmdb')
    result = {'violations': [], 'stopped': False, 'created': False,
              'registered': 0, 'reported': 0, 'during': 0,
              'queries': 0, 'queries_failed': 0, 'queries_after': 0,
              'cleaned': 0}
    passed = []
    db = types.SimpleNamespace(versions=[spec['model']], batches=passed,
                               conf=spec['conf'])
    judge = Judge(result)

    def marker(text):
        lib.crashlog_marker(text.encode())

    def on_flushed(events):
        n = result['reported']
        if n >= len(passed) or list(events) != passed[n]:
            result['violations'].append(
                f'report {n} of persisted events is not batch {n}: {events}')
        result['reported'] += 1
        marker(f'P {n + 1}')

    async def limited(aw, what):
        task = asyncio.ensure_future(aw)
        done, _ = await asyncio.wait([task], timeout=20)
        if not done:
            result['violations'].append(f'{what} hangs')
            task.cancel()
            raise Hang()
        return task.result()

    class Hang(Exception):
        pass

    try:
        backend = await limited(info.create(spec['conf'], None, on_flushed),
                                'creation')
    except Hang:
        return result
    except Exception as e:
        if not lib.crashlog_failed():
            raise
        result['creation error'] = repr(e)
        return result
    result['created'] = True
    marker('O')

    async def writer():
        for batch in spec['batches']:
            k = rng.random()
            if k < 0.3:
                await storage.pause(rng)
            elif k < 0.4:
                await asyncio.sleep(0.004)
            failed = lib.crashlog_failed()
            if failed and backend.is_open:
                result['during'] += 1
            if not backend.is_open:
                if not failed:
                    result['violations'].append('closed without a failure')
                result['stopped'] = True
                try:
                    await limited(backend.register(batch), 'registration')
                    result['violations'].append('closed storage registers')
                except common.BackendClosedError:
                    pass
                return
            passed.append(list(batch))
            db.versions.append(db.versions[-1].copy())
            db.versions[-1].register(batch)
            result['registered'] += 1
            marker(f'R {result["registered"]}')
            try:
                await limited(backend.register(batch), 'registration')
            except common.BackendClosedError:
                result['stopped'] = True
                return

    async def flusher():
        for _ in range(spec['flushes']):
            await storage.pause(rng)
            await asyncio.sleep(rng.random() * 0.006)
            n = result['registered']
            try:
                await limited(backend.flush(), 'flush')
            except common.BackendClosedError:
                if not lib.crashlog_failed():
                    result['violations'].append('closed without a failure')
                result['stopped'] = True
                return
            if result['reported'] < n:
                result['violations'].append(
                    f'flush finished before {n} batches were reported')
            marker(f'F {n}')

    async def reader():
        for _ in range(spec['queries']):
            await storage.pause(rng)
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 0.004)
            kind = rng.choice(['latest', 'timeseries', 'server'])
            if spec['limited']:
                kind = 'latest'
            params = getattr(storage, 'gen_' + kind)(rng, spec['source'])
            lo, flushed = len(passed), result['reported']
            failed = lib.crashlog_failed()
            try:
                r = await limited(backend.query(params), 'query')
            except Hang:
                raise
            except Exception as e:
                # queries of a storage with failing disk may fail
                if not lib.crashlog_failed():
                    result['violations'].append(
                        f'query failed without a failure: {e!r}')
                result['queries_failed'] += 1
                return
            result['queries'] += 1
            if not failed and lib.crashlog_failed():
                result['queries_after'] += 1
            args = [flushed] if kind == 'server' else []
            try:
                getattr(storage, 'check_' + kind)(
                    judge, db, params, list(r.events), r.more_follows, *args,
                    lo, len(passed))
            except Stop:
                return

    try:
        await asyncio.gather(writer(), flusher(), reader(), reader())
        await asyncio.sleep(rng.choice([0, 0.005]))
        if spec['limited'] and backend.is_open and lib.crashlog_failed():
            await cleaned(backend, spec['conf'], result, lib, limited)
    except Hang:
        pass
    try:
        await limited(backend.async_close(), 'closing')
    except Hang:
        pass
    if not lib.crashlog_failed():
        marker('X')
    return result


async def cleaned(backend, conf, result, lib, limited):
    """Disk works again: storage which stays open continues to clean up"""
    from hat.event import common
    from rt import model

    lib.crashlog_fail(-1, 0, 0, 0)
    try:
        await limited(backend.flush(), 'flush')
    except common.BackendClosedError:
        return
    cap = conf.get('timeseries_max_results', 4096)
    parts = []
    for i, p in enumerate(conf['timeseries']):
        high = p.get('limit', {}).get('max_entries')
        if high is None:
            continue
        high = max(high, p['limit'].get('min_entries', 0))
        # query which is answered from this partition
        if high < cap and not any(
                q['order_by'] == p['order_by'] and
                not model.disjoint(q['subscriptions'], p['subscriptions'])
                for q in conf['timeseries'][:i]):
            parts.append((p, high))

    async def late():
        for p, high in parts:
            r = await backend.query(common.QueryTimeseriesParams(
                event_types=[tuple(j) for j in p['subscriptions']],
                order_by=common.OrderBy[p['order_by']]))
            if len(list(r.events)) > high:
                return p

    for _ in range(2000):
        if not backend.is_open:
            return
        try:
            p = await limited(late(), 'query')
        except Exception:
            if backend.is_open:
                raise
            return
        if not p:
            result['cleaned'] += len(parts)
            return
        await asyncio.sleep(0.005)
    result['violations'].append(
        f'limit of partition stays exceeded after failure: {p}')


class Stop(Exception):
    pass


class Judge:

    def __init__(self, result):
        self.result = result

    def check(self, condition, name, data=None):
        if not condition:
            self.violation(name, data)

    def violation(self, name, data):
        self.result['violations'].append(f'{name}: {data}')
        raise Stop()


class Child(c13.Child):
    module = 'checks.c30'


recorder = None


def setup_worker(spec):
    global recorder
    recorder = Child(pathlib.Path(os.environ['VERIF_SCRATCH']))


def close_worker(spec):
    recorder.close()


def gen_fail(rng, n_ops, fresh):
    """First failing operation, number of them, error, short write"""
    if rng.random() < 0.08:
        return (-1, 0, 0, 0)
    first = (rng.randint(0, n_ops + 2) if fresh or rng.random() < 0.8
             else rng.randint(0, 4))
    return (first, rng.choice([1, 1, 1, 2, 3, 10, 10 ** 9]),
            rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]),
            int(rng.random() < 0.25))


def run_case(ctx):
    from rt import model
    from rt import storage

    rng = ctx.rng
    limited = rng.random() < 0.3
    folder = ctx.folder('db')
    path = folder / 'event.db'
    conf = storage.gen_conf(
        rng, path, conditions=0.1, limits=limited, wide=0.7,
        flush_period=rng.choice([0.001, 0.004, 0.02, 1000]),
        cleanup_period=rng.choice([0.001, 0.005]) if limited else 1000)
    conf['identifier'] = None
    ctx.log('conf', conf)
    source = storage.Source(rng, hostile=0.1, max_batch=4)
    s = model.Storage()
    s.configure(conf)
    initial = None

    for generation in range(rng.randint(1, 4)):
        batches = [source.batch() for _ in range(rng.randint(1, 12))]
        n_ops = 6 + 4 * len(batches) + (8 if initial is None else 0)
        fail = gen_fail(rng, n_ops, initial is None)
        if initial is None and rng.random() < 0.6:
            # creation mostly succeeds
            fail = (fail[0] + 9, *fail[1:])
        spec = {'folder': str(folder), 'log': str(folder / 'log'),
                'conf': conf, 'batches': batches, 'seed': rng.random(),
                'flushes': rng.randint(0, 4), 'fail': fail,
                'limited': limited, 'model': s, 'source': source,
                'queries': rng.choice([0, 5, 20])}
        if not initial and fail[0] <= 0:
            # LMDB can't open file with only a part of its first write, which
            # never held anything
            spec['fail'] = fail = (*fail[:3], 0)
        for i in folder.iterdir():
            i.unlink()
        if initial is not None:
            path.write_bytes(initial)
        ctx.log('generation', generation, 'fail', fail, 'batches', batches)
        result = recorder.run(spec)
        if not isinstance(result, dict) or 'error' in result:
            ctx.violation('storage failed', result)
        ctx.log('result', result)
        ctx.check(not result['violations'], 'storage on a failing disk: ' +
                  (result['violations'] or [''])[0].split(':')[0],
                  result['violations'])
        ctx.count('generations')
        for i in ('during', 'queries', 'queries_failed', 'queries_after',
                  'cleaned'):
            ctx.count(i, result[i])
        if result['failed']:
            ctx.count('failed')
            if not result['created']:
                ctx.count('creations_failed')
            elif result['stopped']:
                ctx.count('stopped')
            if result['reported']:
                ctx.count('reported_before_failure')
            if result['during']:
                ctx.count('registered_during_failure')
        elif result['created']:
            ctx.count('survived')

        ops = list(c13.read_log(folder / 'log'))
        failures = [i for i, op in enumerate(ops) if op.kind == 'E']
        ctx.count('failed_writes', len(failures[:20]))

        states = [s.copy()]
        for batch in batches:
            t = states[-1].copy()
            t.register(batch)
            states.append(t)
        versions = [c13.model_content(i) for i in states]

        final = bytearray(initial or b'')
        for op in ops:
            c13.apply(final, op)
        exists = path.exists()
        if bytes(final) != (path.read_bytes() if exists else b''):
            raise core.Inconclusive('recorded operations do not explain the '
                                    'file')

        all_images = list(c13.images(ctx, initial, ops))
        if not all_images:
            # file was not created
            continue
        n = len(all_images)
        near = set()
        for f in failures[:5]:
            near |= {i for i, image in enumerate(all_images)
                     if abs(image[4] - f) <= 2}
        picked = {n - 2, n - 1, *rng.sample(sorted(near), min(len(near), 6)),
                  *rng.sample(range(n), min(n, 3))} & set(range(n))
        found = []
        for i in sorted(picked):
            kind, image, lower, upper, index, opened = all_images[i]
            name = ('failing disk' if index == len(ops) and kind == 'kill'
                    else 'process kill on a failing disk' if kind == 'kill'
                    else 'power loss on a failing disk')
            ctx.log(f'{name} at operation {index}/{len(ops)}: '
                    f'{lower}..{upper}')
            v, d = c13.judge(ctx, image, lower, upper, versions, limited,
                             opened, folder / 'image.db', name)
            ctx.count('images')
            if v is not None:
                events = len(d['TIMESERIES_DATA']) + len(d['LATEST_DATA'])
                ctx.done((hashlib.sha1(image).digest(), lower, upper)
                         if events else None,
                         (name, 'operation', index, 'of', len(ops), 'holds',
                          v, 'of', upper, 'batches', lower, 'persisted'))
            else:
                ctx.done(None)
                v = 0
            found.append((image, v, name))

        for image, v, name in found:
            for j in folder.iterdir():
                j.unlink()
            path.write_bytes(image)
            t = states[v].copy()
            t.configure(conf)
            asyncio.run(c13.reopen(ctx, path, conf, t, limited,
                                   c13.clone(source, ctx), name))
            ctx.count('reopened')

        # disk works again (or fails once more)
        initial, v, _ = found[-1] if rng.random() < 0.7 else rng.choice(found)
        s = states[v].copy()
        if limited:
            from rt import rawdb
            path.write_bytes(initial)
            try:
                got = c13.content(rawdb.dump(path))
            except Exception:
                got = {'timeseries': {}}
            for k, p in s.partitions.items():
                left = got['timeseries'].get(k, {})
                p.events = {i: e for i, e in p.events.items() if i in left}
        s.configure(conf)


if __name__ == '__main__':
    child()
