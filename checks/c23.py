"""C23: database manager tools."""

import asyncio
import collections
import hashlib
import json
import pathlib
import sys

from hat.event import common

from rt import aiorun
from rt import forked
from rt import gen
from rt import model
from rt import rawdb
from rt import storage

LEVEL = 'exploration'
RULE = ('databases written by random histories of the real backend are '
        'queried and copied by the real commands run in processes of their '
        'own (also with a limited disk, killed on the way and while the '
        'backend keeps writing); printed lines and copied files are compared '
        'with a decoding of the source by the harness. An evaluation is one '
        'command, non-trivial if it had something to show, distinct by '
        'arguments and result')
TIERS = {'quick': {'cases': 800, 'time': 45},
         'thorough': {'cases': 6000, 'time': 500}}
REQUIRE = {'copies': 180, 'copied_entries': 7000, 'copy_skip_latest': 60,
           'copy_skip_timeseries': 60, 'copies_refused': 30,
           'copies_killed': 12, 'copies_disk_full': 10,
           'query_settings': 25, 'query_last_event_id': 25,
           'query_last_timestamp': 25, 'query_ref': 50, 'query_latest': 50,
           'query_partition': 25, 'query_timeseries': 50,
           'printed_lines': 1500, 'filtered_queries': 180,
           'empty_results': 100, 'live_commands': 6}

settings_names = {0: 'VERSION', 1: 'IDENTIFIER'}


def setup_worker(spec):
    import hat.event.backends.lmdb.manager.main  # NOQA


def command():
    from hat.event.backends.lmdb.manager import main
    return main.main()


def digest(path):
    return hashlib.sha1(path.read_bytes()).hexdigest()


# expected output -------------------------------------------------------------

def id_json(i):
    return {'server': i.server, 'session': i.session, 'instance': i.instance}


def timestamp_json(t):
    return {'s': t.s, 'us': t.us}


def event_json(e):
    if e.payload is None:
        payload = None
    elif isinstance(e.payload, common.EventPayloadBinary):
        payload = {'type': 'BINARY', 'subtype': e.payload.type,
                   'data': bytes(e.payload.data).hex()}
    else:
        payload = {'type': 'JSON', 'data': e.payload.data}
    return {'id': id_json(e.id), 'type': list(e.type),
            'timestamp': timestamp_json(e.timestamp),
            'source_timestamp': (
                None if e.source_timestamp is None
                else timestamp_json(e.source_timestamp)),
            'payload': payload}


def expected(d, action, server_id=None, partition_id=None, types=None):
    def selected(e):
        return types is None or model.matches_any(e.type, types)

    if action == 'settings':
        return [{'settings_id': settings_names[k], 'data': v}
                for k, v in d['SYSTEM_SETTINGS'].items()]
    if action == 'last_event_id':
        return [id_json(v) for k, v in d['SYSTEM_LAST_EVENT_ID'].items()
                if server_id in (None, k)]
    if action == 'last_timestamp':
        return [timestamp_json(v)
                for k, v in d['SYSTEM_LAST_TIMESTAMP'].items()
                if server_id in (None, k)]
    if action == 'ref':
        result = []
        for i, refs in d['REF'].items():
            if server_id not in (None, i.server):
                continue
            for ref in refs:
                if ref[0] == 'L':
                    result.append({
                        'event_id': id_json(i), 'ref_type': 'latest',
                        'event_type': list(d['LATEST_TYPE'][ref[1]])})
                else:
                    result.append({
                        'event_id': id_json(i), 'ref_type': 'timeseries',
                        'partition_id': ref[1],
                        'timestamp': timestamp_json(ref[2])})
        return result
    if action == 'latest':
        return [event_json(e) for e in d['LATEST_DATA'].values()
                if selected(e)]
    if action == 'partition':
        return [{'partition_id': k, 'data': v}
                for k, v in d['TIMESERIES_PARTITION'].items()
                if partition_id in (None, k)]
    return [event_json(e) for (p, _, i), e in d['TIMESERIES_DATA'].items()
            if partition_id in (None, p) and server_id in (None, i.server)
            and selected(e)]


def canonical(x):
    return json.dumps(x, sort_keys=True)


def read_lines(path):
    return [json.loads(i) for i in path.read_text('utf-8').split('\n') if i]


def judge_lines(ctx, got, want, argv):
    a = collections.Counter(canonical(i) for i in got)
    b = collections.Counter(canonical(i) for i in want)
    if a != b:
        ctx.violation('query command printed wrong entries',
                      {'arguments': argv,
                       'not stored or not asked for': list((a - b))[:5],
                       'missing': list((b - a))[:5],
                       'printed': len(got), 'expected': len(want)})


# commands --------------------------------------------------------------------

def arg_type(t):
    return '/'.join(t)


def expressible(t):
    """Can type be given on the command line"""
    if not t or any('/' in i or '\x00' in i for i in t):
        return False
    return not arg_type(t).startswith('-') and arg_type(t).isprintable()


def gen_query(rng, d):
    action = rng.choice(['settings', 'last_event_id', 'last_timestamp', 'ref',
                         'latest', 'partition', 'timeseries', 'latest',
                         'timeseries', 'ref'])
    args = [action]
    kwargs = {}
    if action in ('last_event_id', 'last_timestamp', 'ref', 'timeseries'):
        if rng.random() < 0.5:
            n = rng.choice([*d['SYSTEM_LAST_EVENT_ID'], 0, 1, 42])
            args += ['--server-id', str(n)]
            kwargs['server_id'] = n
    if action in ('partition', 'timeseries'):
        if rng.random() < 0.4:
            n = rng.choice([*d['TIMESERIES_PARTITION'], 0, 1, 42])
            args += ['--partition-id', str(n)]
            kwargs['partition_id'] = n
    if action in ('latest', 'timeseries'):
        if rng.random() < 0.6:
            stored = [e.type for e in [*d['LATEST_DATA'].values(),
                                       *d['TIMESERIES_DATA'].values()]]
            types = [gen.query_type(rng) if rng.random() < 0.6 or not stored
                     else rng.choice(stored)
                     for _ in range(rng.randint(0, 3))]
            types = [i for i in types if expressible(i)]
            args += ['--event-types', *(arg_type(i) for i in types)]
            kwargs['types'] = types
    return action, args, kwargs


def without(d, skip_latest, skip_timeseries):
    """Contents expected in a copy"""
    result = dict(d)
    if skip_latest:
        result['LATEST_DATA'] = result['LATEST_TYPE'] = {}
    if skip_timeseries:
        result['TIMESERIES_DATA'] = {}
        result['TIMESERIES_PARTITION'] = {}
        result['TIMESERIES_COUNT'] = {}
    if skip_latest or skip_timeseries:
        refs = {}
        for i, rs in d['REF'].items():
            rs = {r for r in rs
                  if not (r[0] == 'L' and skip_latest) and
                  not (r[0] == 'T' and skip_timeseries)}
            if rs:
                refs[i] = rs
        result['REF'] = refs
    return {k: dict(v) for k, v in result.items()}


async def write(ctx, path):
    """Random history of real backend"""
    rng = ctx.rng
    conf = storage.gen_conf(rng, path, conditions=0.2,
                            limits=rng.random() < 0.2)
    source = storage.Source(rng, servers=rng.randint(1, 3),
                            max_batch=rng.choice([3, 8]))
    db = storage.Lmdb(ctx, conf, source)
    await db.open()
    try:
        for _ in range(rng.choice([0, 3, 10, 30])):
            if rng.random() < 0.1:
                await db.flush()
            elif rng.random() < 0.05:
                conf = {**storage.gen_conf(rng, path),
                        'identifier': conf['identifier']}
                await db.reopen(conf)
            else:
                await db.register()
    finally:
        await db.close()
    return db


async def case(ctx):
    rng = ctx.rng
    folder = ctx.folder('c23')
    src = folder / rng.choice(['event.db', 'žir afa.db', 'data'])
    if rng.random() < 0.05:
        return await live(ctx, src)
    await write(ctx, src)
    d = rawdb.dump(src)
    entries = sum(len(i) for i in d.values())
    ctx.log('database', {k: len(v) for k, v in d.items()})
    before = digest(src)

    for n in range(rng.randint(3, 7)):
        if rng.random() < 0.6:
            query(ctx, folder, src, d)
        else:
            copy(ctx, folder, src, d, n)
        ctx.check(digest(src) == before,
                  'command changed the source database')
    ctx.maximum('entries', entries)


def query(ctx, folder, src, d):
    rng = ctx.rng
    out = folder / 'out'
    if rng.random() < 0.04:
        missing = folder / 'missing.db'
        code = forked.run(command, ['manager', 'query', '--db', missing,
                                    'latest'], stdout=out)
        ctx.check(code != 0 and not out.read_bytes(),
                  'query of missing database succeeded')
        ctx.check(not missing.exists(), 'query created a database')
        ctx.count('missing_databases')
        return
    action, args, kwargs = gen_query(rng, d)
    ctx.log('query', args)
    code = forked.run(command, ['manager', 'query', '--db', src, *args],
                      stdout=out)
    ctx.check(code == 0, 'query command failed', {'arguments': args,
                                                   'exit code': code})
    got = read_lines(out)
    want = expected(d, action, **kwargs)
    judge_lines(ctx, got, want, args)
    if action == 'timeseries' and 'partition_id' in kwargs:
        ctx.check([canonical(i) for i in got] == [canonical(i) for i in want],
                  'timeseries entries are printed out of order', args)
    ctx.count(f'query_{action}')
    ctx.count('printed_lines', len(got))
    if kwargs:
        ctx.count('filtered_queries')
    if not want:
        ctx.count('empty_results')
    ctx.done((args, got) if got else None, (args, got[:2]))


durations = collections.deque([0.03], maxlen=20)


def copy(ctx, folder, src, d, n):
    rng = ctx.rng
    dst = folder / f'copy{n}.db'
    args = []
    skip_latest = rng.random() < 0.3
    skip_timeseries = rng.random() < 0.3
    if skip_latest:
        args.append('--skip-latest')
        ctx.count('copy_skip_latest')
    if skip_timeseries:
        args.append('--skip-timeseries')
        ctx.count('copy_skip_timeseries')
    kind = rng.choices(['good', 'existing', 'missing', 'disk', 'killed'],
                       [60, 8, 4, 10, 18])[0]
    kwargs = {}
    source = src
    if kind == 'existing':
        dst.write_bytes(rng.choice([b'', b'existing']))
        existing = digest(dst)
    elif kind == 'missing':
        source = folder / 'missing.db'
    elif kind == 'disk':
        kwargs['limit'] = int(rng.choice([4096, 16384, 40000, 70000])
                              * (0.5 + rng.random()))
    elif kind == 'killed':
        kwargs['kill_after'] = rng.random() * 1.2 * max(durations)
    ctx.log('copy', kind, args, kwargs)
    code = forked.run(command, ['manager', 'copy', *args, source, dst],
                      **kwargs)
    ctx.log('exit code', code)
    if kind == 'good':
        durations.append(forked.last_duration)
        ctx.check(code == 0, 'copy failed', {'arguments': args, 'code': code})
    elif kind == 'existing':
        ctx.count('copies_refused')
        ctx.check(code not in (0, -9), 'copy over existing file succeeded')
        ctx.check(digest(dst) == existing, 'copy changed an existing file')
        return
    elif kind == 'missing':
        ctx.count('copies_refused')
        ctx.check(code != 0, 'copy of missing database succeeded')
        ctx.check(not source.exists(), 'copy created source database')
        return
    elif kind == 'disk':
        if code != 0:
            ctx.count('copies_disk_full')
    elif kind == 'killed':
        ctx.count('copies_killed' if code else 'copies_finished_before_kill')
        ctx.check(code in (0, -9), 'copy failed', code)

    want = without(d, skip_latest, skip_timeseries)
    if code == 0:
        got = rawdb.dump(dst)
        ctx.count('copies')
        ctx.count('copied_entries', sum(len(i) for i in got.values()))
        compare(ctx, got, want, args)
        errors = rawdb.structure(got)
        ctx.check(not errors, 'copied databases disagree', errors[:5])
        ctx.done((sorted(args), sorted(want['REF'])), args)
        return

    # unfinished copy holds all or nothing
    try:
        got = rawdb.dump(dst)
    except Exception:
        ctx.count('unusable_unfinished_copies')
        return
    if any(got.values()):
        ctx.count('unfinished_copies_complete')
        compare(ctx, got, want, ['unfinished', *args])
    else:
        ctx.count('unfinished_copies_empty')
    ctx.done((kind, args, sorted(want['REF'])), (kind, args))


def compare(ctx, got, want, args):
    for name in rawdb.names:
        a, b = dict(got[name]), dict(want[name])
        if a == b:
            continue
        ctx.violation('copy is not equal to the source', {
            'database': name, 'arguments': args,
            'added': [i for i in a.items() if b.get(i[0]) != i[1]][:3],
            'missing': [i for i in b.items() if a.get(i[0]) != i[1]][:3]})


async def live(ctx, src):
    """Commands used on database of a running backend"""
    rng = ctx.rng
    folder = pathlib.Path(src).parent
    dst = folder / 'copy.db'
    conf = {'db_path': str(src), 'identifier': None, 'flush_period': 0.005,
            'cleanup_period': 1000, 'conditions': [],
            'latest': {'subscriptions': [['*']]},
            'timeseries': [{'order_by': 'TIMESTAMP',
                            'subscriptions': [['*']]}]}
    source = storage.Source(rng, servers=1)
    db = storage.Lmdb(ctx, conf, source)
    await db.open()
    try:
        for _ in range(20):
            await db.register()
        await db.flush()
        first = len(db.batches)

        async def run(*args):
            process = await asyncio.create_subprocess_exec(
                sys.executable, '-m', 'hat.event.backends.lmdb.manager',
                *args, stdout=asyncio.subprocess.PIPE,
                stderr=asyncio.subprocess.PIPE)
            out, err = await process.communicate()
            ctx.check(process.returncode == 0,
                      'command failed on used database', err)
            ctx.count('live_commands')
            return [json.loads(i) for i in out.decode().split('\n') if i]

        async def commands():
            await run('copy', str(src), str(dst))
            return await run('query', '--db', str(src), 'timeseries')

        task = asyncio.ensure_future(commands())
        while not task.done() and len(db.batches) < 2000:
            await db.register()
            await asyncio.sleep(0.002)
        lines = await task
        last = len(db.batches)
    finally:
        await db.close()

    events = [[event_json(e) for e in model_events(v)]
              for v in (db.versions[-1], )][0]
    # flushed prefixes of registered batches
    ends = [sum(len(b) for b in db.batches[:i])
            for i in range(first, last + 1)]
    ctx.check(len(lines) in ends and lines == events[:len(lines)],
              'query of used database shows an unfinished flush',
              {'printed': len(lines), 'possible': ends[:5]})
    got = rawdb.dump(dst)
    errors = rawdb.structure(got)
    ctx.check(not errors, 'copies of used databases disagree', errors[:5])
    n = len(got['TIMESERIES_DATA'])
    ctx.check(n in ends, 'copy of used database holds an unfinished flush', n)
    version = db.versions[first + ends.index(n)]
    ctx.equal([event_json(e) for e in got['TIMESERIES_DATA'].values()],
              [event_json(e) for e in model_events(version)],
              'copy of used database')
    ctx.equal({e.type: e for e in got['LATEST_DATA'].values()},
              version.latest, 'copy of used database')
    ctx.equal(dict(got['SYSTEM_LAST_EVENT_ID']), version.last_ids,
              'copy of used database')
    ctx.done(('live', n, len(lines)), ('live', n, len(lines)))


def model_events(version):
    return list(version.partitions[
        (common.OrderBy.TIMESTAMP, model.normalize([['*']]))].events.values())


def run_case(ctx):
    aiorun.run(ctx, case)
