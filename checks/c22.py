"""C22: conversion of databases of older versions."""

import asyncio
import collections
import hashlib
import os
import pathlib
import struct
import sys

import lmdb

from hat import json
from hat import sbs
from hat.event import common

from rt import aiorun
from rt import forked
from rt import gen
from rt import rawdb

LEVEL = 'exploration'
RULE = ('random contents are written as databases of versions 0.6 and 0.7 by '
        'an encoder of the harness, the real conversion command is run on '
        'them in a process of its own (some of them with a damaged source, '
        'with a limited disk, or killed on the way), and files left by it '
        'are read by a decoder of the harness, compared with what was '
        'written, opened by the current backend and queried. An evaluation '
        'is one conversion, distinct by version, contents and outcome')
TIERS = {'quick': {'cases': 1432, 'time': 45},
         'thorough': {'cases': 20000, 'time': 500}}
REQUIRE = {'from_0.6': 100, 'from_0.7': 100, 'converted': 180,
           'events': 1500, 'timeseries': 1000, 'sbs_payloads': 50,
           'failed': 60, 'killed': 8, 'killed_unfinished': 5,
           'disk_full': 15, 'refused': 12, 'other_folder': 40}

schema = r'''
module %s

Timestamp = Record {
    s:   Integer
    us:  Integer
}

EventId = Record {
    server:    Integer
    %s
    instance:  Integer
}

EventType = Array(String)

EventPayload = Choice {
    binary:  Bytes
    json:    String
    sbs:     Record {
        module:  Optional(String)
        type:    String
        data:    Bytes
    }
}

Event = Record {
    id:               EventId
    type:             EventType
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}
'''
repo06 = sbs.Repository(schema % ('HatEvent', ''))
repo07 = sbs.Repository(schema % ('HatEventer', 'session:   Integer'))

Sbs = collections.namedtuple('Sbs', ['module', 'type', 'data'])
Event = collections.namedtuple('Event', ['id', 'type', 't', 'st', 'payload'])
Partition = collections.namedtuple('Partition', ['id', 'order', 'types'])


def uint(x):
    return struct.pack('>Q', x)


def timestamp(t):
    return struct.pack('>QI', t.s + (1 << 63), t.us)


def event_id(i):
    return struct.pack('>QQQ', *i)


def jsonb(x):
    return json.encode(x).encode('utf-8')


def optional(x):
    return ('none', None) if x is None else ('value', x)


def encode_event(version, e):
    payload = None
    if isinstance(e.payload, Sbs):
        payload = 'sbs', {'module': optional(e.payload.module),
                          'type': e.payload.type, 'data': e.payload.data}
    elif isinstance(e.payload, common.EventPayloadJson):
        payload = 'json', json.encode(e.payload.data)
    elif e.payload is not None:
        payload = 'binary', e.payload
    t = [{'s': i.s, 'us': i.us} if i is not None else None
         for i in (e.t, e.st)]
    server, session, instance = e.id
    data = {'id': {'server': server, 'instance': instance},
            'type': list(e.type), 'timestamp': t[0],
            'sourceTimestamp': optional(t[1]),
            'payload': optional(payload)}
    if version == '0.6':
        return repo06.encode('HatEvent.Event', data)
    data['id']['session'] = session
    return repo07.encode('HatEventer.Event', data)


def gen_payload(ctx, rng):
    k = rng.random()
    if k < 0.15:
        return None
    if k < 0.35:
        return rng.randbytes(rng.choice([0, 1, 5, 300]) if rng.random() < 0.98
                             else 20000)
    if k < 0.55:
        ctx.count('sbs_payloads')
        return Sbs(rng.choice([None, None, 'Mod', 'A.B', '']),
                   rng.choice(['T', 'Tab', '']),
                   rng.randbytes(rng.choice([0, 1, 5])))
    return common.EventPayloadJson(gen.json_data(rng))


class Old:
    """Contents of old database"""

    def __init__(self, ctx, rng, version):
        self.version = version
        self.partitions = []
        self.latest = {}        # type: event
        self.refs = {}          # type: ref
        self.series = {}        # (partition id, timestamp, event id): event
        self.last = {}          # server: (event id, timestamp)
        if version == '0.6':
            self.server = rng.choice([0, 1, 1, 7, 2 ** 40])
            servers = [self.server]
        else:
            servers = rng.sample([1, 2, 3, 2 ** 32, 2 ** 63 - 1],
                                 rng.randint(1, 3))
        ids = sorted(rng.sample(range(1, 20), rng.choice([0, 1, 2, 3, 15])))
        for i in ids:
            # as they are written by the backend
            types = ([('*', )] if rng.random() < 0.5 else
                     gen.query_types(rng, 3, odd=0) or [('a', )])
            p = Partition(i, rng.choice([1, 2]), sorted(
                common.create_subscription(types).get_query_types()))
            if all((p.order, p.types) != (j.order, j.types)
                   for j in self.partitions):
                self.partitions.append(p)
        sessions = {i: rng.choice([0, 0, 300, 2 ** 40]) for i in servers}
        clock = rng.choice([1000, 0, -10 ** 6, 2 ** 33])
        refs = iter(rng.sample(range(1, 2000), 1000))
        for _ in range(rng.choice([0, 1, 5, 10, 30])):
            server = rng.choice(servers)
            sessions[server] += rng.choice([1, 1, 1, 254, 256, 65536])
            clock += rng.choice([0, 0, 1, 255, 3600])
            t = common.Timestamp(clock, rng.choice([0, 1, 999999]))
            clock += 1
            for i in range(1, 1 + rng.choice([1, 1, 3])):
                if version == '0.6' and i > 1:
                    sessions[server] += 1
                if version == '0.6':
                    eid = server, None, sessions[server]
                else:
                    eid = server, sessions[server], i
                e = Event(eid, gen.event_type(rng), t,
                          gen.any_timestamp(rng) if rng.random() < 0.2 else
                          gen.timestamp(rng) if rng.random() < 0.6 else None,
                          gen_payload(ctx, rng))
                self.last[server] = eid, t
                k = rng.random()
                if k < 0.8:
                    self.latest[e.type] = e
                    self.refs.setdefault(e.type, next(refs))
                if k > 0.1:
                    for p in self.partitions:
                        pt = e.t if p.order == 1 else e.st
                        if pt is not None and rng.random() < 0.8:
                            self.series[p.id, pt, eid] = e
        if version == '0.6':
            # knows only of stored events
            ids = [(e.id, e.t) for e in self.events()]
            self.last = ({server: max(ids, key=lambda i: i[0][2])}
                         if ids else {})
        elif rng.random() < 0.5:
            # last event which isn't stored
            server = rng.choice(servers)
            self.last[server] = ((server, sessions[server] + 5, 2),
                                 common.Timestamp(clock + 7, 3))
        if rng.random() < 0.3:
            self.refs.setdefault(('type', 'without', 'event'), next(refs))

    def events(self):
        return {e.id: e for e in [*self.latest.values(),
                                  *self.series.values()]}.values()

    def counts(self):
        return collections.Counter(i[0] for i in self.series)

    def write(self, path):
        with lmdb.Environment(str(path), map_size=1 << 30, subdir=False,
                              max_dbs=9, sync=False) as env:
            dbs = {}

            def put(name, key, value):
                with env.begin(db=dbs[name], write=True) as txn:
                    assert txn.put(key, value)

            v06 = self.version == '0.6'
            names = (['system', 'latest', 'ordered_data',
                      'ordered_partition', 'ordered_count'] if v06 else
                     ['SYSTEM', 'LATEST_DATA', 'LATEST_TYPE', 'ORDERED_DATA',
                      'ORDERED_PARTITION', 'ORDERED_COUNT', 'REF'])
            for i in names:
                dbs[i] = env.open_db(i.encode())
            if v06:
                put('system', b'server_id', uint(self.server))
                for t, e in self.latest.items():
                    put('latest', hashlib.sha1(jsonb(list(t))).digest()
                        if len(jsonb(list(t))) > 500 else jsonb(list(t)),
                        encode_event('0.6', e))
            else:
                for server, (i, t) in self.last.items():
                    put('SYSTEM', uint(server), event_id(i) + timestamp(t))
                for t, e in self.latest.items():
                    put('LATEST_DATA', uint(self.refs[t]),
                        encode_event('0.7', e))
                for t, ref in self.refs.items():
                    put('LATEST_TYPE', uint(ref), jsonb(list(t)))
                refs = collections.defaultdict(list)
                for e in self.latest.values():
                    refs[e.id].append(b'\x01' + uint(self.refs[e.type]))
                for (p, t, i), e in self.series.items():
                    refs[i].append(b'\x03' + uint(p) + timestamp(t) +
                                   event_id(i))
                for i, values in refs.items():
                    put('REF', event_id(i), b''.join(values))
            prefix = 'ordered_' if v06 else 'ORDERED_'
            names = [prefix + (i if v06 else i.upper())
                     for i in ('data', 'partition', 'count')]
            for (p, t, i), e in self.series.items():
                put(names[0], uint(p) + timestamp(t) + (
                    uint(i[2]) if v06 else event_id(i)),
                    encode_event(self.version, e))
            for p in self.partitions:
                put(names[1], uint(p.id), jsonb(
                    {'order': p.order,
                     'subscriptions': [list(i) for i in p.types]}))
            counts = self.counts()
            for p in counts:
                put(names[2], uint(p), (jsonb(counts[p]) if v06 else
                                        uint(counts[p])))
        pathlib.Path(f'{path}-lock').unlink(missing_ok=True)


def order_by(p):
    return [common.OrderBy.TIMESTAMP,
            common.OrderBy.SOURCE_TIMESTAMP][p.order - 1]


def expected_event(e, new_id):
    payload = e.payload
    if isinstance(payload, Sbs):
        payload = common.EventPayloadBinary(
            (payload.type if payload.module is None else
             f'{payload.module}.{payload.type}'), payload.data)
    elif isinstance(payload, bytes):
        payload = common.EventPayloadBinary('', payload)
    return common.Event(new_id, e.type, e.t, e.st, payload)


def damage(rng, path):
    """Damages one record"""
    with lmdb.Environment(str(path), map_size=1 << 30, subdir=False,
                          max_dbs=9, sync=False) as env:
        entries = []
        with env.begin() as txn:
            names = [bytes(k) for k, _ in txn.cursor()]
        for name in names:
            if name in (b'LATEST_DATA', b'latest', b'ORDERED_DATA',
                        b'ordered_data', b'SYSTEM', b'system', b'REF'):
                db = env.open_db(name, create=False)
                with env.begin(db=db) as txn:
                    entries.extend((db, bytes(k), bytes(v))
                                   for k, v in txn.cursor())
        if not entries:
            return False
        db, key, value = rng.choice(entries)
        with env.begin(db=db, write=True) as txn:
            if rng.random() < 0.2:
                txn.delete(key)
                txn.put(key[:3], value)
            else:
                txn.put(key, value[:rng.randint(0, max(len(value) - 1, 0))])
    pathlib.Path(f'{path}-lock').unlink(missing_ok=True)
    return True


def digest(path):
    return hashlib.sha1(path.read_bytes()).hexdigest()


def command():
    from hat.event.backends.lmdb.convert import main
    return main.main()


durations = collections.deque([0.03], maxlen=20)


def run_main(ctx, src, dst, **kwargs):
    """Conversion command in a process of its own, returns exit code"""
    code = forked.run(command, ['convert', src, dst], **kwargs)
    if not kwargs:
        durations.append(forked.last_duration)
    return code


def setup_worker(spec):
    import hat.event.backends.lmdb.convert.main  # NOQA


def listing(folder):
    return {str(i.relative_to(folder)) for i in folder.rglob('*')}


async def case(ctx):
    rng = ctx.rng
    version = rng.choice(['0.6', '0.7'])
    ctx.count(f'from_{version}')
    folder = ctx.folder('convert')
    src = folder / rng.choice(['old.db', 'event.db', 'new.db.v07', 'new.v07'])
    dst = folder / rng.choice(['new.db', 'new.db', 'new', 'new.x.db'])
    if rng.random() < 0.25:
        # result in a folder of its own
        (folder / 'results').mkdir()
        dst = folder / 'results' / rng.choice([dst.name, src.name])
        ctx.count('other_folder')
    old = Old(ctx, rng, version)
    old.write(src)
    # files of somebody else
    others = {}
    for name in ['new.db.v07', 'new.v07', 'new.db.v09', 'new.db.tmp']:
        path = rng.choice([folder, dst.parent]) / name
        if rng.random() < 0.15 and path not in (src, dst):
            path.write_bytes(b'other')
            others[path] = digest(path)
    ctx.log('version', version, 'src', src.name, 'dst', dst.name,
            'events', len(old.events()))

    kind = rng.choices(['good', 'damaged', 'disk', 'killed', 'refused'],
                       [60, 12, 10, 12, 6])[0]
    kwargs = {}
    if kind == 'damaged':
        if not damage(rng, src):
            kind = 'good'
    elif kind == 'disk':
        kwargs['limit'] = int(rng.choice([4096, 16384, 40000, 70000])
                              * (0.5 + rng.random()))
    elif kind == 'killed':
        if rng.random() < 0.35:
            # as soon as there is something
            name = str(dst)
            kwargs['kill_when'] = lambda: os.path.exists(name)
            ctx.count('killed_when_appears')
        else:
            kwargs['kill_after'] = rng.random() * 1.2 * max(durations)
    elif kind == 'refused':
        reason = rng.choice(['existing', 'missing', 'current', 'garbage'])
        ctx.log('refused because of', reason)
        ctx.count('refused')
        if reason == 'existing':
            dst.write_bytes(rng.choice([b'existing', b'']))
            others[dst] = digest(dst)
        elif reason == 'missing':
            src = folder / 'missing.db'
        elif reason == 'garbage':
            src.write_bytes(rng.randbytes(rng.choice([0, 10, 9000])))
        else:
            # already converted
            code = run_main(ctx, src, folder / 'converted.db')
            ctx.check(code == 0, 'conversion failed', code)
            src = folder / 'converted.db'
            pathlib.Path(f'{src}-lock').unlink(missing_ok=True)
    before = digest(src) if src.exists() else None
    ctx.log('kind', kind, sorted(kwargs))
    files = listing(folder)

    if kind == 'good' and rng.random() < 0.02:
        # command as it is installed
        ctx.count('own_process')
        process = await asyncio.create_subprocess_exec(
            sys.executable, '-m', 'hat.event.backends.lmdb.convert',
            str(src), str(dst),
            stderr=asyncio.subprocess.PIPE)
        _, err = await process.communicate()
        ctx.check(process.returncode == 0, 'conversion failed', err)
        code = 0
    else:
        code = run_main(ctx, src, dst, **kwargs)
    ctx.log('exit code', code)

    ctx.check((digest(src) if src.exists() else None) == before,
              'conversion changed the source database',
              {'version': version, 'src': src.name, 'dst': dst.name})
    for path, value in others.items():
        ctx.check(path.exists() and digest(path) == value,
                  'conversion changed a file which is not its own',
                  {'file': path.name, 'src': src.name, 'dst': dst.name})

    ctx.check(code in (0, 1) or (kind == 'killed' and code == -9),
              'unexpected end of conversion', code)
    if code == 0:
        ctx.equal({i for i in listing(folder) - files
                   if not i.endswith('-lock')},
                  {str(dst.relative_to(folder))} if dst not in others
                  else set(), 'files made by conversion')
    if kind == 'good':
        ctx.check(code == 0, 'conversion failed', code)
    elif kind == 'refused':
        ctx.check(code == 1, 'conversion should be refused', reason)
    if code == 0:
        ctx.check(dst.exists(), 'conversion without result')
    elif code == 1:
        ctx.count('failed')
        if kind == 'disk':
            ctx.count('disk_full')
        if dst not in others:
            ctx.check(not dst.exists(), 'failed conversion left target',
                      {'kind': kind})
    else:
        ctx.count('killed')
        if dst in others or not dst.exists():
            ctx.count('killed_unfinished')

    if kind != 'damaged' and dst.exists() and dst not in others:
        await judge(ctx, old, dst)
    ctx.done((version, kind, code, len(old.events()), len(old.series),
              len(old.partitions), dst.name)
             if old.events() else None,
             (version, kind, 'exit code', code, 'events',
              [e.id for e in old.events()][:4]))


async def judge(ctx, old, dst):
    ctx.count('converted')
    try:
        d = rawdb.dump(dst)
    except lmdb.Error as e:
        ctx.violation('result of conversion is not a database', repr(e))
    errors = rawdb.structure(d)
    ctx.check(not errors, 'converted databases disagree', errors[:5])
    ctx.equal(d['SYSTEM_SETTINGS'], {0: '0.9'}, 'settings')

    # ids are mapped by their order
    mapping = {}
    got_ids = sorted({e.id for e in [*d['LATEST_DATA'].values(),
                                     *d['TIMESERIES_DATA'].values()]})
    for server in {e.id[0] for e in old.events()}:
        new_server = server or 1
        ids = sorted({e.id for e in old.events() if e.id[0] == server},
                     key=lambda i: (i[1] or 0, i[2]))
        new_ids = [i for i in got_ids if i.server == new_server]
        ctx.check(len(ids) == len(new_ids), 'number of events of a server',
                  {'expected': ids, 'got': new_ids})
        mapping.update(zip(ids, new_ids))
        if old.version == '0.7':
            ctx.equal([tuple(i) for i in new_ids], ids, 'event ids')
    ctx.check(len(mapping) == len(got_ids), 'events of unknown server',
              got_ids)

    new = {i: expected_event(e, mapping[i])
           for i, e in ((e.id, e) for e in old.events())}
    ctx.count('events', len(new))
    ctx.count('timeseries', len(old.series))
    ctx.equal({e.type: e for e in d['LATEST_DATA'].values()},
              {t: new[e.id] for t, e in old.latest.items()}, 'latest events')
    ctx.check(len(d['LATEST_DATA']) == len(old.latest), 'latest entries')
    ctx.equal(dict(d['TIMESERIES_DATA']),
              {(p, t, mapping[i]): new[i] for p, t, i in old.series},
              'timeseries entries')
    ctx.equal(dict(d['TIMESERIES_PARTITION']), {
        p.id: {'order': order_by(p).value, 'subscriptions': [list(i) for i in p.types]}
        for p in old.partitions}, 'partitions')
    ctx.equal({k: v for k, v in d['TIMESERIES_COUNT'].items() if v},
              dict(old.counts()), 'counters')
    ctx.check(set(old.latest) <= set(d['LATEST_TYPE'].values()),
              'latest types')
    if old.version == '0.7':
        ctx.equal({k: tuple(v) for k, v in d['SYSTEM_LAST_EVENT_ID'].items()},
                  {k: v[0] for k, v in old.last.items()}, 'last event ids')
        last_ids = {k: common.EventId(*v[0]) for k, v in old.last.items()}
    else:
        last_ids = {k or 1: mapping[v[0]] for k, v in old.last.items()}
        ctx.equal(dict(d['SYSTEM_LAST_EVENT_ID']), last_ids, 'last event ids')
    last_timestamps = {k or 1: v[1] for k, v in old.last.items()}
    ctx.equal(dict(d['SYSTEM_LAST_TIMESTAMP']), last_timestamps,
              'last timestamps')

    # current backend
    conf = {'db_path': str(dst), 'identifier': None, 'flush_period': 1000,
            'cleanup_period': 1000, 'conditions': [],
            'latest': {'subscriptions': [['*']]},
            'timeseries': [
                {'order_by': order_by(p).name,
                 'subscriptions': [list(i) for i in p.types]}
                for p in old.partitions]}
    info = common.import_backend_info('hat.event.backends.lmdb')
    backend = await info.create(conf, None, None)
    try:
        for server, i in last_ids.items():
            ctx.equal(await backend.get_last_event_id(server), i,
                      'last event id given by backend')
        result = await backend.query(common.QueryLatestParams())
        ctx.equal(sorted(result.events, key=lambda e: e.type),
                  [new[e.id] for _, e in sorted(old.latest.items())],
                  'latest query')
        for server in last_ids:
            result = await backend.query(common.QueryServerParams(server))
            ctx.equal(list(result.events), sorted(
                (e for e in new.values() if e.id.server == server),
                key=lambda e: e.id), 'server query')
        for order in common.OrderBy:
            p = next((p for p in old.partitions
                      if order_by(p) == order), None)
            if not p:
                continue
            result = await backend.query(common.QueryTimeseriesParams(
                order_by=order, order=common.Order.ASCENDING))
            ctx.equal(list(result.events), [
                new[i[2]] for i in sorted(
                    (i for i in old.series if i[0] == p.id),
                    key=lambda i: (i[1], mapping[i[2]]))],
                'timeseries query')
        # continuing
        for server, i in last_ids.items():
            t = last_timestamps[server]
            again = common.Event(i, ('again', ), t, None, None)
            e = common.Event(i._replace(session=i.session + 1, instance=1),
                             ('continued', str(server)), t, None, None)
            await backend.register([again, e])
            result = await backend.query(common.QueryLatestParams(
                [('again', ), e.type]))
            ctx.equal(list(result.events), [e], 'continued registration')
        await backend.flush()
    finally:
        await backend.async_close()
    errors = rawdb.structure(rawdb.dump(dst))
    ctx.check(not errors, 'databases disagree after continuing', errors[:5])


def run_case(ctx):
    aiorun.run(ctx, case)
