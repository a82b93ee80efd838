"""Reading of database files without the monitored code (besides decoding of
the event message) and checking of agreement between its parts."""

import collections
import json
import shutil
import struct

import lmdb

from hat.event import common

names = ['SYSTEM_SETTINGS', 'SYSTEM_LAST_EVENT_ID', 'SYSTEM_LAST_TIMESTAMP',
         'REF', 'LATEST_DATA', 'LATEST_TYPE', 'TIMESERIES_DATA',
         'TIMESERIES_PARTITION', 'TIMESERIES_COUNT']


def uint(b):
    return struct.unpack('>Q', b)[0]


def event_id(b):
    return common.EventId(*struct.unpack('>QQQ', b))


def timestamp(b):
    s, us = struct.unpack('>QI', b)
    return common.Timestamp(s - (1 << 63), us)


def event(b):
    e = common.event_from_sbs(
        common.sbs_repo.decode('HatEventer.Event', b))
    if isinstance(e.payload, common.EventPayloadBinary):
        e = e._replace(payload=e.payload._replace(
            data=bytes(e.payload.data)))
    return e


def refs(b):
    result = set()
    while b:
        if b[0] == 4:
            result.add(('L', uint(b[1:9])))
            b = b[9:]
        elif b[0] == 6:
            result.add(('T', uint(b[1:9]), timestamp(b[9:21]),
                        event_id(b[21:45])))
            b = b[45:]
        else:
            raise ValueError(f'reference type {b[0]}')
    return result


def timeseries_key(b):
    return uint(b[:8]), timestamp(b[8:20]), event_id(b[20:])


def data(b):
    return json.loads(b.decode('utf-8'))


decoders = {'SYSTEM_SETTINGS': (uint, data),
            'SYSTEM_LAST_EVENT_ID': (uint, event_id),
            'SYSTEM_LAST_TIMESTAMP': (uint, timestamp),
            'REF': (event_id, refs),
            'LATEST_DATA': (uint, event),
            'LATEST_TYPE': (uint, lambda b: tuple(data(b))),
            'TIMESERIES_DATA': (timeseries_key, event),
            'TIMESERIES_PARTITION': (uint, data),
            'TIMESERIES_COUNT': (uint, uint)}


def dump(path):
    """Contents of closed database file"""
    env = lmdb.Environment(str(path), subdir=False, readonly=True, lock=False,
                           max_dbs=len(names), map_size=1 << 32)
    try:
        result = {}
        for name in names:
            dk, dv = decoders[name]
            entries = collections.OrderedDict()
            try:
                db = env.open_db(name.encode(), create=False)
            except lmdb.NotFoundError:
                result[name] = entries
                continue
            with env.begin() as txn:
                with txn.cursor(db) as cursor:
                    for k, v in cursor:
                        entries[dk(bytes(k))] = dv(bytes(v))
            result[name] = entries
        return result
    finally:
        env.close()


def dump_copy(path, target):
    """Contents of opened database file (no write in progress)"""
    shutil.copyfile(path, target)
    try:
        return dump(target)
    finally:
        target.unlink()


def structure(d):
    """List of disagreements between parts of database"""
    errors = []
    ref_db = d['REF']
    for (pid, ts, eid), e in d['TIMESERIES_DATA'].items():
        if e.id != eid:
            errors.append(f'timeseries entry {pid, ts, eid} holds event '
                          f'{e.id}')
        partition = d['TIMESERIES_PARTITION'].get(pid)
        if partition is None:
            errors.append(f'timeseries entry of unknown partition {pid}')
        else:
            order = partition['order']
            t = (e.timestamp if order == common.OrderBy.TIMESTAMP.value
                 else e.source_timestamp)
            if t != ts:
                errors.append(f'timeseries entry {pid, ts, eid} of event with '
                              f'timestamp {t}')
        if ('T', pid, ts, eid) not in ref_db.get(eid, ()):
            errors.append(f'timeseries entry {pid, ts, eid} without '
                          f'reference')
    types = {}
    for ref, t in d['LATEST_TYPE'].items():
        if t in types:
            errors.append(f'event type {t} has two references')
        types[t] = ref
    for ref, e in d['LATEST_DATA'].items():
        if d['LATEST_TYPE'].get(ref) != e.type:
            errors.append(f'latest entry {ref} of type {e.type} is known as '
                          f'type {d["LATEST_TYPE"].get(ref)}')
        if ('L', ref) not in ref_db.get(e.id, ()):
            errors.append(f'latest entry {ref} ({e.id}) without reference')
    for eid, rs in ref_db.items():
        if not rs:
            errors.append(f'event {eid} with empty references')
        for r in rs:
            if r[0] == 'L':
                e = d['LATEST_DATA'].get(r[1])
            else:
                e = d['TIMESERIES_DATA'].get(r[1:])
            if e is None:
                errors.append(f'dangling reference {r} of event {eid}')
            elif e.id != eid:
                errors.append(f'reference {r} of event {eid} leads to event '
                              f'{e.id}')
        last = d['SYSTEM_LAST_EVENT_ID'].get(eid.server)
        if last is None or last < eid:
            errors.append(f'event {eid} is stored but last event id is '
                          f'{last}')
    for e in [*d['TIMESERIES_DATA'].values(), *d['LATEST_DATA'].values()]:
        last = d['SYSTEM_LAST_TIMESTAMP'].get(e.id.server)
        if last is None or last < e.timestamp:
            errors.append(f'event {e.id} with timestamp {e.timestamp} is '
                          f'stored but last timestamp is {last}')
    counts = collections.Counter(k[0] for k in d['TIMESERIES_DATA'])
    for pid in {*counts, *d['TIMESERIES_COUNT']}:
        if counts[pid] != d['TIMESERIES_COUNT'].get(pid, 0):
            errors.append(f'partition {pid} has {counts[pid]} entries but '
                          f'its counter is {d["TIMESERIES_COUNT"].get(pid)}')
    return errors
