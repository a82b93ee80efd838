"""C16: encodings are lossless and keep order."""

import collections
import datetime
import fractions
import math

from hat.event import common
from hat.event.backends.lmdb import common as lmdb_common

from rt import gen

LEVEL = 'exploration'
RULE = ('random and boundary values of every type of the API are encoded to '
        'bytes of the eventer protocol and of the database and decoded '
        'again; results have to be equal including types of JSON values. '
        'Database keys of random collections are sorted by their encoded '
        'form and by value. Conversions of timestamps are compared with '
        'exact rational arithmetic. An evaluation is one value, non-trivial '
        'always, distinct by its content')
TIERS = {'quick': {'cases': 4800, 'time': 45},
         'thorough': {'cases': 30000, 'time': 300}}
REQUIRE = {'events': 5000, 'keys_sorted': 5000, 'timestamps': 10000,
           'queries': 2000}

utc = datetime.timezone.utc
epoch = datetime.datetime(1970, 1, 1, tzinfo=utc)
us = datetime.timedelta(microseconds=1)


def same(a, b):
    """Equality which distinguishes types"""
    if isinstance(a, (bytes, bytearray, memoryview)):
        return (isinstance(b, (bytes, bytearray, memoryview)) and
                bytes(a) == bytes(b))
    if isinstance(a, tuple) and hasattr(a, '_fields'):
        return type(a) is type(b) and all(same(i, j) for i, j in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return (isinstance(a, float) and isinstance(b, float) and a == b and
                math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, dict):
        return (isinstance(b, dict) and a.keys() == b.keys() and
                all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, collections.deque)):
        return (isinstance(b, (list, tuple, collections.deque)) and
                len(a) == len(b) and all(same(i, j) for i, j in zip(a, b)))
    if isinstance(a, tuple):
        return (isinstance(b, tuple) and len(a) == len(b) and
                all(same(i, j) for i, j in zip(a, b)))
    return a == b


def exact(t):
    return fractions.Fraction(t.s) + fractions.Fraction(t.us, 10 ** 6)


def uint(rng):
    return rng.choice([0, 1, 2, 255, 256, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
                       2 ** 63 - 1, rng.randint(0, 9), rng.getrandbits(63)])


def gen_id(rng):
    return common.EventId(uint(rng), uint(rng), uint(rng))


def gen_payload(rng):
    p = gen.payload(rng, big=0.02)
    if isinstance(p, common.EventPayloadBinary) and rng.random() < 0.3:
        p = p._replace(data=rng.choice([bytearray, memoryview])(p.data))
    return p


def gen_event(rng):
    return common.Event(
        id=gen_id(rng), type=gen.event_type(rng, 4, odd=0.2),
        timestamp=gen.any_timestamp(rng),
        source_timestamp=(None if rng.random() < 0.3
                          else gen.any_timestamp(rng)),
        payload=gen_payload(rng))


def optional(rng, fn):
    return None if rng.random() < 0.4 else fn(rng)


def gen_types(rng):
    return rng.choice([list, tuple])(gen.query_types(rng, 3, odd=0.1))


def gen_query(rng):
    k = rng.randint(0, 2)
    count = optional(rng, lambda r: r.choice([0, 1, -1, 2 ** 40]))
    if k == 0:
        return common.QueryLatestParams(optional(rng, gen_types))
    if k == 1:
        return common.QueryTimeseriesParams(
            optional(rng, gen_types), *(optional(rng, gen.any_timestamp)
                                        for _ in range(4)),
            rng.choice(list(common.Order)), rng.choice(list(common.OrderBy)),
            count, optional(rng, gen_id))
    return common.QueryServerParams(uint(rng), rng.random() < 0.5, count,
                                    optional(rng, gen_id))


def wire(name, data):
    """Through bytes"""
    return common.sbs_repo.decode(
        name, bytes(common.sbs_repo.encode(name, data)))


def check_messages(ctx):
    rng = ctx.rng

    def check(name, value, to_sbs, from_sbs):
        try:
            got = from_sbs(wire(name, to_sbs(value)))
        except Exception as e:
            ctx.violation(f'{name} cannot be encoded and decoded',
                          {'value': value, 'error': repr(e)})
        ctx.check(same(_lists(value), _lists(got)),
                  f'{name} changed by encoding',
                  {'value': value, 'got': got})
        ctx.done(value, value)

    for _ in range(20):
        event = gen_event(rng)
        check('HatEventer.Event', event, common.event_to_sbs,
              common.event_from_sbs)
        register = common.RegisterEvent(event.type, event.source_timestamp,
                                        event.payload)
        check('HatEventer.RegisterEvent', register,
              common.register_event_to_sbs, common.register_event_from_sbs)
        ctx.count('events')

        d = lmdb_common.db_defs[lmdb_common.DbType.LATEST_DATA]
        got = d.decode_value(bytes(d.encode_value(event)))
        ctx.check(same(event, got), 'event changed by database encoding',
                  {'value': event, 'got': got})
        if isinstance(event.payload, common.EventPayloadBinary):
            ctx.check(isinstance(got.payload.data, bytes),
                      'payload of database is not a copy')
    for _ in range(10):
        check('HatEventer.QueryParams', gen_query(rng),
              common.query_params_to_sbs, common.query_params_from_sbs)
        ctx.count('queries')
    result = common.QueryResult(
        rng.choice([list, collections.deque])(
            gen_event(rng) for _ in range(rng.randint(0, 4))),
        rng.random() < 0.5)
    check('HatEventer.QueryResult', result, common.query_result_to_sbs,
          common.query_result_from_sbs)
    for status in common.Status:
        check('HatEventer.Status', status, common.status_to_sbs,
              common.status_from_sbs)


def _lists(value):
    """Collections are free to change their type"""
    if isinstance(value, common.QueryResult):
        return value._replace(events=list(value.events))
    if isinstance(value, (common.QueryLatestParams,
                          common.QueryTimeseriesParams)):
        if value.event_types is not None:
            return value._replace(event_types=[tuple(i) for i in
                                               value.event_types])
    return value


def check_keys(ctx):
    rng = ctx.rng
    T = lmdb_common.DbType
    near = gen.any_timestamp(rng)

    def timestamp():
        if rng.random() < 0.5:
            return gen.any_timestamp(rng)
        s = near.s + rng.randint(-1, 1)
        return common.Timestamp(max(-2 ** 63, min(2 ** 63 - 1, s)),
                                rng.choice([0, 1, 255, 256, 999999]))

    makers = {T.SYSTEM_LAST_EVENT_ID: lambda: uint(rng),
              T.SYSTEM_LAST_TIMESTAMP: lambda: uint(rng),
              T.REF: lambda: gen_id(rng),
              T.LATEST_DATA: lambda: uint(rng),
              T.LATEST_TYPE: lambda: uint(rng),
              T.TIMESERIES_DATA: lambda: (uint(rng), timestamp(),
                                          gen_id(rng)),
              T.TIMESERIES_PARTITION: lambda: uint(rng),
              T.TIMESERIES_COUNT: lambda: uint(rng)}
    for db_type, maker in makers.items():
        d = lmdb_common.db_defs[db_type]
        keys = [maker() for _ in range(12)]
        if db_type == T.TIMESERIES_DATA:
            p = keys[0][0]
            keys = [(p, *k[1:]) if rng.random() < 0.6 else k for k in keys]
            e = keys[0][2]
            keys = [(*k[:2], e) if rng.random() < 0.3 else k for k in keys]
        keys = list(set(keys))
        encoded = {k: bytes(d.encode_key(k)) for k in keys}
        for k, b in encoded.items():
            ctx.equal(d.decode_key(b), k, f'{db_type} key changed')
        ctx.equal(sorted(keys, key=lambda k: encoded[k]), sorted(keys),
                  f'{db_type} keys are not in order')
        ctx.count('keys_sorted', len(keys))
        ctx.done((db_type, sorted(keys)), n=len(keys))

    def roundtrip(db_type, value):
        d = lmdb_common.db_defs[db_type]
        got = d.decode_value(bytes(d.encode_value(value)))
        ctx.check(same(value, got), f'{db_type} value changed',
                  {'value': value, 'got': got})

    refs = {rng.choice([
        lambda: lmdb_common.LatestEventRef(uint(rng)),
        lambda: lmdb_common.TimeseriesEventRef(
            (uint(rng), timestamp(), gen_id(rng)))])()
        for _ in range(rng.randint(0, 5))}
    roundtrip(T.REF, refs)
    roundtrip(T.SYSTEM_LAST_EVENT_ID, gen_id(rng))
    roundtrip(T.SYSTEM_LAST_TIMESTAMP, timestamp())
    roundtrip(T.LATEST_TYPE, gen.event_type(rng, 4, odd=0.3))
    roundtrip(T.TIMESERIES_COUNT, uint(rng))
    roundtrip(T.TIMESERIES_PARTITION, gen.json_data(rng))
    roundtrip(T.SYSTEM_SETTINGS, gen.json_data(rng))


def check_timestamps(ctx):
    rng = ctx.rng
    for _ in range(60):
        t = gen.any_timestamp(rng)
        other = (gen.any_timestamp(rng) if rng.random() < 0.5 else
                 t._replace(us=rng.randint(0, 999999)))
        b = bytes(common.timestamp_to_bytes(t))
        ctx.equal(len(b), 12, 'length of encoded timestamp')
        ctx.equal(common.timestamp_from_bytes(b), t,
                  'timestamp changed by bytes')
        ctx.equal(b < bytes(common.timestamp_to_bytes(other)), t < other,
                  'encoded timestamps are not in order', t=t, other=other)
        ctx.equal(common.timestamp_from_sbs(
            wire('HatEventer.Timestamp', common.timestamp_to_sbs(t))), t,
            'timestamp changed by sbs')
        ctx.count('timestamps')

        # floats
        f = common.timestamp_to_float(t)
        ctx.check(abs(fractions.Fraction(f) - exact(t)) <=
                  fractions.Fraction(math.ulp(max(1.0, abs(float(t.s))))),
                  'float of timestamp is wrong', {'t': t, 'float': f})
        if abs(f) >= 2 ** 62:
            f = rng.uniform(-2 ** 62, 2 ** 62)
        if rng.random() < 0.4:
            f = rng.choice([
                0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-7, -1e-7, -1e-6, 1e-6,
                4e-7, -4e-7, 0.9999999, -0.9999999, 1.9999996, -1.9999996,
                1e9 + 0.999999, -1e9 - 0.999999, rng.uniform(-10, 10),
                float(rng.randint(-1000, 1000)), rng.uniform(-1e10, 1e10)])
        g = common.timestamp_from_float(f)
        ctx.check(0 <= g.us < 10 ** 6 and isinstance(g.s, int) and
                  isinstance(g.us, int),
                  'timestamp of float is not normalized',
                  {'float': f, 'got': g})
        ctx.check(abs(exact(g) - fractions.Fraction(f)) <=
                  fractions.Fraction(6, 10 ** 7) +
                  fractions.Fraction(math.ulp(f)),
                  'timestamp of float is wrong', {'float': f, 'got': g})

        # datetimes
        t = gen.datetime_timestamp(rng)
        dt = common.timestamp_to_datetime(t)
        expected = (epoch + datetime.timedelta(seconds=t.s) +
                    datetime.timedelta(microseconds=t.us))
        ctx.check(dt == expected and dt.utcoffset() == datetime.timedelta(0),
                  'datetime of timestamp is wrong', {'t': t, 'got': dt})
        ctx.equal(common.timestamp_from_datetime(expected), t,
                  'timestamp of datetime is wrong', datetime=expected)
        ctx.equal(common.timestamp_from_datetime(
            expected.replace(tzinfo=None)), t,
            'timestamp of datetime without zone is wrong', datetime=expected)
        zone = datetime.timezone(datetime.timedelta(
            minutes=rng.randint(-1439, 1439), seconds=rng.choice([0, 0, 1])))
        try:
            local = expected.astimezone(zone)
        except OverflowError:
            local = expected
        ctx.equal(common.timestamp_from_datetime(local), t,
                  'timestamp of datetime in other zone is wrong',
                  datetime=local)
        ctx.done((t, f))

        # adding
        d = rng.choice([0, 0.0, 1, -1, 0.5, -0.5, 1.25, -1.25, 1e-6, -1e-6,
                        rng.uniform(-3, 3), rng.uniform(-1e6, 1e6),
                        rng.randint(-100, 100)])
        g = t.add(d)
        ctx.check(0 <= g.us < 10 ** 6 and
                  abs(exact(g) - exact(t) - fractions.Fraction(d)) <=
                  fractions.Fraction(6, 10 ** 7),
                  'sum of timestamp and seconds is wrong',
                  {'t': t, 'seconds': d, 'got': g})
    ctx.equal((common.timestamp_to_bytes(common.min_timestamp),
               common.timestamp_to_bytes(common.max_timestamp)),
              (bytes(12), b'\xff' * 8 + (999999).to_bytes(4, 'big')),
              'smallest and greatest timestamp')


def run_case(ctx):
    check_messages(ctx)
    check_keys(ctx)
    check_timestamps(ctx)
