"""Generators of hostile but valid values."""

import datetime

from hat.event import common


ALPHA = ['a', 'b', 'c', 'd']

ODD = ['', 'ab', 'a ', 'ž', '𝄞', 'A', '0', 'a/b', '\x00', 'x' * 300, '**',
       '??', 'null', '"', '\\', '\n']


def segment(rng, alpha=ALPHA, odd=0.03):
    if rng.random() < odd:
        return rng.choice(ODD)
    return rng.choice(alpha)


def event_type(rng, max_len=3, alpha=ALPHA, odd=0.03, min_len=0):
    n = rng.randint(min_len, max_len)
    return tuple(segment(rng, alpha, odd) for _ in range(n))


def query_type(rng, max_len=3, alpha=ALPHA, odd=0.03, wild=0.25):
    n = rng.randint(0, max_len)
    result = [('?' if rng.random() < wild else segment(rng, alpha, odd))
              for _ in range(n)]
    if rng.random() < 0.35:
        result.append('*')
    return tuple(result)


def query_types(rng, n=3, **kwargs):
    return [query_type(rng, **kwargs) for _ in range(rng.randint(0, n))]


def json_data(rng, depth=2):
    k = rng.randint(0, 9 if depth else 6)
    if k == 0:
        return None
    if k == 1:
        return rng.choice([True, False])
    if k == 2:
        return rng.choice([0, 1, -1, 42, 2 ** 31, 2 ** 53 + 1, -2 ** 63,
                           10 ** 30])
    if k == 3:
        return rng.choice([0.0, 0.5, -1.25, 1e300, 5e-324, 0.1, 1e16])
    if k in (4, 5):
        return rng.choice(['', 'a', 'ž', '𝄞', 'x' * 50, '\u2028', '"\\/',
                           '1', 'null', '\x00\x1f'])
    if k == 6:
        return rng.randint(-1000, 1000)
    if k in (7, 8):
        return [json_data(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(['a', 'b', 'c', '', 'ž']): json_data(rng, depth - 1)
            for _ in range(rng.randint(0, 3))}


def payload(rng, big=0.01):
    k = rng.random()
    if k < 0.2:
        return None
    if k < 0.4:
        n = rng.choice([0, 1, 3, 17])
        if rng.random() < big:
            n = rng.choice([255, 4096, 70000])
        return common.EventPayloadBinary(
            type=rng.choice(['', 'bin', 'ž', 'a' * 40]),
            data=rng.randbytes(n))
    return common.EventPayloadJson(json_data(rng))


def timestamp(rng, span=20, base=1000):
    """Timestamps with frequent collisions"""
    return common.Timestamp(base + rng.randint(0, span),
                            rng.choice([0, 0, 1, 500000, 999999]))


def any_timestamp(rng):
    k = rng.random()
    if k < 0.25:
        s = rng.choice([0, -1, 1, -2, 59, -60, 2 ** 31, -2 ** 31, 2 ** 32,
                        2 ** 62, -2 ** 62, 2 ** 63 - 1, -2 ** 63])
    elif k < 0.6:
        s = rng.randint(-10 ** 4, 10 ** 4)
    elif k < 0.8:
        s = rng.randint(-2 ** 33, 2 ** 33)
    else:
        s = rng.randint(-2 ** 63, 2 ** 63 - 1)
    us = rng.choice([0, 1, 999999, 500000, rng.randint(0, 999999)])
    return common.Timestamp(s, us)


def datetime_timestamp(rng):
    """Timestamp representable as datetime"""
    lo = int(datetime.datetime(
        1, 1, 1, tzinfo=datetime.timezone.utc).timestamp())
    hi = int(datetime.datetime(
        9999, 12, 31, 23, 59, 59, tzinfo=datetime.timezone.utc).timestamp())
    k = rng.random()
    if k < 0.3:
        s = rng.choice([0, -1, 1, -86400, 86399, lo, hi, 2 ** 31, -2 ** 31,
                        -2 ** 31 - 1, 2 ** 32])
    elif k < 0.6:
        s = rng.randint(-10 ** 5, 10 ** 5)
    else:
        s = rng.randint(lo, hi)
    us = rng.choice([0, 1, 999999, 500000, rng.randint(0, 999999)])
    return common.Timestamp(s, us)


def register_event(rng, max_len=3, **kwargs):
    return common.RegisterEvent(
        type=event_type(rng, max_len, **kwargs),
        source_timestamp=(None if rng.random() < 0.3 else timestamp(rng)),
        payload=payload(rng))
