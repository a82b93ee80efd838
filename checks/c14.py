"""C14: retention limits and agreement of databases."""

import asyncio
import math
import time

import lmdb

from hat.event import common

from rt import aiorun
from rt import gen
from rt import model
from rt import rawdb
from rt import storage

LEVEL = 'exploration'
RULE = ('random partitions with random limits. Static cases: content is '
        'written without limits, storage is reopened with limits and the '
        'content that remains after the first cleanup is compared entry by '
        'entry with the retention rule. Dynamic cases: cleanup runs every '
        'few milliseconds concurrently with registrations, flushes and '
        'queries. Some cases stay open till events get too old. After each '
        'close raw database contents are checked for agreement (references, '
        'counters, last ids). An evaluation is one partition with limit, '
        'non-trivial if something was removed, distinct by limit and sizes')
TIERS = {'quick': {'cases': 1440, 'time': 45},
         'thorough': {'cases': 30000, 'time': 400}}
REQUIRE = {'removed': 1000, 'structures_checked': 300, 'static': 50,
           'dynamic': 50, 'expired': 10}
ASSUMPTIONS = ['the clock of the sandbox does not step during a case']


def sub_key(p):
    return (common.OrderBy[p['order_by']],
            model.normalize(p['subscriptions']))


def raw_partitions(d):
    """Partition key to id"""
    return {(common.OrderBy(v['order']),
             frozenset(tuple(i) for i in v['subscriptions'])): k
            for k, v in d['TIMESERIES_PARTITION'].items()}


def entries(d, pid):
    return [(k[1], k[2]) for k in d['TIMESERIES_DATA'] if k[0] == pid]


def check_structure(ctx, path):
    d = rawdb.dump(path)
    errors = rawdb.structure(d)
    ctx.check(not errors, 'databases disagree', errors[:20])
    ctx.count('structures_checked')
    ctx.count('entries_checked', len(d['TIMESERIES_DATA']) + len(d['REF']))
    return d


def keep(rows, limit, cutoff, size_entries):
    """Number of oldest entries to be removed"""
    low = limit.get('min_entries', 0)
    high = limit.get('max_entries')
    if size_entries is not None:
        high = size_entries if high is None else min(high, size_entries)
    removed = 0
    while removed < len(rows) and len(rows) - removed > low:
        too_many = high is not None and len(rows) - removed > high
        too_old = cutoff is not None and rows[removed][0] < cutoff
        if not too_many and not too_old:
            break
        removed += 1
    return removed


def timeseries_stat(path):
    env = lmdb.Environment(str(path), subdir=False, readonly=True, lock=False,
                           max_dbs=16, map_size=1 << 32)
    try:
        db = env.open_db(b'TIMESERIES_DATA', create=False)
        with env.begin() as txn:
            return txn.stat(db)
    finally:
        env.close()


HUGE = 1e18


class Source(storage.Source):

    def __init__(self, rng, now, **kwargs):
        super().__init__(rng, **kwargs)
        # before, around and after the origin of time
        self.now = now if rng.random() < 0.85 else rng.choice(
            [-10 ** 9, -30, 0, 2 ** 33])
        start = now if rng.random() < 0.9 else rng.choice([-10 ** 9, 30, 0])
        self.clocks = {i: start - 60 for i in self.servers}

    def event(self, event_id, timestamp):
        e = super().event(event_id, timestamp)
        if e.source_timestamp is not None:
            e = e._replace(source_timestamp=common.Timestamp(
                self.now + self.rng.randint(-60, 20),
                self.rng.choice([0, 1, 999999])))
        return e


def gen_limit(rng):
    limit = storage.gen_limit(rng)
    if 'duration' in limit:
        limit['duration'] = rng.choice([0, 5, 20.5, 40, 59.75, 1e6])
    if rng.random() < 0.1:
        # valid numbers which mean there is no such limit
        for i in ('max_entries', 'duration', 'size'):
            if rng.random() < 0.4:
                limit[i] = rng.choice([math.inf, 1e19, 10 ** 30, 2 ** 63])
    return limit


async def static_case(ctx):
    rng = ctx.rng
    ctx.count('static')
    path = ctx.folder('db') / 'event.db'
    now = int(time.time())
    conf = storage.gen_conf(rng, path, conditions=0, max_results=0)
    if not conf['timeseries']:
        conf['timeseries'] = [{'order_by': 'TIMESTAMP',
                               'subscriptions': [['*']]}]
    huge = rng.random() < 0.03
    if huge:
        conf['timeseries'][0]['subscriptions'] = [['*']]
        keys = set()
        conf['timeseries'] = [
            p for p in conf['timeseries']
            if sub_key(p) not in keys and not keys.add(sub_key(p))]
    source = Source(rng, now, servers=rng.randint(1, 3), odd=0)
    db = storage.Lmdb(ctx, conf, source)
    await db.open()
    for _ in range(rng.randint(3, 40)):
        await db.register()
        if rng.random() < 0.1:
            await db.flush()
    if huge:
        source.max_batch = 900
        for _ in range(6):
            await db.register()
    await db.close()
    before = check_structure(ctx, path)
    pids = raw_partitions(before)

    # the same content, now with limits
    limited = []
    for i, p in enumerate(conf['timeseries']):
        if rng.random() < 0.8:
            limit = gen_limit(rng)
            if huge or limited:
                limit.pop('size', None)
            p = {**p, 'limit': limit}
            limited.append((p, pids[sub_key(p)]))
    conf = {**conf, 'cleanup_period': 1000, 'timeseries': [
        dict(limited_p) if limited_p else p
        for p in conf['timeseries']
        for limited_p in [next((i for i, _ in limited
                                if sub_key(i) == sub_key(p)), None)]]}
    ctx.log('limits', [p['limit'] for p, _ in limited])
    stat = timeseries_stat(path)

    latest_before = None
    t0 = time.time()
    await db.open(conf)
    latest_before = list(
        (await db.backend.query(common.QueryLatestParams())).events)

    def expected(cutoff_time, p, pid):
        rows = sorted(entries(before, pid))
        limit = p['limit']
        cutoff = None
        if limit.get('duration', HUGE) < HUGE:
            cutoff = common.Timestamp(
                *divmod(round((cutoff_time - limit['duration']) * 1000000),
                        1000000))
        size_entries = None
        if limit.get('size', HUGE) < HUGE and stat['entries']:
            total = stat['psize'] * (stat['branch_pages'] +
                                     stat['leaf_pages'] +
                                     stat['overflow_pages'])
            size_entries = int(limit['size'] / (total / stat['entries']))
        return rows[keep(rows, limit, cutoff, size_entries):]

    async def remaining():
        """Entries seen by queries (walk by pages)"""
        result = {}
        for p, pid in limited:
            params = common.QueryTimeseriesParams(
                order=common.Order.ASCENDING,
                order_by=common.OrderBy[p['order_by']],
                event_types=[tuple(i) for i in p['subscriptions']])
            key = next(
                (i for i in conf['timeseries']
                 if common.OrderBy[i['order_by']] == params.order_by and
                 not model.disjoint(i['subscriptions'],
                                    p['subscriptions'])), None)
            if key is None or sub_key(key) != sub_key(p):
                continue
            n = 0
            while True:
                r = await db.backend.query(params)
                events = list(r.events)
                n += len(events)
                if not r.more_follows:
                    break
                params = params._replace(last_event_id=events[-1].id)
            result[pid] = n
        return result

    # bounded progress: the first cleanup starts with opening
    deadline = time.monotonic() + 20
    while True:
        n = await remaining()
        late = [pid for p, pid in limited
                if pid in n and n[pid] > len(expected(t0, p, pid))]
        if not late:
            break
        if time.monotonic() > deadline:
            ctx.violation('limit of partition stays exceeded',
                          {'partitions': late, 'conf': conf})
        await asyncio.sleep(0.001)
    for _ in range(10):
        await asyncio.sleep(0)
    await db.backend.query(common.QueryServerParams(1))
    latest_after = list(
        (await db.backend.query(common.QueryLatestParams())).events)
    await db.close()
    after = check_structure(ctx, path)

    # entries of some partitions can't be seen by queries: give cleanup more
    # time before judging
    retries = 0
    while any(len(entries(after, pid)) > len(expected(t0, p, pid))
              for p, pid in limited) and retries < 8:
        retries += 1
        await db.open(conf)
        await asyncio.sleep(0.01 * 2 ** retries)
        await db.close()
        after = check_structure(ctx, path)
    t1 = time.time()

    ctx.equal(sorted(latest_after), sorted(latest_before),
              'latest events changed by cleanup')
    ctx.equal(after['LATEST_DATA'], before['LATEST_DATA'],
              'latest data changed by cleanup')

    limited_pids = {pid for _, pid in limited}
    for key, pid in pids.items():
        if pid not in limited_pids:
            ctx.equal(entries(after, pid), entries(before, pid),
                      'cleanup changed partition without limit')
    for p, pid in limited:
        rows = sorted(entries(before, pid))
        got = sorted(entries(after, pid))
        most = expected(t0, p, pid)
        least = expected(t1, p, pid)
        ctx.check(got == rows[len(rows) - len(got):],
                  'cleanup removed other than oldest events',
                  {'before': rows, 'after': got, 'limit': p['limit']})
        if retries and 'size' in p['limit']:
            continue
        ctx.check(len(least) <= len(got) <= len(most),
                  'cleanup left wrong number of entries',
                  {'limit': p['limit'], 'before': len(rows),
                   'after': len(got),
                   'allowed': (len(least), len(most)), 'now': (t0, t1),
                   'oldest': rows[:5], 'got oldest': got[:3]})
        removed = len(rows) - len(got)
        ctx.count('removed', removed)
        if removed > 1024:
            ctx.count('partitions_cleaned_in_steps')
        ctx.count('partitions')
        ctx.done((sorted(p['limit'].items()), len(rows), len(got),
                  p['order_by']) if removed else None,
                 {'limit': p['limit'], 'before': len(rows),
                  'after': len(got)})
    values_before = before['TIMESERIES_DATA']
    for k, v in after['TIMESERIES_DATA'].items():
        ctx.equal(v, values_before.get(k), 'event changed by cleanup')


async def dynamic_case(ctx):
    rng = ctx.rng
    ctx.count('dynamic')
    path = ctx.folder('db') / 'event.db'
    now = int(time.time())
    conf = storage.gen_conf(rng, path, conditions=0.1, max_results=0,
                            flush_period=rng.choice([0.003, 0.02, 1000]),
                            cleanup_period=rng.choice([0.001, 0.005]),
                            max_partitions=3)
    for p in conf['timeseries']:
        if rng.random() < 0.8:
            p['limit'] = gen_limit(rng)
    ctx.log('conf', conf)
    source = Source(rng, now, servers=1, odd=0)
    db = storage.Lmdb(ctx, conf, source)
    for _ in range(rng.randint(1, 3)):
        await db.open()

        async def writer():
            for _ in range(rng.randint(5, 30)):
                await storage.pause(rng)
                await db.register()

        async def flusher():
            for _ in range(rng.randint(1, 6)):
                await storage.pause(rng)
                await db.flush()

        async def reader():
            for _ in range(rng.randint(1, 6)):
                await storage.pause(rng)
                params = storage.gen_server(rng, source)
                r = await db.backend.query(params)
                ids = [e.id for e in r.events]
                ctx.check(ids == sorted(set(ids)),
                          'server query during cleanup is not strictly '
                          'increasing', {'ids': ids})
                known = {e.id: e for b in db.batches for e in b}
                ctx.check(all(known.get(e.id) == e for e in r.events),
                          'server query during cleanup returned unknown '
                          'event')
                ctx.count('queries')

        await asyncio.gather(writer(), flusher(), reader())
        settle = rng.random() < 0.7
        if settle:
            await db.flush()
            t_settle = time.time()
            deadline = time.monotonic() + 20
            while True:
                late = []
                for i, p in enumerate(conf['timeseries']):
                    high = p.get('limit', {}).get('max_entries')
                    if high is None:
                        continue
                    high = max(high, p['limit'].get('min_entries', 0))
                    if any(sub_key(q) != sub_key(p) and
                           q['order_by'] == p['order_by'] and
                           not model.disjoint(q['subscriptions'],
                                              p['subscriptions'])
                           for q in conf['timeseries'][:i]):
                        continue
                    r = await db.backend.query(common.QueryTimeseriesParams(
                        event_types=[tuple(j) for j in p['subscriptions']],
                        order_by=common.OrderBy[p['order_by']]))
                    if len(list(r.events)) > high:
                        late.append(p)
                if not late:
                    break
                if time.monotonic() > deadline:
                    ctx.violation('limit of partition stays exceeded',
                                  {'partitions': late})
                await asyncio.sleep(0.002)
        await db.close()
        t_end = time.time()
        d = check_structure(ctx, path)
        pids = raw_partitions(d)
        latest = {e.type: e for e in d['LATEST_DATA'].values()}
        ctx.equal(latest, db.model.latest, 'latest data and cleanup')
        for p in conf['timeseries']:
            pid = pids[sub_key(p)]
            m = db.model.partitions[sub_key(p)]
            rows = sorted((m.key(e)[0], e.id) for e in m.events.values())
            got = sorted(entries(d, pid))
            limit = p.get('limit', {})
            unknown = [i for i in got if i not in rows]
            ctx.check(not unknown, 'partition holds unknown entries',
                      {'entries': unknown})
            removed = [i for i in rows if i not in got]
            ctx.count('removed', len(removed))
            low = limit.get('min_entries', 0)
            bounds = [i for i in ('max_entries', 'duration', 'size')
                      if i in limit]
            if not bounds:
                ctx.check(not removed, 'events removed from partition '
                          'without limit', {'removed': removed})
            ctx.check(len(got) >= min(low, len(rows)),
                      'cleanup went below minimum number of entries',
                      {'limit': limit, 'left': len(got),
                       'all': len(rows)})
            if bounds == ['max_entries']:
                ctx.check(len(got) >= min(limit['max_entries'], len(rows)),
                          'cleanup removed more than maximum number of '
                          'entries required',
                          {'limit': limit, 'left': len(got),
                           'all': len(rows)})
            if bounds == ['duration']:
                young = [i for i in removed
                         if i[0].s + i[0].us * 1e-6 >
                         t_end - limit['duration'] + 0.001]
                ctx.check(not young, 'cleanup removed events younger than '
                          'duration limit', {'removed': young,
                                             'limit': limit, 'now': t_end})
                if settle and p['order_by'] == 'TIMESTAMP' and not low:
                    ctx.count('duration_settled')
            if p['order_by'] == 'TIMESTAMP':
                # single server: events arrive in partition's order
                ctx.check(got == rows[len(rows) - len(got):],
                          'cleanup removed other than oldest events',
                          {'removed': removed, 'left': got[:20]})
            if limit:
                ctx.count('partitions')
                ctx.done((sorted(limit.items()), len(rows), len(got))
                         if removed else None,
                         {'limit': limit, 'all': len(rows),
                          'left': len(got)})
            # entries are gone also for the model
            for ts, eid in removed:
                m.events.pop(eid, None)


async def expiring_case(ctx):
    """Events get too old while the storage is open"""
    rng = ctx.rng
    path = ctx.folder('db') / 'event.db'
    order_by = rng.choice(list(common.OrderBy))
    limit = {}
    partition = {'order_by': order_by.name, 'subscriptions': [['*']],
                 'limit': limit}
    conf = {'db_path': str(path), 'identifier': None,
            'flush_period': rng.choice([0.005, 1000]),
            'cleanup_period': rng.choice([0.002, 0.02]), 'conditions': [],
            'latest': {'subscriptions': rng.choice([[], [['*']]])},
            'timeseries': [partition]}
    source = Source(rng, int(time.time()), servers=1, odd=0)
    now = int(time.time())
    source.now = now
    source.clocks = {i: now - 20 for i in source.servers}
    db = storage.Lmdb(ctx, {**conf, 'timeseries': [
        {**partition, 'limit': {}}]}, source)
    # in order of partition
    late = order_by == common.OrderBy.TIMESTAMP and rng.random() < 0.5
    await db.open()
    for _ in range(rng.randint(5, 20)):
        await db.register()
    if rng.random() < 0.3:
        limit['min_entries'] = rng.randint(0, 10)
    times = [(e.timestamp if order_by == common.OrderBy.TIMESTAMP
              else e.source_timestamp) for b in db.batches for e in b]
    times = sorted(t.s + t.us * 1e-6 for t in times if t)
    delay = 0.1 + rng.random() * 0.3
    if not times:
        await db.close()
        return
    # one of the events expires after that time
    limit['duration'] = max(
        time.time() - rng.choice(times) + delay, 0.05)
    await db.reopen(conf)
    if late:
        for _ in range(rng.randint(1, 5)):
            await db.register()
    await db.flush()
    ctx.log('limit', limit, 'now', time.time())
    key = sub_key(partition)
    m = db.model.partitions[key]
    rows = sorted((m.key(e)[0].s + m.key(e)[0].us * 1e-6, e.id)
                  for e in m.events.values())
    low = limit.get('min_entries', 0)
    params = common.QueryTimeseriesParams(
        order=common.Order.ASCENDING, order_by=order_by)

    def expected(t):
        """Rows that have to stay at that time"""
        n = sum(1 for i, _ in rows if i < t - limit['duration'])
        return rows[min(n, max(len(rows) - low, 0)):]

    # not a step which would happen at opening only
    opened = time.time()
    until = opened + delay + 0.1
    left = None
    deadline = time.monotonic() + 20
    while True:
        t0 = time.time()
        r = await db.backend.query(params)
        t1 = time.time()
        got = [e.id for e in r.events]
        ctx.check(got == [i for _, i in rows][len(rows) - len(got):],
                  'cleanup removed other than oldest events',
                  {'rows': rows, 'left': got, 'limit': limit})
        ctx.check(len(got) >= len(expected(t1 + 0.001)),
                  'cleanup removed events younger than duration limit or '
                  'went below minimum number of entries',
                  {'rows': rows, 'left': got, 'limit': limit, 'now': t1})
        ctx.check(left is None or len(got) <= left, 'events reappeared')
        left = len(got)
        if t0 > until and left <= len(expected(t0 - 0.001)):
            break
        if time.monotonic() > deadline:
            ctx.violation('limit of partition stays exceeded while events '
                          'expire', {'rows': rows, 'left': got,
                                     'limit': limit, 'now': t0})
        await asyncio.sleep(0.01)
    expired = len(expected(opened)) - left
    ctx.count('removed', len(rows) - left)
    ctx.count('expired', max(expired, 0))
    ctx.count('partitions')
    await db.close()
    check_structure(ctx, path)
    ctx.done((sorted(limit), len(rows), left, order_by) if expired > 0
             else None, {'limit': limit, 'rows': len(rows), 'left': left,
                         'expired while open': expired})


def run_case(ctx):
    aiorun.run(ctx, expiring_case if ctx.case % 30 == 7 else
               static_case if ctx.case % 2 else dynamic_case)
