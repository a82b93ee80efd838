"""C27: whole server process over several generations."""

import asyncio
import contextlib
import json
import os
import signal
import sys
import time

from hat.event import common
from hat.event import eventer

from rt import aiorun
from rt import forked
from rt import gen
from rt import model
from rt import net

LEVEL = 'exploration'
RULE = ('real server (its main function) is run in processes of its own, '
        'several generations over the same database, each ended by SIGKILL '
        'or SIGTERM at random time under load of real clients; what clients '
        'were answered and notified is recorded and compared with what '
        'queries answer during the same and in the following generations. An '
        'evaluation is one generation, distinct by ending, configuration and '
        'sessions seen')
ASSUMPTIONS = ['killed process does not lose what it has handed to the '
               'operating system (no power failure)',
               'clock does not step backwards between generations']
TIERS = {'quick': {'cases': 120, 'time': 75, 'workers': 16},
         'thorough': {'cases': 2000, 'time': 550, 'workers': 16}}
REQUIRE = {'generations': 90, 'killed': 60, 'terminated': 25,
           'killed_starting': 12, 'terminated_starting': 4, 'stopped': 15,
           'confirmed': 3000, 'queried_confirmed': 500,
           'registered_notified': 1000, 'persisted_notified': 800,
           'persisted_notified_killed': 1500, 'stored_after_end': 10000,
           'lost_after_kill': 1500, 'derived': 2500, 'compared': 5000,
           'confirmed_terminated': 800, 'notified_all': 1000,
           'notified_of_end': 60, 'full': 8}

UP = 20
types_n = 6


def setup_worker(spec):
    import hat.event.server.main  # NOQA
    import hat.event.backends.lmdb  # NOQA
    import rt.derive  # NOQA


def command():
    from hat.event.server import main
    return main.main()


class Watcher:

    def __init__(self, name, persisted, subscriptions, server_id):
        self.name = name
        self.persisted = persisted
        self.subscriptions = subscriptions
        self.server_id = server_id
        self.events = []
        self.client = None
        self.after = None

    def wants(self, event, server_id):
        return (model.matches_any(event.type, self.subscriptions) and
                (self.server_id is None or self.server_id == server_id))

    async def on_events(self, client, events):
        self.events.append(list(events))


class Case:

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.folder = ctx.folder('server')
        self.addr = net.free_addr()
        self.server_id = self.rng.choice([1, 2, 7, 2 ** 31])
        self.levels = self.rng.choice([0, 1, 1, 2])
        names = ['x', 'd', 'e']
        self.token = self.rng.choice([None, None, 'token'])
        self.conf = {
            'type': 'event',
            'name': 'server',
            'server_id': self.server_id,
            'backend': {
                'module': 'hat.event.backends.lmdb',
                'db_path': str(self.folder / 'db'),
                'identifier': self.rng.choice([None, 'id']),
                'flush_period': self.rng.choice([0.02, 0.05, 0.1, 0.3, 60]),
                'cleanup_period': self.rng.choice([0.05, 60]),
                'conditions': [],
                'latest': {'subscriptions': [['*']]},
                'timeseries': [{'order_by': 'TIMESTAMP',
                                'subscriptions': [['*']]}]},
            'modules': [{'module': 'rt.derive', 'from': names[i],
                         'to': names[i + 1], 'closing': self.rng.choice(
                             [0, 0, 0, 0.2, 0.5])}
                        for i in range(self.levels)],
            'eventer_server': {'host': self.addr.host,
                               'port': self.addr.port}}
        if self.token:
            self.conf['server_token'] = self.token
        self.rng.shuffle(self.conf['modules'])
        self.conf_path = self.folder / 'conf.json'
        self.conf_path.write_text(json.dumps(self.conf))
        self.pid = None
        self.process = None
        # tags of requests to registered events of types x
        self.requested = {}
        # known to be stored from the end of generation
        self.stored = {}
        self.last_session = 0
        self.tag = 0
        self.generation = 0
        self.old_tags = set()

    # process

    async def start(self, limited=False):
        self.ended = None
        self.limit = None
        if limited:
            self.limit = self.size() + self.rng.randint(150, 500) * 1024
        if self.rng.random() < 0.04 and not limited:
            self.ctx.count('own_process')
            self.process = await asyncio.create_subprocess_exec(
                sys.executable, '-m', 'hat.event.server', '--conf',
                str(self.conf_path), stdin=asyncio.subprocess.DEVNULL,
                stdout=asyncio.subprocess.DEVNULL,
                stderr=asyncio.subprocess.DEVNULL)
            self.pid = self.process.pid
        else:
            self.process = None
            self.pid = forked.start(command,
                                    ['server', '--conf', self.conf_path],
                                    limit=self.limit)

    def size(self):
        path = self.folder / 'db'
        return path.stat().st_size if path.exists() else 0

    async def wait_end(self, what):
        if self.process:
            code = await net.finished(self.ctx, self.process.wait(), what)
        else:
            code = await net.finished(self.ctx, forked.wait(self.pid), what)
        self.pid = None
        return code

    async def kill(self):
        if self.pid is None:
            return
        with contextlib.suppress(ProcessLookupError):
            os.kill(self.pid, signal.SIGKILL)
        if self.process:
            await self.process.wait()
        else:
            await forked.wait(self.pid)
        self.pid = None

    def alive(self):
        if self.process:
            return self.process.returncode is None
        done, _ = os.waitpid(self.pid, os.WNOHANG)
        if done:
            self.pid = None
        return not done

    async def connect(self, name='client', **kwargs):
        return await eventer.connect(self.addr, name, **kwargs)

    async def up(self):
        """Client of server once it is operational"""
        deadline = time.monotonic() + UP
        while True:
            try:
                client = await self.connect('checker')
                break
            except (ConnectionError, OSError, eventer.EventerInitError):
                self.ctx.check(self.alive(), 'server process ended')
                self.ctx.check(time.monotonic() < deadline,
                               f'server did not come up in {UP} s')
                await asyncio.sleep(0.01)
        await net.until(
            self.ctx, lambda: client.status == common.Status.OPERATIONAL,
            'operational status', UP)
        # start of engine is registered before this request
        result = await net.finished(self.ctx, client.register(
            [common.RegisterEvent(('probe', ), None, None)], True), 'request')
        self.ctx.check(result is not None, 'request was refused')
        return client

    # queries

    async def query_all(self, client):
        """Everything that server has, in order of ids"""
        result = []
        last = None
        while True:
            res = await net.finished(self.ctx, client.query(
                common.QueryServerParams(
                    server_id=self.server_id,
                    max_results=self.rng.choice([None, 50, 7]),
                    last_event_id=last)), 'query')
            result.extend(res.events)
            if not res.more_follows:
                break
            last = result[-1].id
        ids = [i.id for i in result]
        self.ctx.check(ids == sorted(set(ids)),
                       'server query is not ordered by ids', ids)
        return result

    async def query_series(self, client):
        result = []
        last = None
        while True:
            res = await net.finished(self.ctx, client.query(
                common.QueryTimeseriesParams(
                    order=common.Order.ASCENDING, last_event_id=last,
                    t_from=result[-1].timestamp if result else None)),
                'query')
            result.extend(res.events)
            if not res.more_follows:
                return result
            last = result[-1].id

    def sessions(self, events):
        result = {}
        for e in events:
            result.setdefault(e.id.session, []).append(e)
        return result

    def check_session(self, events, what):
        """Session is complete: all derived events are there"""
        names = ['x', 'd', 'e']
        got = {i: [] for i in names}
        for e in events:
            self.ctx.check(e.timestamp == events[0].timestamp,
                           f'{what}: timestamps of session differ', events)
            if e.type and e.type[0] in got:
                got[e.type[0]].append(
                    (e.type[1:], e.payload, e.source_timestamp))
        self.ctx.equal([e.id.instance for e in events],
                       list(range(1, len(events) + 1)),
                       f'{what}: instances of session')
        for i, name in enumerate(names[1:]):
            expected = got['x'] if i < self.levels else []
            self.ctx.check(sorted(map(repr, got[name])) ==
                           sorted(map(repr, expected)),
                           f'{what}: derived events of session', events)
            self.ctx.count('derived', len(got[name]))

    # generations

    async def check_stored(self, client):
        """What has survived end of the previous generation"""
        ctx = self.ctx
        events = await self.query_all(client)
        series = await self.query_series(client)
        ctx.check(sorted(series, key=lambda e: e.id)[:len(events)] == events
                  or all(e in series for e in events),
                  'timeseries and server queries differ',
                  lambda: {'server': [e for e in events
                                      if e not in series][:5],
                           'timeseries': [e for e in series
                                          if e not in events][:5]})
        latest = {}
        for e in series:
            latest[e.type] = e
        res = await net.finished(ctx, client.query(
            common.QueryLatestParams()), 'query')
        got = {e.type: e for e in res.events}
        for t, e in latest.items():
            ctx.check(t in got and got[t] >= e, 'latest event is older',
                      {'type': t, 'got': got.get(t), 'stored': e})
        return events

    async def judge(self, events):
        """Previous generation against events of the database

        Events of the current generation have greater session ids.
        """
        ctx, rec = self.ctx, self.record
        by_session = self.sessions(events)
        old = {e.id: e for e in events}

        # everything stored before is still there
        for e in self.stored.values():
            ctx.check(old.get(e.id) == e,
                      'event stored in earlier generations is lost or changed',
                      {'event': e, 'got': old.get(e.id)})

        if rec is None:
            return

        # last session of the generation
        last = self.last_stored
        ctx.count('stored_after_end', sum(
            1 for e in events if e.id.session <= last))

        def stored(e, what):
            ctx.check(old.get(e.id) == e, f'{what} is lost',
                      lambda: {'event': e, 'got': old.get(e.id),
                               'ended by': rec.ended,
                               'last stored session': last,
                               'stored before': e.id in self.stored})

        for session, items in by_session.items():
            if self.first_session <= session <= last:
                self.check_session(items, 'stored')

        for w in rec.watchers:
            for batch in w.events:
                for e in batch:
                    if w.persisted:
                        stored(e, 'event of persisted notification')
                        if rec.ended == 'killed':
                            ctx.count('persisted_notified_killed')
                    elif e.id.session <= last:
                        stored(e, 'notified event of stored session')
                    else:
                        ctx.check(rec.ended in ('killed', 'full'),
                                  'notified event is lost by termination',
                                  {'event': e, 'last': last})
                        ctx.count('lost_after_kill')
            self.judge_watcher(w, by_session, last)

        # everybody has seen the same
        seen = {}
        for what, items in [*((w.name, i) for w in rec.watchers
                              for i in w.events),
                            *(('answer', i) for i in rec.confirmed)]:
            for e in items:
                other = seen.setdefault(e.id, (what, e))
                ctx.check(other[1] == e, 'clients have seen different events '
                          'of the same identifier',
                          {'event': e, 'by': what, 'other': other})
                ctx.count('compared', other[0] != what)

        if rec.ended == 'terminated':
            e = [e for e in events if e.id.session <= last][-1]
            ctx.equal((e.type, e.payload),
                      (('event', str(self.server_id), 'engine'),
                       common.EventPayloadJson('STOPPED')),
                      'last event of terminated generation')

        for result in rec.confirmed:
            for e in result:
                if rec.ended == 'terminated':
                    stored(e, 'confirmed event')
                    ctx.count('confirmed_terminated')
                elif e.id.session <= last:
                    stored(e, 'confirmed event of stored session')

        # events are registered once
        tags = {}
        for e in events:
            if not e.type or e.type[0] != 'x':
                continue
            tag = e.payload.data['tag']
            request = self.requested.get(tag)
            ctx.check(request is not None, 'stored event was not requested',
                      e)
            i = e.payload.data['i']
            ctx.check((tag, i) not in tags, 'event is stored twice',
                      {'event': e, 'other': tags.get((tag, i))})
            tags[tag, i] = e
            r = request[i]
            ctx.equal((e.type, e.source_timestamp, e.payload),
                      (r.type, r.source_timestamp, r.payload),
                      'stored event is not the requested one')
        for (tag, i), e in tags.items():
            for j in range(len(self.requested[tag])):
                other = tags.get((tag, j))
                ctx.check(other is not None and
                          other.id.session == e.id.session and
                          ((other.id.instance < e.id.instance) ==
                           (j < i)),
                          'batch is not stored as a whole and in order',
                          lambda: {'event': e, 'other': other})

    def judge_watcher(self, w, by_session, last):
        """Notifications of single connection"""
        ctx = self.ctx
        order = []
        got = {}
        for batch in w.events:
            sessions = list(self.sessions(batch))
            ctx.check(len(sessions) == 1,
                      'notification does not have exactly one session', batch)
            order.append(sessions[0])
            got[sessions[0]] = batch
        ctx.check(all(i < j for i, j in zip(order, order[1:])),
                  'sessions are not notified once and in order',
                  {'watcher': w.name, 'order': order})
        if not order:
            return
        if w.persisted:
            ctx.count('persisted_notified', len(order))
        else:
            ctx.count('registered_notified', len(order))
        if self.record.ended == 'terminated' and not self.record.twice:
            wanted = [i for i, b in by_session.items()
                      if order[0] <= i <= last and any(
                          w.wants(e, self.server_id) for e in b)]
            ctx.check(wanted[-1:] == order[-1:], 'client was not notified of '
                      'last events of terminated server',
                      {'watcher': w.name, 'persisted': w.persisted,
                       'last': order[-1], 'expected': wanted[-1:]})
            ctx.count('notified_of_end')
        for session in range(order[0], order[-1] + 1):
            if session > last:
                break
            expected = [e for e in by_session.get(session, [])
                        if w.wants(e, self.server_id)]
            if not expected:
                ctx.check(session not in got, 'notification of other events',
                          {'watcher': w.name, 'session': session,
                           'got': got.get(session)})
                continue
            ctx.equal(got.get(session), expected,
                      'notification of session', watcher=w.name,
                      session=session)
        ctx.check(all(w.wants(e, self.server_id) for i in w.events
                      for e in i), 'notification of events not subscribed to')

    async def run(self):
        ctx, rng = self.ctx, self.rng
        self.record = None
        self.first_session = 0
        self.last_stored = 0
        self.ended_time = common.Timestamp(0, 0)
        generations = rng.choice([2, 3, 3, 4])
        try:
            for g in range(generations + 1):
                self.generation = g
                last = g == generations
                limited = rng.random() < 0.15 and not last
                await self.start(limited)
                while rng.random() < 0.12:
                    await asyncio.sleep(rng.random() *
                                        rng.choice([0.02, 0.1, 0.3]))
                    if rng.random() < 0.3:
                        os.kill(self.pid, signal.SIGTERM)
                        code = await self.wait_end('termination of starting '
                                                   'server')
                        ctx.check(code in (0, -signal.SIGTERM),
                                  'exit code of terminated server', code)
                        ctx.count('terminated_starting')
                    else:
                        await self.kill()
                        ctx.count('killed_starting')
                    await self.start(limited)
                await self.run_generation(last)
        finally:
            await self.kill()

    async def run_generation(self, last):
        ctx, rng = self.ctx, self.rng
        checker = await self.up()
        events = await self.check_stored(checker)
        self.split(events)
        await self.judge(events)
        self.stored = {e.id: e for e in events
                       if e.id.session <= self.last_stored}
        if last:
            await checker.async_close()
            return

        rec = self.record = Record()
        ctx.count('generations')
        self.first_session = self.starts
        tasks = []
        quiesce = rng.random() < 0.3 and not self.limit
        if self.limit:
            # may end any time
            rec.ended = 'full'
        try:
            for i in range(rng.randint(2, 5)):
                w = Watcher(f'w{i}', i % 2 == 1, rng.choice(
                    [[('*', )], [('*', )], [('x', '*')], [('?', '1')],
                     [('e', '*'), ('d', '*'), ('q', )]]),
                    rng.choice([None, None, None, self.server_id,
                                self.server_id + 1]))
                tasks.append(asyncio.ensure_future(
                    self.watch(w, rec, rng.choice([0, 0, 0, 0.3]))))
            for i in range(rng.randint(1, 3)):
                tasks.append(asyncio.ensure_future(self.write(
                    i, rec, rng.choice([0, 0.002, 0.02]))))
            await asyncio.sleep(rng.choice([0.1, 0.4, 0.8]) * rng.random() +
                                0.05)
            if self.limit:
                await self.fill(rec)
            elif rng.random() < 0.2:
                os.kill(self.pid, signal.SIGSTOP)
                await asyncio.sleep(rng.random() * 0.3)
                os.kill(self.pid, signal.SIGCONT)
                await asyncio.sleep(rng.random() * 0.1)
                ctx.count('stopped')
            if quiesce:
                await self.quiesce(rec, checker)
                ctx.count('quiesced')
            if not self.limit:
                rec.ended = rng.choice(['killed', 'killed', 'terminated'])
            ctx.log('generation', self.generation, rec.ended)
            if self.limit:
                pass
            elif rec.ended == 'killed':
                await self.kill()
                ctx.count('killed')
            else:
                os.kill(self.pid, rng.choice([signal.SIGTERM,
                                              signal.SIGINT]))
                rec.twice = rng.random() < 0.3
                if rec.twice:
                    await asyncio.sleep(rng.random() * 0.05)
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(self.pid, rng.choice([signal.SIGTERM,
                                                      signal.SIGINT]))
                code = await self.wait_end('termination of server')
                ctx.check(code == 0, 'exit code of terminated server', code)
                ctx.count('terminated')
            self.ended_time = common.now()
            # clients find out
            done, pending = await asyncio.wait(tasks, timeout=20)
            ctx.check(not pending, 'client is still connected to ended server',
                      [str(i) for i in pending])
            for i in done:
                i.result()
            for w in rec.watchers:
                if w.client:
                    await w.client.async_close()
        finally:
            rec.stop = True
            for i in tasks:
                i.cancel()
            await asyncio.wait(tasks)
            await checker.async_close()
        ctx.done((rec.ended, self.levels, quiesce,
                  len(rec.confirmed), rec.seen()),
                 {'ended': rec.ended, 'confirmed': len(rec.confirmed),
                  'watchers': [(w.name, w.persisted, w.subscriptions,
                                len(w.events)) for w in rec.watchers]})

    async def fill(self, rec):
        """Disk is limited, so that server can not go on"""
        ctx = self.ctx
        end = time.monotonic() + self.rng.choice([0.5, 2, 3])
        while time.monotonic() < end and self.alive():
            await asyncio.sleep(0.01)
        if self.pid is not None and self.alive():
            if self.rng.random() < 0.5:
                os.kill(self.pid, signal.SIGTERM)
                await self.wait_end('termination of server with little disk')
                ctx.count('limited_terminated')
            elif self.size() > self.limit - 4096:
                await self.wait_end('end of server with full disk')
                ctx.count('full')
            else:
                await self.kill()
                ctx.count('limited_killed')
        else:
            self.pid = None
            ctx.count('full')

    def split(self, events):
        """Last stored session of the previous generation

        Each generation starts by a session with its engine's status.
        """
        started = [e.id.session for e in events
                   if e.type == ('event', str(self.server_id), 'engine') and
                   e.payload.data == 'STARTED']
        self.ctx.check(bool(started), 'start of engine is not registered',
                       events[:10])
        # (servers killed while starting may have stored something too)
        previous = [e for e in events if e.timestamp <= self.ended_time]
        self.last_stored = previous[-1].id.session if previous else 0
        self.ctx.check(previous == events[:len(previous)],
                       'identifiers do not continue',
                       lambda: {'previous': previous[-3:],
                                'first': [e for e in events
                                          if e not in previous][:3]})
        numbers = sorted({e.id.session for e in events})
        self.ctx.check(
            all(j - i <= 2 for i, j in zip([0, *numbers], numbers)),
            'sessions are missing', numbers[-50:])
        self.starts = started[-1]

    async def quiesce(self, rec, checker):
        """Everything confirmed is notified"""
        ctx = self.ctx
        rec.stop = True
        await net.until(ctx, lambda: rec.writing == 0, 'end of requests', 20)
        flush = self.conf['backend']['flush_period']
        for w in list(rec.watchers):
            if w.client is None or not w.client.is_open:
                continue
            if w.persisted and flush > 1:
                continue
            expected = [e.id for result, ready in rec.confirmed_ready
                        for e in result
                        if w in ready and w.wants(e, self.server_id)]

            def missing():
                got = {e.id for i in w.events for e in i}
                return [i for i in expected if i not in got]

            await net.until(ctx, lambda: not missing(),
                            'notification of confirmed events', 20,
                            lambda: {'watcher': vars(w),
                                     'missing': missing()[:10]})
            ctx.count('notified_all', len(expected))

    async def watch(self, w, rec, delay):
        await asyncio.sleep(delay * self.rng.random())
        if rec.ended:
            return
        try:
            w.client = await self.connect(
                w.name, subscriptions=w.subscriptions, server_id=w.server_id,
                persisted=w.persisted, events_cb=w.on_events)
        except (ConnectionError, OSError, eventer.EventerInitError):
            self.ctx.check(rec.ended or self.rng is None,
                           'client was not accepted')
            return
        rec.watchers.append(w)
        # notified of everything from now on
        rec.ready.append(w)
        await w.client.wait_closed()
        self.ctx.check(rec.ended, 'client was disconnected', w.name)

    async def write(self, n, rec, delay):
        rng = self.rng
        try:
            client = await self.connect(f'writer{n}')
        except (ConnectionError, OSError, eventer.EventerInitError):
            self.ctx.check(rec.ended, 'client was not accepted')
            return
        try:
            while not rec.stop:
                await self.request(client, rec)
                await asyncio.sleep(delay * rng.random())
            await client.wait_closed()
        except ConnectionError:
            self.ctx.check(rec.ended, 'client was disconnected')
        finally:
            await client.async_close()

    async def request(self, client, rec):
        ctx, rng = self.ctx, self.rng
        self.tag += 1
        tag = self.tag
        events = [common.RegisterEvent(
            type=('x', str(rng.randint(1, types_n))),
            source_timestamp=(gen.timestamp(rng) if rng.random() < 0.5
                              else None),
            payload=common.EventPayloadJson({'tag': tag, 'i': i}))
            for i in range(rng.choice([1, 1, 2, 3, 10]))]
        self.requested[tag] = events
        ready = list(rec.ready)
        rec.writing += 1
        try:
            if rng.random() < 0.2:
                await client.register(events)
                ctx.count('unconfirmed')
                return
            result = await client.register(events, with_response=True)
            ctx.check(result is not None or rec.ended,
                      'request was refused')
            if result is None:
                return
            result = list(result)
            ctx.equal([(e.type, e.source_timestamp, e.payload)
                       for e in result],
                      [tuple(e) for e in events], 'answer to request')
            ctx.check(all(e.id.server == self.server_id and
                          e.id.session >= self.first_session and
                          e.id.session == result[0].id.session
                          for e in result), 'identifiers of answer', result)
            rec.confirmed.append(result)
            rec.confirmed_ready.append((result, ready))
            ctx.count('confirmed', len(result))
            if rng.random() < 0.6:
                await self.query_confirmed(client, result)
        finally:
            rec.writing -= 1

    async def query_confirmed(self, client, result):
        ctx, rng = self.ctx, self.rng
        event = rng.choice(result)
        kind = rng.randint(0, 2)
        if kind == 0:
            res = await client.query(common.QueryLatestParams([event.type]))
            ctx.check(len(res.events) == 1 and
                      list(res.events)[0] >= max(
                          e for e in result if e.type == event.type),
                      'latest query after confirmation',
                      lambda: {'event': event, 'got': res})
        elif kind == 1:
            res = await client.query(common.QueryTimeseriesParams(
                event_types=[('x', '?')], t_from=event.timestamp,
                t_to=event.timestamp, order=common.Order.ASCENDING))
            ctx.check(all(e in res.events for e in result),
                      'timeseries query after confirmation',
                      lambda: {'event': event, 'got': res})
        else:
            res = await client.query(common.QueryServerParams(
                server_id=self.server_id,
                last_event_id=event.id._replace(instance=0)))
            ctx.check(all(e in res.events for e in result),
                      'server query after confirmation',
                      lambda: {'event': event, 'got': res})
        ctx.count('queried_confirmed')


class Record:
    """What clients have seen during one generation"""

    def __init__(self):
        self.watchers = []
        self.ready = []
        self.confirmed = []
        self.confirmed_ready = []
        self.ended = None
        self.stop = False
        self.writing = 0

    def seen(self):
        return [(w.persisted, [i[0].id.session for i in w.events])
                for w in self.watchers]


def run_case(ctx):
    aiorun.run(ctx, run)


async def run(ctx):
    await Case(ctx).run()
