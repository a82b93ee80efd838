"""Driving and recording of engines."""

import asyncio
import collections
import itertools

from hat import aio
from hat.event import common
import hat.event.server.engine

from rt import aiorun
from rt import engmod
from rt import gen
from rt import model
from rt import net

_keys = itertools.count()


class InjectedError(Exception):
    pass


class Backend(common.Backend):
    """Recording backend in front of another one (or of nothing)"""

    def __init__(self, run, inner=None):
        self.run = run
        self.inner = inner
        self.group = aio.Group()
        self.last = {}
        self.slow = 0
        self.refuse = 0
        self.fail_at = None

    @property
    def async_group(self):
        return self.group

    async def get_last_event_id(self, server_id):
        if self.inner:
            return await self.inner.get_last_event_id(server_id)
        return self.last.get(server_id, common.EventId(server_id, 0, 0))

    async def register(self, events):
        events = list(events)
        run = self.run
        run.record('backend', events)
        run.backend_running += 1
        for e in events:
            self.last[e.id.server] = max(e.id, self.last.get(e.id.server,
                                                             e.id))
        run.ctx.check(run.backend_running == 1,
                      'events of two sessions are registered at once')
        try:
            n = len(run.sessions)
            if self.slow and run.rng.random() < 0.5:
                await asyncio.sleep(run.rng.random() * self.slow)
            await run.held_at('backend')
            if self.fail_at is not None and n >= self.fail_at:
                self.fail_at = None
                run.ctx.count('failed_backend')
                run.failing = True
                raise InjectedError('backend')
            if run.rng.random() < self.refuse:
                run.ctx.count('refused_by_backend')
                run.refused.add(events[0].id)
                return None
            if self.inner:
                result = await self.inner.register(events)
            else:
                result = events
            run.record('stored', events)
            return result
        finally:
            run.backend_running -= 1

    async def query(self, params):
        if self.inner:
            return await self.inner.query(params)
        return common.QueryResult([], False)

    async def flush(self):
        if self.inner:
            await self.inner.flush()


class Spec:
    """Behaviour of a module"""

    def __init__(self, run, index):
        rng = run.rng
        self.run = run
        self.index = index
        self.key = next(_keys)
        self.subscriptions = (
            [('*', )] if rng.random() < 0.35 else
            gen.query_types(rng, 3) if rng.random() < 0.85 else [])
        self.sync = rng.random() < 0.3
        self.slow = rng.choice([0, 0, 0.3, 0.9])
        self.react = rng.choice([0, 0.3, 0.7, 1])
        self.fail = None       # (kind, number of call)
        self.calls = collections.Counter()
        self.running = 0
        self.own = 0           # registrations of its own
        self.ending = None     # event which its closing waits for
        self.returned = rng.randint(0, 3)

    def conf(self):
        engmod.SPECS[self.key] = self
        return {'module': 'rt.engmod', 'key': self.key}

    async def created(self, module):
        run = self.run
        run.record('created', self.index, module.source)
        run.modules.append(module)
        run.ctx.check(module.source == common.Source(
            common.SourceType.MODULE, self.index), 'source of module',
            (module.source, self.index))
        if self.own:
            module.async_group.spawn(self._own_loop, module)
        if self.ending:
            module.async_group.spawn(aio.call_on_cancel, self.ending.wait)
        await aiorun.pause(run.rng)
        if self.fail and self.fail[0] == 'create':
            run.ctx.count('failed_create')
            run.failing = True
            module.close()
            run.modules.remove(module)
            raise InjectedError('create')

    async def _own_loop(self, module):
        for _ in range(self.own):
            await aiorun.pause(self.run.rng)
            self.run.register(module.engine, module.source)

    def _enter(self, kind, data):
        run = self.run
        run.record(kind, self.index, data)
        self.running += 1
        run.ctx.check(self.running == 1,
                      'module is called before previous call finished')

    def _leave(self, module, kind, data):
        run = self.run
        self.running -= 1
        n = self.calls[kind]
        self.calls[kind] += 1
        if self.fail and self.fail == (kind, n):
            run.ctx.count(f'failed_{kind}')
            run.failing = True
            raise InjectedError(kind)
        if kind != 'process':
            return
        source, event = data
        result = list(self.reactions(event))
        run.record('result', self.index, result)
        if not result:
            return None if run.rng.random() < 0.5 else []
        k = run.rng.randint(0, 3)
        return (result if k == 0 else tuple(result) if k == 1 else
                collections.deque(result) if k == 2 else iter(result))

    def reactions(self, event):
        run = self.run
        rng = run.rng
        left = fuel(event)
        if not left:
            return
        if 'chain' in event.payload.data:
            if event.payload.data['chain'] == self.index:
                run.ctx.count('chained')
                yield run.chain_event(self, left - 1)
            return
        if rng.random() > self.react:
            return
        for _ in range(rng.choice([1, 1, 2])):
            yield run.register_event(left - 1)

    def sync_call(self, module, kind, data):
        self._enter(kind, data)
        return self._leave(module, kind, data)

    async def call(self, module, kind, data):
        self._enter(kind, data)
        try:
            if self.run.rng.random() < self.slow:
                await aiorun.pause(self.run.rng)
            await self.run.held_at(kind)
        except BaseException:
            self.running -= 1
            raise
        return self._leave(module, kind, data)


def fuel(event):
    if isinstance(event.payload, common.EventPayloadJson):
        if isinstance(event.payload.data, dict):
            return event.payload.data.get('fuel', 0)
        return 1 if event.payload.data in ('STARTED', 'CONNECTED',
                                           'DISCONNECTED') else 0
    return 0


class Request:
    """One call of register"""

    def __init__(self, index, source, events):
        self.index = index
        self.source = source
        self.events = events
        self.cancelled = False
        self.accepted = False
        self.task = None


class Run:
    """Recorded run of (several generations of) engines"""

    def __init__(self, ctx, server_id=None):
        self.ctx = ctx
        self.rng = ctx.rng
        self.server_id = server_id or ctx.rng.choice([1, 2, 5, 2 ** 40])
        self.trace = []
        self.tags = itertools.count(1)
        self.requests = []
        self.backend_running = 0
        self.failing = False
        self.refused = set()
        self.modules = []
        self.specs = []
        self.starts = []     # indexes of trace where engines were created
        self.max_fuel = ctx.rng.choice([0, 1, 1, 2])
        self.hold = None       # (place, event)
        self.held = False

    async def held_at(self, place):
        """Call which takes as long as the case wants"""
        if self.hold and self.hold[0] == place:
            self.held = True
            await self.hold[1].wait()

    async def take_long(self, engine):
        """Something takes really long, all the requests wait for it"""
        ctx, rng = self.ctx, self.rng
        place = rng.choice(['backend', 'start', 'process', 'stop'])
        event = asyncio.Event()
        self.hold, self.held = (place, event), False
        requests = [self.register(engine, common.Source(
            rng.choice(list(common.SourceType)), i))
            for i in range(rng.randint(1, 4))]
        for _ in range(100):
            if self.held or not engine.is_open:
                break
            await asyncio.sleep(0.0005)
        try:
            if self.held and engine.is_open:
                ctx.log('take long', place)
                await aiorun.warp(rng.choice([20, 100, 400, 1000]))
                ctx.check(engine.is_open, 'engine is closed while session '
                          'takes long', {'place': place})
                ctx.check(not requests[-1].task.done(),
                          'registration ended while session takes long',
                          {'place': place, 'trace': self.trace[-10:]})
                ctx.count('long')
        finally:
            self.hold = None
            event.set()

    @property
    def sessions(self):
        """Sessions given to the backend"""
        return [i[1] for i in self.trace if i[0] == 'backend']

    def record(self, *entry):
        self.trace.append(entry)
        if entry[0] in ('backend', 'process', 'created'):
            self.ctx.log(*entry)

    def register_event(self, left=None):
        rng = self.rng
        tag = next(self.tags)
        if left is None:
            left = rng.randint(0, self.max_fuel)
        k = rng.random()
        if k < 0.07:
            return common.RegisterEvent(
                (*gen.event_type(rng), f'#{tag}'), None, None)
        if k < 0.75:
            return common.RegisterEvent(
                gen.event_type(rng, odd=0.02),
                None if rng.random() < 0.5 else gen.any_timestamp(rng),
                common.EventPayloadJson({'tag': tag, 'fuel': left,
                                         'data': gen.json_data(rng, 1)}))
        return common.RegisterEvent(
            gen.event_type(rng), common.Timestamp(tag, 7),
            None if k < 0.85 else common.EventPayloadBinary(
                str(tag), rng.randbytes(3)))

    def chain_event(self, spec, left):
        """Event which the module answers with the next one of a chain"""
        event_type = next(
            (tuple('x' if i in ('?', '*') else i for i in t)
             for t in spec.subscriptions), ('x', ))
        return common.RegisterEvent(
            event_type, None, common.EventPayloadJson(
                {'tag': next(self.tags), 'fuel': left, 'chain': spec.index}))

    def register(self, engine, source, events=None):
        """Start of registration"""
        rng = self.rng
        if events is None:
            events = [self.register_event()
                      for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        r = Request(len(self.requests), source, events)
        r.engine = engine
        r.was_open = engine.is_open
        self.requests.append(r)
        if rng.random() < 0.3:
            events = tuple(events)
        elif rng.random() < 0.3:
            events = collections.deque(events)
        r.task = asyncio.ensure_future(self._register(r, engine, source,
                                                      events))
        return r

    async def abandon(self, r):
        """Caller gives up waiting, sometimes while request is processed"""
        for _ in range(self.rng.randint(0, 20)):
            if r.task.done():
                return
            await asyncio.sleep(0)
        await aiorun.pause(self.rng)
        if not r.task.done():
            r.cancelled = True
            r.task.cancel()
            self.ctx.count('abandoned')
            self.ctx.log('abandon', r.index)

    async def _register(self, r, engine, source, events):
        self.record('request', r.index)
        try:
            result = await engine.register(source, events)
        except Exception as e:
            self.record('error', r.index, e)
            r.open_at_error = engine.is_open
            raise
        except BaseException:
            self.record('cancelled', r.index)
            raise
        self.record('answer', r.index)
        return result

    def add_specs(self, n):
        self.specs = [Spec(self, i) for i in range(n)]
        return self.specs

    async def create_engine(self, backend, eventer_server=None,
                            queue_size=1024, restart_cb=lambda: None):
        self.starts.append(len(self.trace))
        self.record('engine', queue_size)
        return await hat.event.server.engine.create_engine(
            backend=backend, eventer_server=eventer_server,
            module_confs=[i.conf() for i in self.specs],
            server_id=self.server_id, restart_cb=restart_cb,
            reset_monitor_ready_cb=lambda: None,
            register_queue_size=queue_size)

    def close(self):
        for i in self.specs:
            engmod.SPECS.pop(i.key, None)

    async def settle(self, timeout=30):
        """Wait for all requests of closed (or idle) engines"""
        pending = [r.task for r in self.requests if not r.task.done()]
        if not pending:
            return
        _, pending = await asyncio.wait(pending, timeout=timeout)
        if pending:
            hung = [r.index for r in self.requests if not r.task.done()]
            self.ctx.violation(
                f'registrations did not complete in {timeout} s',
                {'requests': hung, 'engine open': [
                    r.engine.is_open for r in self.requests
                    if r.index in hung][:3]})


def same(event, request):
    return (event.type == request.type and
            event.source_timestamp == request.source_timestamp and
            event.payload == request.payload)


def status_event(run, session, status):
    e = session[0]
    return (e.type == ('event', str(run.server_id), 'engine') and
            e.source_timestamp is None and
            e.payload == common.EventPayloadJson(status))


def judge_ids(run, stored_only=False):
    """Identity of created events, over all generations"""
    ctx = run.ctx
    last = 0
    last_t = None
    seen = set()
    for session in run.sessions:
        ctx.check(session, 'session without events')
        n = session[0].id.session
        for i, e in enumerate(session):
            ctx.check(e.id.server == run.server_id, 'server id of event', e)
            ctx.check(e.id not in seen, 'event id was already used',
                      {'event': e})
            seen.add(e.id)
            ctx.check(e.id.session == n and e.id.instance == i + 1,
                      'ids of a session are not consecutive',
                      [e.id for e in session])
            ctx.check(e.timestamp == session[0].timestamp,
                      'timestamps of a session differ',
                      [e.timestamp for e in session])
        stopped = status_event(run, session, 'STOPPED')
        # last session may have been dropped by closing
        ctx.check(n == last + 1 or (stopped and n == last + 2),
                  'session number does not follow previous one',
                  {'previous': last, 'session': [e.id for e in session]})
        if n == last + 2:
            ctx.count('dropped_sessions')
        last = n
        if last_t is not None:
            ctx.check(session[0].timestamp >= last_t,
                      'timestamp is before that of previous session',
                      {'previous': last_t, 'session': session[0]})
        last_t = session[0].timestamp
        ctx.count('sessions')


def judge_sessions(run):
    """What modules of the last engine were told, against what was given to
    the backend"""
    _judge_generation(run, run.trace[run.starts[-1]:])


def _judge_generation(run, trace):
    ctx = run.ctx
    n_modules = len({i[1] for i in trace if i[0] == 'created'})
    sessions = {}
    order = []
    current = None       # session which modules know of
    started = set()
    stopped = set()
    calls = []
    results = []
    pending = None

    for entry in trace:
        kind = entry[0]
        if kind == 'start':
            _, module, n = entry
            if current is None:
                ctx.check(pending is None, 'session which modules were told '
                          'of was not given to storage',
                          {'session': pending and pending[0], 'next': n})
                current = n
                started, stopped, calls, results = set(), set(), [], []
            ctx.check(n == current and module not in started and not calls
                      and not stopped, 'session start of a module is out of '
                      'place', {'session': n, 'current': current,
                                'module': module})
            started.add(module)
            ctx.count('starts')
        elif kind == 'process':
            _, module, (source, event) = entry
            ctx.check(current is not None and len(started) == n_modules and
                      not stopped and event.id.session == current,
                      'event is processed out of its session',
                      {'event': event, 'session': current,
                       'started': started, 'stopped': stopped})
            calls.append((module, source, event))
            ctx.count('processed')
        elif kind == 'result':
            results.append((entry[1], entry[2]))
        elif kind == 'stop':
            _, module, n = entry
            ctx.check(n == current and len(started) == n_modules and
                      module not in stopped,
                      'session stop of a module is out of place',
                      {'session': n, 'current': current, 'module': module})
            stopped.add(module)
            if len(stopped) == n_modules:
                pending = current, calls, results
                current = None
        elif kind == 'backend':
            session = entry[1]
            n = session[0].id.session
            if not n_modules or status_event(run, session, 'STOPPED'):
                continue
            ctx.check(pending is not None and pending[0] == n,
                      'session is given to storage without all modules '
                      'having been told of it',
                      {'session': n, 'modules know of':
                       pending[0] if pending else None})
            _judge_session(run, n, n_modules, session, *pending[1:])
            pending = None


def _judge_session(run, n, n_modules, session, calls, results):
    ctx = run.ctx
    requested = [r for r in run.requests if r.events and
                 same(session[0], r.events[0])]
    produced = [(module, e) for module, events in results for e in events]
    count = len(session) - len(produced)
    head = session[:count]
    ctx.check(count > 0, 'events returned by modules are missing',
              {'session': session, 'returned': produced})
    if requested:
        r = requested[0]
        ctx.check(len(head) == len(r.events) and
                  all(same(e, i) for e, i in zip(head, r.events)),
                  'session does not consist of registered events and '
                  'everything returned by modules',
                  {'session': session, 'requested': r.events,
                   'returned': produced})
        source = r.source
    else:
        ctx.check(len(head) == 1 and (
            head[0].type[:2] == ('event', str(run.server_id))),
            'session of unknown events',
            {'session': session, 'returned': produced})
        source = (common.Source(common.SourceType.ENGINE, 0)
                  if head[0].type[2:] == ('engine', ) else None)

    sources = {}
    for e in head:
        sources[e.id] = source
    left = list(produced)
    for e in session[count:]:
        for i, (module, x) in enumerate(left):
            if same(e, x):
                sources[e.id] = common.Source(common.SourceType.MODULE,
                                              module)
                left.pop(i)
                break
        else:
            ctx.violation('session contains event which nobody registered',
                          {'event': e, 'returned': produced})
    ctx.check(not left, 'events returned by modules are missing',
              {'session': session, 'missing': left})

    # order of results of one module is kept
    for module, events in results:
        ids = [next(s.id for s in session if same(s, e)) for e in events]
        ctx.check(ids == sorted(ids), 'order of events returned by a module',
                  {'returned': events, 'session': session})

    for spec in run.specs[:n_modules]:
        got = [(s, e) for m, s, e in calls if m == spec.index]
        expected = [e for e in session
                    if model.matches_any(e.type, spec.subscriptions)]
        ctx.check([e for _, e in got] == expected,
                  'module did not process exactly the events it subscribed '
                  'to, in order',
                  {'module': spec.index, 'subscriptions': spec.subscriptions,
                   'processed': [e for _, e in got], 'session': session})
        for s, e in got:
            if sources[e.id] is not None:
                ctx.check(s == sources[e.id], 'source of processed event',
                          {'event': e, 'source': s,
                           'expected': sources[e.id]})
        ctx.count('filtered', len(session) - len(got))
    ctx.count('reactions', len(produced))
    ctx.count('judged_sessions')
    ctx.done((len(head), sorted(
        (m, [e.id.instance for x, _, e in calls if x == m])
        for m in range(n_modules)), [e.type for e in session])
        if calls else None,
        ('session', [e.type for e in session], 'calls',
         [(m, e.id.instance) for m, _, e in calls]))


def judge_answers(run, fifo=True):
    """Outcomes of requests, against what was given to the backend"""
    ctx = run.ctx
    stored = {i[1][0].id.session: i[1] for i in run.trace if i[0] == 'stored'}
    position = {}
    stored_at = {}
    for i, entry in enumerate(run.trace):
        if entry[0] in ('answer', 'request', 'error', 'cancelled'):
            position[(entry[0], entry[1])] = i
        elif entry[0] == 'stored':
            stored_at[entry[1][0].id.session] = i
    owner = {}
    for session in run.sessions:
        n = session[0].id.session
        for r in run.requests:
            if r.events and same(session[0], r.events[0]):
                ctx.check(r.index not in owner.values(),
                          'request was processed twice', {'request':
                                                          r.index})
                owner[n] = r.index
    sessions_of = {v: k for k, v in owner.items()}

    for r in run.requests:
        ctx.check(r.task.done(), 'registration did not complete',
                  {'request': r.index})
        n = sessions_of.get(r.index)
        if r.task.cancelled():
            outcome = 'cancelled'
        elif r.task.exception():
            outcome = 'error'
            ctx.check(not isinstance(r.task.exception(),
                                     asyncio.InvalidStateError),
                      'registration failed with internal error',
                      repr(r.task.exception()))
            ctx.check(not r.open_at_error,
                      'registration failed though engine is open',
                      repr(r.task.exception()))
        else:
            result = r.task.result()
            if result is None:
                outcome = 'refused'
                ctx.check(n is not None and any(
                    i.session == n for i in run.refused),
                    'registration is answered with None though storage '
                    'accepted it', {'request': r.index, 'session': n})
            elif not r.events:
                outcome = 'empty'
                ctx.check(list(result) == [], 'result of empty registration',
                          result)
            else:
                outcome = 'events'
                result = list(result)
                ctx.check(len(result) == len(r.events) and
                          all(same(e, i) for e, i in zip(result, r.events)),
                          'registration is answered with other events',
                          {'requested': r.events, 'result': result})
                ctx.check(n in stored and stored[n][:len(result)] == result,
                          'answered events were not stored',
                          {'result': result, 'stored': stored.get(n)})
                ctx.check(stored_at[n] < position[('answer', r.index)],
                          'registration is answered before events are '
                          'stored', {'request': r.index})
        ctx.count(f'outcome_{outcome}')
        ctx.done((outcome, len(r.events), r.cancelled, n is None,
                  r.was_open, r.source.type) if r.events else None,
                 ('request', r.index, outcome))

    if fifo:
        order = [owner[n] for n in sorted(owner)]
        called = sorted(order, key=lambda i: position[('request', i)])
        ctx.check(order == called, 'requests were not processed in order',
                  {'processed': order, 'called': called})


def judge_bounds(run):
    """STARTED is first and STOPPED is last"""
    ctx = run.ctx
    bounds = [*run.starts, len(run.trace)]
    for a, b in zip(bounds, bounds[1:]):
        sessions = [i[1] for i in run.trace[a:b] if i[0] == 'backend']
        if not sessions:
            continue
        if len(sessions) == 1 and status_event(run, sessions[0], 'STOPPED'):
            # closed while the first session was processed
            continue
        ctx.check(status_event(run, sessions[0], 'STARTED'),
                  'first session of an engine is not STARTED', sessions[0])
        ctx.check(status_event(run, sessions[-1], 'STOPPED') and
                  len(sessions[-1]) == 1,
                  'last session of an engine is not STOPPED', sessions[-1])
        for s in sessions[1:-1]:
            ctx.check(not status_event(run, s, 'STARTED') and
                      not status_event(run, s, 'STOPPED'),
                      'unexpected status event', s)
        ctx.count('engines')


async def large(ctx):
    """Sessions of many (and equal) events"""
    rng = ctx.rng
    run = Run(ctx)
    backend = Backend(run)
    specs = run.add_specs(rng.randint(1, 3))
    processed = collections.defaultdict(list)
    react = rng.random() < 0.7

    def make(spec):
        async def call(module, kind, data):
            if kind != 'process':
                return
            source, event = data
            processed[spec.index].append((source, event))
            if rng.random() < 0.002:
                await asyncio.sleep(0)
            if react and event.payload is None and rng.random() < 0.8:
                return [common.RegisterEvent(
                    (*event.type, str(spec.index)), None,
                    common.EventPayloadJson(None))]

        spec.call = call
        spec.sync = False

    for spec in specs:
        make(spec)
    engine = await run.create_engine(backend)
    try:
        for number in range(rng.randint(1, 2)):
            n = rng.choice([130, 300, 1100, 2500])
            types = [gen.event_type(rng) for _ in range(rng.choice([1, 5]))]
            request = [common.RegisterEvent(rng.choice(types), None, None)
                       for _ in range(n)]
            source = common.Source(common.SourceType.EVENTER, number)
            processed.clear()
            result = await net.finished(
                ctx, engine.register(source, request), 'registering')
            ctx.check(result is not None and len(result) == n and
                      all(same(*i) for i in zip(result, request)),
                      'answer to registration of many events',
                      {'requested': n, 'got': len(result or []), 'first': next(
                          (i for i in zip(result or [], request)
                           if not same(*i)), None)})
            session = run.sessions[-1]
            ctx.equal([e.id.instance for e in session],
                      list(range(1, len(session) + 1)),
                      'ids of large session')
            ctx.equal(session[:n], list(result), 'events given to storage')
            ctx.check(len({e.timestamp for e in session}) == 1,
                      'timestamps of large session')
            for spec in specs:
                got = [i for i in processed[spec.index]
                       if i[1].id.session == session[0].id.session]
                want = [e for e in session
                        if model.matches_any(e.type, spec.subscriptions)]
                ctx.check([e for _, e in got] == want,
                          'events of large session given to a module',
                          {'module': spec.index,
                           'subscriptions': spec.subscriptions,
                           'got': len(got), 'expected': len(want),
                           'session': len(session)})
                for s, e in got:
                    initial = e.id.instance <= n
                    ctx.check(
                        s == source if initial else
                        (s.type == common.SourceType.MODULE and
                         e.type[-1] == str(s.id)), 'source of event',
                        (s, e))
            ctx.count('large')
            ctx.count('large_events', len(session))
            ctx.done(('large', n, len(session), [
                tuple(s.subscriptions) for s in specs]),
                ('session of', len(session)))
    finally:
        await engine.async_close()
        run.close()


async def crowd(ctx):
    """Hundreds of requests wait at once"""
    rng = ctx.rng
    run = Run(ctx)
    run.max_fuel = 0
    backend = Backend(run)
    run.add_specs(rng.randint(0, 1))
    event = asyncio.Event()
    run.hold = ('backend', event)
    end = rng.choice(['answer', 'close', 'fail', 'close', 'fail'])
    n = rng.choice([300, 1000, 1500])
    create = asyncio.ensure_future(run.create_engine(backend))
    engine = await net.finished(ctx, create, 'creation of engine')
    try:
        tasks = [asyncio.ensure_future(engine.register(
            common.Source(common.SourceType.EVENTER, i),
            [common.RegisterEvent(('crowd', str(i)), None, None)]))
            for i in range(n)]
        for _ in range(20):
            await asyncio.sleep(0)
        if end == 'fail':
            backend.fail_at = rng.choice([1, 5, 100])
        if end == 'close':
            engine.close()
            await asyncio.sleep(0)
        run.hold = None
        event.set()
        done, pending = await asyncio.wait(tasks, timeout=30)
        ctx.check(not pending, 'registrations did not complete in 30 s',
                  {'pending': len(pending), 'of': n, 'end': end})
        answered = 0
        for i, task in enumerate(tasks):
            e = task.exception()
            if e:
                ctx.check(end != 'answer', f'registration failed: {e!r}')
                continue
            answered += 1
            if task.result() is None:
                continue
            ctx.check([j.type for j in task.result()] == [('crowd', str(i))],
                      'registration got events of another one',
                      (i, task.result()))
        order = [int(s[0].type[1]) for s in run.sessions
                 if s[0].type[0] == 'crowd']
        ctx.equal(order, list(range(len(order))),
                  'requests were not processed in order')
        ctx.count('crowds')
        ctx.count('crowd_refused', n - answered)
        ctx.done(('crowd', n, end, answered), ('crowd of', n, end,
                                               'answered', answered))
        await net.finished(ctx, engine.async_close(), 'closing of engine')
    finally:
        event.set()
        await engine.async_close()
        run.close()
