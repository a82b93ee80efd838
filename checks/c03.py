"""C03: answers of engine registrations."""

import asyncio

from hat.event import common

from rt import aiorun
from rt import engines
from rt import net

LEVEL = 'exploration'
RULE = ('a real engine with instrumented modules gets concurrent '
        'registrations, some of which are cancelled, through queues of '
        'various sizes, while the storage refuses or fails, a module fails '
        'in any of its calls or during creation, or the engine is closed at '
        'any time; several engines may follow each other. The outcome of '
        'every registration is compared with what was given to the storage. '
        'An evaluation is one registration, distinct by its outcome and '
        'circumstances')
TIERS = {'quick': {'cases': 3600, 'time': 45},
         'thorough': {'cases': 50000, 'time': 400}}
REQUIRE = {'outcome_events': 3000, 'outcome_refused': 200,
           'outcome_error': 2000, 'outcome_cancelled': 500,
           'outcome_empty': 100, 'failed_backend': 50, 'failed_process': 30,
           'failed_start': 20, 'failed_stop': 20, 'failed_create': 30,
           'closed_under_load': 200, 'blocked_by_queue': 200,
           'after_close': 200, 'engines': 1000, 'long': 4,
           'ending_modules': 50, 'ending_engines': 20,
           'crowds': 20, 'large': 10}


async def case(ctx):
    rng = ctx.rng
    run = engines.Run(ctx)
    run.max_fuel = rng.choice([0, 0, 1])
    backend = engines.Backend(run)
    fifo = True
    try:
        for generation in range(rng.randint(1, 2)):
            fifo = await one(ctx, run, backend) and fifo
    finally:
        run.close()
    engines.judge_bounds(run)
    engines.judge_answers(run, fifo)


async def one(ctx, run, backend):
    rng = ctx.rng
    backend.slow = rng.choice([0, 0, 0.002])
    backend.refuse = rng.choice([0, 0, 0.1, 0.5])
    run.failing = False
    queue_size = rng.choice([1, 1, 2, 5, 1024, 1024])
    n = len(run.sessions)
    backend.fail_at = (n + rng.randint(1, 10) if rng.random() < 0.2
                       else None)
    run.close()
    specs = run.add_specs(rng.randint(0, 3))
    for spec in specs:
        spec.own = rng.choice([0, 0, 3])
    if specs and rng.random() < 0.3:
        spec = rng.choice(specs)
        spec.fail = (rng.choice(['create', 'start', 'process', 'stop']),
                     rng.randint(0, 8))
        ctx.log('failing module', spec.index, spec.fail)
    ending = None
    if specs and rng.random() < 0.15:
        # its closing takes long
        ending = rng.choice(specs)
        ending.ending = asyncio.Event()
        asyncio.get_running_loop().call_later(0.3, ending.ending.set)
    ctx.log('queue', queue_size, 'slow', backend.slow, 'refuse',
            backend.refuse, 'fail at', backend.fail_at)

    # a module which does not close with the engine keeps registering
    early = []
    if specs and rng.random() < 0.5:
        spec = rng.choice(specs)
        created = spec.created

        async def register_in_create(module):
            source = common.Source(common.SourceType.MODULE, spec.index)
            for _ in range(rng.randint(1, 3)):
                early.append(run.register(module.engine, source))
            await created(module)

        spec.created = register_in_create

    try:
        engine = await net.finished(
            ctx, run.create_engine(backend, None, queue_size),
            'creation of engine')
    except engines.InjectedError:
        ctx.check(any(s.fail and s.fail[0] == 'create' for s in specs),
                  'engine was not created')
        ctx.count('engines_not_created')
        for m in run.modules:
            ctx.check(not m.is_open, 'module of engine which was not created '
                      'is left open')
        await run.settle()
        return queue_size == 1024

    async def registrant(index):
        source = common.Source(rng.choice(list(common.SourceType)), index)
        for _ in range(rng.randint(1, 8)):
            await aiorun.pause(rng)
            events = [] if rng.random() < 0.03 else None
            r = run.register(engine, source, events)
            if not engine.is_open:
                ctx.count('after_close')
            if rng.random() < 0.12:
                await aiorun.pause(rng)
                if not r.task.done():
                    r.cancelled = True
                    r.task.cancel()
                    ctx.log('cancel', r.index)
            elif rng.random() < 0.3:
                await asyncio.wait([r.task], timeout=0.01)
            if 0 < queue_size < 1024 and not r.task.done() and sum(
                    not i.task.done() for i in run.requests) > queue_size + 1:
                ctx.count('blocked_by_queue')

    work = asyncio.gather(*(registrant(i)
                            for i in range(rng.randint(1, 5))))
    if rng.random() < 0.4:
        await asyncio.sleep(rng.random() * rng.choice([0, 0.002, 0.02]))
        ctx.log('close')
        if any(not r.task.done() for r in run.requests):
            ctx.count('closed_under_load')
        engine.close()
    await net.finished(ctx, work, 'registering')
    if rng.random() < 0.03:
        await run.take_long(engine)
    if engine.is_open and rng.random() < 0.8:
        # all are answered without closing
        await run.settle()
    if not run.failing and rng.random() < 0.3:
        await asyncio.sleep(0)
    if ending:
        await end_with_module(ctx, run, engine, ending)
    ctx.log('final close')
    await net.finished(ctx, engine.async_close(), 'closing of engine',
                       witness=lambda: {'trace': list(ctx.trace)[-20:]})
    for m in run.modules:
        ctx.check(m.is_closed, 'module of closed engine is left open')
    if rng.random() < 0.5:
        run.register(engine, common.Source(common.SourceType.EVENTER, 99))
        ctx.count('after_close')
    await run.settle()
    engines.judge_sessions(run)
    return queue_size == 1024


async def end_with_module(ctx, run, engine, spec):
    """Module, whose closing takes long, closes before or after engine"""
    rng = ctx.rng
    module = next(m for m in reversed(run.modules) if m.spec is spec)
    if spec.ending.is_set():
        return
    if engine.is_open and module.is_open and rng.random() < 0.7:
        ctx.log('close module', spec.index)
        module.close()
        for _ in range(50):
            if not engine.is_open:
                break
            await asyncio.sleep(0)
        if not spec.ending.is_set():
            ctx.check(not engine.is_open,
                      'engine is open while one of its modules is closing')
            ctx.count('ending_modules')
            run.register(engine, common.Source(common.SourceType.EVENTER, 98))
    else:
        engine.close()
    for _ in range(rng.choice([0, 10, 50])):
        await asyncio.sleep(0)
    if not spec.ending.is_set():
        ctx.check(not module.is_closed and not engine.is_closed,
                  'engine is closed before its module')
        ctx.count('ending_engines')
        spec.ending.set()


def run_case(ctx):
    aiorun.run(ctx, engines.crowd if ctx.case % 80 == 11 else
               engines.large if ctx.case % 160 == 13 else case)
