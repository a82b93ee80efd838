"""Running of asyncio cases."""

import asyncio
import time


def run(ctx, fn):
    """Run coroutine function of a case in a new event loop"""

    async def main():
        loop = asyncio.get_running_loop()
        ctx.state['loop'] = loop
        loop.set_exception_handler(
            lambda _, c: ctx.count('loop_exceptions'))
        task = asyncio.ensure_future(fn(ctx))
        # case does not have to last any longer
        ctx.on_violation = lambda: loop.call_soon_threadsafe(
            loop.call_later, 2, task.cancel)
        return await task

    try:
        return asyncio.run(main())
    finally:
        ctx.on_violation = None
        ctx.state['loop'] = None


async def pause(rng, n=3):
    """Give other tasks a random chance"""
    k = rng.random()
    if k < 0.6:
        for _ in range(rng.randint(0, n)):
            await asyncio.sleep(0)
    elif k < 0.9:
        await asyncio.sleep(rng.random() * 0.002)
    else:
        await asyncio.sleep(rng.random() * 0.01)


async def warp(seconds, step=15, gap=0.03):
    """Let time of the event loop pass quickly

    Steps are shorter than the time peers are given to answer a ping, and in
    each gap everything that became due gets its chance.
    """
    loop = asyncio.get_running_loop()
    clock = type(loop).time
    while seconds > 0:
        offset = getattr(loop, 'warped', 0) + min(step, seconds)
        seconds -= step
        loop.warped = offset
        loop.time = lambda: clock(loop) + offset
        await asyncio.sleep(0)
        # gap in real time
        await loop.run_in_executor(None, time.sleep, gap)
