"""Measuring of resources held by the process."""

import asyncio
import collections
import gc
import heapq
import json
import os
import sys
import threading

from hat import aio

# types of objects which are counted one by one
MODULES = ('hat.', 'asyncio', '_asyncio', 'concurrent', 'lmdb', 'builtins',
           '_io', 'socket', '_thread')
BUILTINS = {'coroutine', 'generator', 'async_generator', 'frame',
            'Environment', 'Transaction', 'Cursor', '_Database'}


def fds():
    kinds = collections.Counter()
    for i in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink(f'/proc/self/fd/{i}')
        except OSError:
            continue
        kind = target.split(':')[0] if ':' in target else 'file'
        kinds[f'fd {kind}'] += 1
    return kinds


def measure():
    """Resources held now, by kind"""
    loop = asyncio.get_running_loop()
    # cancelled timers stay in the loop for a while
    for timer in loop._scheduled:
        if timer._cancelled:
            timer._scheduled = False
    loop._scheduled = [i for i in loop._scheduled if not i._cancelled]
    heapq.heapify(loop._scheduled)
    loop._timer_cancelled_count = 0
    for _ in range(2):
        gc.collect()
    result = collections.Counter(fds())
    result['tasks'] = len(asyncio.all_tasks())
    result['threads'] = threading.active_count()
    for i in gc.get_objects():
        t = type(i)
        # issubclass would remember the type
        if aio.Resource in t.__mro__:
            result[f'resource {t.__qualname__}'] += 1
        module = t.__module__
        name = t.__qualname__
        if module == 'builtins':
            if name not in BUILTINS:
                continue
        elif not isinstance(module, str) or not module.startswith(MODULES):
            continue
        result[f'{module}.{name}'] += 1
    i = t = None
    gc.collect()
    result['blocks'] = sys.getallocatedblocks()
    # as little as possible is kept
    return json.dumps(result)


async def quiet(limit, timeout=3):
    """Wait until there are no more tasks then given"""
    loop = asyncio.get_running_loop()
    end = loop.time() + timeout
    await asyncio.sleep(0.005)
    while loop.time() < end:
        if limit is None:
            # tasks stop to change
            n = len(asyncio.all_tasks())
            await asyncio.sleep(0.03)
            if len(asyncio.all_tasks()) == n:
                return
        elif len(asyncio.all_tasks()) <= limit:
            return
        await asyncio.sleep(0.01)


def growth(windows, block_limit):
    """Kinds which grow through all windows of measurements"""
    result = {}
    windows = [[json.loads(m) for m in w] for w in windows]
    kinds = set().union(*(m.keys() for w in windows for m in w))
    for kind in kinds:
        lows = [min(m.get(kind, 0) for m in w) for w in windows]
        limit = block_limit if kind == 'blocks' else len(windows[0]) - 1
        if all(b - a >= limit for a, b in zip(lows, lows[1:])):
            result[kind] = lows
    return result
