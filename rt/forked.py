"""Running of commands in forked processes (their modules already loaded)."""

import asyncio
import os
import resource
import signal
import sys
import time


def start(fn, argv, *, stdout=None, stdin=None, limit=None, timeout=120):
    """Start command function in a process of its own, returns its id"""
    pid = os.fork()
    if pid:
        return pid
    code = 99
    try:
        signal.set_wakeup_fd(-1)
        for i in (signal.SIGALRM, signal.SIGINT, signal.SIGTERM):
            signal.signal(i, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.alarm(timeout)
        # nothing is shared with the worker
        os.closerange(3, 4096)
        null = os.open('/dev/null', os.O_RDWR)
        out = (os.open(str(stdout), os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                       0o600)
               if stdout else null)
        inp = os.open(str(stdin), os.O_RDONLY) if stdin else null
        os.dup2(inp, 0)
        os.dup2(out, 1)
        os.dup2(null, 2)
        sys.stdin = open(0, 'r', encoding='utf-8', closefd=False)
        sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
        sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
        if limit is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        sys.argv = [str(i) for i in argv]
        try:
            code = fn() or 0
        except SystemExit as e:
            code = e.code or 0
            if not isinstance(code, int):
                code = 1
        sys.stdout.flush()
    except BaseException:
        code = 1
        try:
            sys.stdout.flush()
        except BaseException:
            pass
    finally:
        os._exit(code)


def run(fn, argv, *, kill_after=None, kill_when=None, **kwargs):
    """Run command function in a process of its own

    Returns exit code (negative if process was killed), duration is
    remembered in `last_duration`.
    """
    global last_duration
    started = time.monotonic()
    pid = start(fn, argv, **kwargs)
    if kill_after is not None:
        time.sleep(kill_after)
        os.kill(pid, signal.SIGKILL)
    if kill_when is not None:
        # as soon as it happens
        while not kill_when():
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                last_duration = time.monotonic() - started
                return os.waitstatus_to_exitcode(status)
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    last_duration = time.monotonic() - started
    return os.waitstatus_to_exitcode(status)


async def wait(pid):
    """Exit code of started process"""
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.waitstatus_to_exitcode(status)
        await asyncio.sleep(0.002)


last_duration = 0.05
