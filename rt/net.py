"""Loopback networking: addresses, faulty TCP proxy and raw peers."""

import asyncio
import contextlib
import itertools
import os
import socket
import struct

from hat.drivers import chatter
from hat.drivers import tcp

_counter = itertools.count()


def own_host():
    """Loopback address of this process"""
    pid = os.getpid()
    return f'127.{1 + pid // 62500 % 250}.{1 + pid // 250 % 250}.' \
           f'{1 + pid % 250}'


def free_port(host='127.0.0.1'):
    """Port below ephemeral range, different in each worker process"""
    base = 10000 + (os.getpid() % 40) * 500
    while True:
        port = base + next(_counter) % 500
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((host, port))
            return port
        except OSError:
            continue
        finally:
            s.close()


def free_addr(host=None):
    if host is None:
        host = own_host()
    return tcp.Address(host, free_port(host))


async def until(ctx, fn, what, timeout=30, witness=None):
    """Wait for condition that has to come true"""
    loop = asyncio.get_running_loop()
    deadline = loop.time() + timeout
    delay = 0
    while not fn():
        if loop.time() > deadline:
            ctx.violation(f'{what} did not happen in {timeout} s',
                          witness() if witness else None)
        await asyncio.sleep(delay)
        delay = min(0.02, delay + 0.0005)


async def finished(ctx, aw, what, timeout=30, witness=None):
    """Result of something that has to finish"""
    task = asyncio.ensure_future(aw)
    done, _ = await asyncio.wait([task], timeout=timeout)
    if not done:
        stack = [str(f) for t in asyncio.all_tasks() for f in t.get_stack()]
        task.cancel()
        ctx.violation(f'{what} did not finish in {timeout} s',
                      {'stack': stack,
                       'witness': witness() if witness else None})
    return task.result()


class Proxy:
    """TCP proxy which splits, delays and cuts"""

    def __init__(self, target, rng=None):
        self.target = target
        self.rng = rng
        self.split = 0.0       # probability of splitting data
        self.delay = 0.0       # maximal delay
        self.limits = {}       # direction to number of bytes before cut
        self.links = set()
        self.bytes = {'up': 0, 'down': 0}
        self.cuts = 0
        self.refuse = False
        self.on_cut = None
        self.frozen = asyncio.Event()
        self.frozen.set()
        self.tasks = set()

    async def open(self, host=None):
        self.addr = free_addr(host)
        self.server = await asyncio.start_server(
            self._on_connection, self.addr.host, self.addr.port)
        return self

    async def close(self):
        self.server.close()
        self.cut()
        for i in list(self.tasks):
            i.cancel()
        if self.tasks:
            await asyncio.wait(list(self.tasks))

    def cut(self, reset=False):
        """Cut all connections"""
        for link in list(self.links):
            self._cut(link, reset)

    def _cut(self, link, reset=False):
        if link not in self.links:
            return
        self.links.discard(link)
        self.cuts += 1
        if self.on_cut:
            self.on_cut()
        for w in link:
            if reset:
                with contextlib.suppress(Exception):
                    w.get_extra_info('socket').setsockopt(
                        socket.SOL_SOCKET, socket.SO_LINGER,
                        struct.pack('ii', 1, 0))
                w.transport.abort()
            else:
                with contextlib.suppress(Exception):
                    w.close()

    async def _on_connection(self, reader, writer):
        self.tasks.add(asyncio.current_task())
        try:
            await self._relay(reader, writer)
        finally:
            self.tasks.discard(asyncio.current_task())

    async def _relay(self, reader, writer):
        if self.refuse:
            writer.transport.abort()
            return
        try:
            r, w = await asyncio.open_connection(self.target.host,
                                                 self.target.port)
        except OSError:
            writer.transport.abort()
            return
        link = (writer, w)
        self.links.add(link)
        a = asyncio.ensure_future(self._pump('up', reader, w, link))
        b = asyncio.ensure_future(self._pump('down', r, writer, link))
        try:
            await asyncio.wait([a, b])
        finally:
            a.cancel()
            b.cancel()
            if link in self.links:
                self.links.discard(link)
            for i in link:
                with contextlib.suppress(Exception):
                    i.close()

    async def _pump(self, direction, reader, writer, link):
        try:
            while True:
                data = await reader.read(65536)
                if not data:
                    break
                while data:
                    await self.frozen.wait()
                    n = len(data)
                    if self.rng and self.rng.random() < self.split:
                        n = self.rng.randint(1, n)
                    part, data = data[:n], data[n:]
                    limit = self.limits.get(direction)
                    if limit is not None:
                        if len(part) >= limit:
                            writer.write(part[:limit])
                            del self.limits[direction]
                            with contextlib.suppress(Exception):
                                await writer.drain()
                            self._cut(link, bool(self.rng and
                                                 self.rng.random() < 0.5))
                            return
                        self.limits[direction] = limit - len(part)
                    if self.delay and self.rng.random() < 0.3:
                        await asyncio.sleep(self.rng.random() * self.delay)
                    self.bytes[direction] += len(part)
                    writer.write(part)
                    await writer.drain()
        except (ConnectionError, OSError):
            pass
        finally:
            with contextlib.suppress(Exception):
                writer.close()


class RawPeer:
    """Chatter peer which sends what it likes"""

    @classmethod
    async def open(cls, addr):
        self = cls()
        self.conn = await chatter.connect(addr)
        return self

    async def send(self, msg_type, data, **kwargs):
        from hat.event import common
        return await self.send_bytes(
            msg_type, common.sbs_repo.encode(msg_type, data), **kwargs)

    async def send_bytes(self, msg_type, data, **kwargs):
        return await self.conn.send(chatter.Data(msg_type, data), **kwargs)

    async def receive(self):
        from hat.event import common
        msg = await self.conn.receive()
        return msg, msg.data.type, common.sbs_repo.decode(msg.data.type,
                                                          msg.data.data)

    async def init(self, name='raw', token=None, subscriptions=[],
                   server_id=None, persisted=False):
        conv = await self.send('HatEventer.MsgInitReq', {
            'clientName': name,
            'clientToken': (('none', None) if token is None
                            else ('value', token)),
            'subscriptions': [list(i) for i in subscriptions],
            'serverId': (('none', None) if server_id is None
                         else ('value', server_id)),
            'persisted': persisted}, last=False)
        msg, msg_type, data = await self.receive()
        return conv, msg, msg_type, data

    async def close(self):
        await self.conn.async_close()
