"""Recording storage, created by the event server from its configuration."""

from hat import aio
from hat.event import common

SERVERS = {}


class Backend(common.Backend):

    def __init__(self, server, inner):
        self.server = server
        self.inner = inner

    @property
    def async_group(self):
        return self.inner.async_group

    async def get_last_event_id(self, server_id):
        return await self.inner.get_last_event_id(server_id)

    async def register(self, events):
        events = list(events)
        self.server.on_register(events)
        if (getattr(self.server, 'slow_following', None) and
                events[0].id.server != self.server.id):
            await self.server.slow_following.wait()
        return await self.inner.register(events)

    async def query(self, params):
        return await self.inner.query(params)

    async def flush(self):
        if getattr(self.server, 'slow_flush', None):
            await self.server.slow_flush.wait()
        await self.inner.flush()


async def create(conf, registered_cb, flushed_cb):
    server = SERVERS[conf['key']]

    async def registered(events):
        server.on_registered(events)
        await aio.call(registered_cb, events)

    async def flushed(events):
        server.on_flushed(events)
        await aio.call(flushed_cb, events)

    inner_conf = conf['inner']
    info = common.import_backend_info(inner_conf['module'])
    inner = await aio.call(info.create, inner_conf, registered, flushed)
    server.backend = Backend(server, inner)
    return server.backend


info = common.BackendInfo(create)
