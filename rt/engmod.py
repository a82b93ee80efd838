"""Instrumented event server module (imported by the engine)."""

from hat import aio
from hat.event import common

SPECS = {}


class Module(common.Module):

    def __init__(self, spec, engine, source):
        self.spec = spec
        self.engine = engine
        self.source = source
        self._group = aio.Group(log_exceptions=False)
        self._subscription = common.create_subscription(spec.subscriptions)
        if spec.sync:
            self.on_session_start = self._sync_start
            self.on_session_stop = self._sync_stop
            self.process = self._sync_process

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return self._subscription

    async def on_session_start(self, session_id):
        await self.spec.call(self, 'start', session_id)

    async def on_session_stop(self, session_id):
        await self.spec.call(self, 'stop', session_id)

    async def process(self, source, event):
        return await self.spec.call(self, 'process', (source, event))

    def _sync_start(self, session_id):
        self.spec.sync_call(self, 'start', session_id)

    def _sync_stop(self, session_id):
        self.spec.sync_call(self, 'stop', session_id)

    def _sync_process(self, source, event):
        return self.spec.sync_call(self, 'process', (source, event))


async def create(conf, engine, source):
    spec = SPECS[conf['key']]
    module = Module(spec, engine, source)
    await spec.created(module)
    return module


info = common.ModuleInfo(create)
