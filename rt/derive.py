"""Server module which derives events (imported by real server processes)."""

import asyncio

from hat import aio
from hat.event import common


class Module(common.Module):
    """For each event of prefix, event of other prefix is registered"""

    def __init__(self, conf, engine, source):
        self._conf = conf
        self._engine = engine
        self._source = source
        self._group = aio.Group()
        self._subscription = common.create_subscription(
            [(conf['from'], '*')])
        if conf.get('closing'):
            self._group.spawn(aio.call_on_cancel, asyncio.sleep,
                              conf['closing'])

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return self._subscription

    async def process(self, source, event):
        return [common.RegisterEvent(
            type=(self._conf['to'], *event.type[1:]),
            source_timestamp=event.source_timestamp,
            payload=event.payload)]


async def create(conf, engine, source):
    return Module(conf, engine, source)


info = common.ModuleInfo(create)
