"""Monitor played by the harness.

Replaces the network client of the monitor; everything else of monitor
components (blessing, readiness, runner) is real code.
"""

from hat import aio
from hat.monitor.common import BlessingReq, BlessingRes
import hat.monitor.observer.client

from rt import aiorun

State = hat.monitor.observer.client.State


class FakeClient(aio.Resource):
    """Monitor client of an observed component"""

    def __init__(self, owner, name, group, data, state_cb, close_req_cb,
                 changed):
        self.owner = owner          # has ctx and name
        self.name = name
        self.group = group
        self.data = data
        self.state_cb = state_cb
        self.close_req_cb = close_req_cb
        self.changed = changed      # called when component answers
        self.state = State(None, [])
        self.res = BlessingRes(None, False)
        self.req = BlessingReq(None, None)
        self._group = aio.Group()
        self.queue = aio.Queue()
        self.readiness = [False]
        self.on_delivered = lambda state: None
        self.async_group.spawn(self._loop)

    @property
    def async_group(self):
        return self._group

    async def set_blessing_res(self, res):
        if not self.is_open:
            raise ConnectionError()
        if res == self.res:
            return
        if res.ready != self.res.ready:
            self.readiness.append(res.ready)
        self.res = res
        self.owner.ctx.log(self.owner.name, 'blessing res', res)
        self.changed()

    async def _loop(self):
        try:
            while True:
                state = await self.queue.get()
                await aiorun.pause(self.owner.ctx.rng)
                while state != 'close' and not self.queue.empty():
                    state = self.queue.get_nowait()
                if state == 'close':
                    if self.close_req_cb:
                        await aio.call(self.close_req_cb, self)
                    break
                if state == self.state:
                    continue
                self.state = state
                self.on_delivered(state)
                await aio.call(self.state_cb, self, state)
        finally:
            self.close()
