"""Server module with a schema of its own (imported by real server processes)

For each event of one prefix, event of the other one is registered. Creation
of module leaves a mark.
"""

import pathlib

from hat import aio
from hat import json
from hat.event import common


class Module(common.Module):

    def __init__(self, conf):
        self._conf = conf
        self._group = aio.Group()
        self._subscription = common.create_subscription(
            [(conf['from'], '*')])

    @property
    def async_group(self):
        return self._group

    @property
    def subscription(self):
        return self._subscription

    async def process(self, source, event):
        if event.type and event.type[0] == 'event':
            return
        return [common.RegisterEvent(
            type=(to, *event.type[1:]),
            source_timestamp=event.source_timestamp,
            payload=event.payload) for to in self._conf['to']]


async def create(conf, engine, source):
    with open(conf['mark'], 'a') as f:
        f.write(f"{conf['from']} {source.id}\n")
    return Module(conf)


repo = json.create_schema_repository({
    '$schema': 'https://json-schema.org/draft/2020-12/schema',
    '$id': 'verif://strict.yaml',
    'type': 'object',
    'required': ['module', 'from', 'to', 'mark'],
    'properties': {
        'from': {'type': 'string', 'minLength': 1},
        'to': {'type': 'array', 'items': {'type': 'string'}},
        'mark': {'$ref': 'verif://strict.yaml#/$defs/mark'},
        'level': {'enum': [1, 2]}},
    '$defs': {'mark': {'type': 'string', 'pattern': 'mark$'}}})


info = common.ModuleInfo(create, 'verif://strict.yaml', repo)
