"""Storage with a schema of its own (imported by real server processes)"""

from hat import json
from hat.event.backends import memory
from hat.event import common


def create(conf, registered_cb, flushed_cb):
    with open(conf['path'], 'a') as f:
        f.write('created\n')
    return memory.MemoryBackend(conf, registered_cb, flushed_cb)


repo = json.create_schema_repository({
    '$schema': 'https://json-schema.org/draft/2020-12/schema',
    '$id': 'verif://strictbackend.yaml',
    'type': 'object',
    'required': ['path'],
    'properties': {'path': {'type': 'string'},
                   'level': {'enum': [1, 2]}}})


info = common.BackendInfo(create, 'verif://strictbackend.yaml', repo)
