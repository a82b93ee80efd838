"""Module which can't be created"""

from hat.event import common


async def create(conf, engine, source):
    raise Exception('module can not be created')


info = common.ModuleInfo(create)
