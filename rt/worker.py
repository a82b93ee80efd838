"""Worker process: runs cases of one check and records what was observed."""

import faulthandler
import importlib
import json
import logging
import os
import pathlib
import resource
import sys
import threading
import time
import traceback

from rt import core


def main():
    spec = json.loads(pathlib.Path(sys.argv[1]).read_text())
    out = open(spec['out'], 'a', buffering=1)
    scratch = pathlib.Path(os.environ['VERIF_SCRATCH'])
    src = str(pathlib.Path(os.environ['VERIF_SRC']))
    raw = str(pathlib.Path(__file__).parent / 'rawdb.py')

    logging.getLogger().addHandler(logging.NullHandler())
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 65536), hard))

    import hat.event.common
    if not hat.event.common.__file__.startswith(src):
        raise Exception(f'hat.event imported from '
                        f'{hat.event.common.__file__}')

    describe_closed_connections()

    mod = importlib.import_module(spec['module'])
    state = {'case': None, 'start': 0}

    def emit(rec):
        out.write(json.dumps(core.jsonable(rec)) + '\n')
        out.flush()

    def watchdog():
        while True:
            time.sleep(1)
            case, start, ctx = (state['case'], state['start'],
                                state.get('ctx'))
            if case is None or state['case'] != case:
                continue
            if time.monotonic() - start < spec['case_timeout']:
                continue
            stacks = {}
            for tid, frame in sys._current_frames().items():
                stacks[str(tid)] = traceback.format_stack(frame)[-12:]
            code_frames = any(src in line for lines in stacks.values()
                              for line in lines)
            tasks = []
            try:
                loop = state.get('loop')
                import asyncio
                for t in asyncio.all_tasks(loop):
                    tasks.append(core.short(t, 500))
            except Exception:
                pass
            # a case that takes seconds did not finish in its (generous)
            # time limit
            emit({'kind': 'violation', 'case': case,
                  'message': f'no progress: case still running after '
                             f'{spec["case_timeout"]} s '
                             f'(inside the monitored code: {code_frames})',
                  'witness': {'stacks': stacks, 'tasks': tasks[:50]},
                  'trace': list(ctx.trace) if ctx else []})
            os._exit(0)

    threading.Thread(target=watchdog, daemon=True).start()

    deadline = time.monotonic() + spec['time']
    try:
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker(spec)

        for case in spec['cases']:
            if time.monotonic() > deadline:
                break

            ctx = core.Ctx(spec['id'], spec['seed'], spec['tier'], case,
                           scratch / f'case.{spec["worker"]}.{case}')
            ctx.state = state
            state.update(case=case, start=time.monotonic(), ctx=ctx)
            stop = False
            try:
                try:
                    mod.run_case(ctx)
                except BaseException:
                    if ctx.first_violation:
                        raise ctx.first_violation
                    raise
                if ctx.first_violation:
                    raise ctx.first_violation
            except core.Violation as e:
                emit({'kind': 'violation', 'case': case,
                      'message': e.message, 'witness': e.witness,
                      'key': e.key, 'trace': getattr(e, 'trace',
                                                     list(ctx.trace))})
                stop = e.key is None
            except core.Inconclusive as e:
                emit({'kind': 'inconclusive', 'case': case,
                      'message': str(e)})
            except Exception as e:
                frames = traceback.extract_tb(e.__traceback__)
                # or made a database which can't be read
                kind = ('violation' if any(f.filename.startswith(src) or
                                           f.filename == raw
                                           for f in frames) else 'error')
                emit({'kind': kind, 'case': case,
                      'message': f'unexpected exception '
                                 f'{type(e).__name__}: {e}',
                      'witness': traceback.format_exc(),
                      'trace': list(ctx.trace)})
                if kind == 'error':
                    emit({'kind': 'error', 'case': case,
                          'message': traceback.format_exc()})
                stop = True
            state['case'] = None
            emit({'kind': 'case', 'case': case,
                  'took': round(time.monotonic() - state['start'], 3),
                  'evaluations': ctx.evaluations,
                  'counters': dict(ctx.counters), 'maxima': ctx.maxima,
                  'signatures': sorted(ctx.signatures),
                  'samples': ctx.samples})
            ctx.cleanup()
            if stop:
                break
    finally:
        state['case'] = None
        if hasattr(mod, 'close_worker'):
            mod.close_worker(spec)
    out.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def describe_closed_connections():
    """hat-drivers raises TypeError if connection closes while it is opened

    Error of connection is raised instead, as it is by any other timing.
    """
    from hat.drivers import net
    fn = net.connection_info_to_json

    def wrapper(info):
        try:
            return fn(info)
        except TypeError as e:
            raise ConnectionError() from e

    net.connection_info_to_json = wrapper


if __name__ == '__main__':
    faulthandler.enable()
    main()
