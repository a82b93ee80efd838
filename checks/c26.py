"""C26: native extensions."""

import fcntl
import json
import os
import pathlib
import subprocess
import sys
import sysconfig

LEVEL = 'exploration'
RULE = ('native extensions are built with address and undefined behaviour '
        'sanitizers (and a stand-in for the hash table library which is not '
        'available here) and driven in processes of their own by random '
        'operations compared with the reference rules, operations whose '
        'memory allocations fail one after another, misuse of every '
        'function, values and iterators with code of their own and types of '
        'great depth; living allocations, values and strings are counted '
        'after each scenario. An evaluation is one call compared with '
        'the reference or checked for its refusal, distinct ones by '
        'arguments of the query')
ASSUMPTIONS = ['hash table and allocator of hat-util (fetched by the real '
               'build) are replaced by a simple implementation of the same '
               'interface which copies keys',
               'reference cycles going through stored values are not '
               'considered leaks']
TIERS = {'quick': {'cases': 64, 'time': 75},
         'thorough': {'cases': 3000, 'time': 500}}
REQUIRE = {'scenarios': 1600, 'subscriptions': 2200, 'matches_True': 900,
           'matches_False': 1500, 'isdisjoint_True': 500,
           'isdisjoint_False': 600, 'query_types': 800, 'refused': 80,
           'wrappers': 700, 'added': 3000, 'removed': 1500, 'got': 3000,
           'got_values': 1500, 'collections_got': 1600, 'misuses': 2000,
           'failed_allocations': 2500, 'operations_without_memory': 500,
           'deep': 16, 'leak_checks': 1600}

modes = ['model', 'tree', 'collections', 'nomemory', 'misuse', 'model',
         'tree', 'deep']
counts = {'model': 130, 'tree': 95, 'collections': 95, 'nomemory': 36,
          'misuse': 75, 'deep': 7}
queries = ['subscriptions', 'matches_True', 'matches_False',
           'isdisjoint_True', 'isdisjoint_False', 'query_types', 'got',
           'added', 'removed', 'misuses', 'failed_allocations']

sources = {'_csubscription': 'src_c/py/subscription/_csubscription.c',
           '_ctree': 'src_c/py/collection/_ctree.c'}


def sanitizer(name):
    return subprocess.run(['gcc', f'-print-file-name={name}'],
                          capture_output=True, text=True).stdout.strip()


def setup_worker(spec):
    """Extensions built once for all workers"""
    scratch = pathlib.Path(os.environ['VERIF_SCRATCH'])
    src = pathlib.Path(os.environ['VERIF_SRC'])
    native = pathlib.Path(__file__).resolve().parent.parent / 'native'
    target = scratch / 'native'
    with open(scratch / 'native.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if target.exists():
            return
        tmp = scratch / 'native.tmp'
        tmp.mkdir(exist_ok=True)
        for name, path in sources.items():
            extra = [str(i) for i in (src / path).parent.glob('*.c')
                     if i != src / path]
            p = subprocess.run(
                ['gcc', '-shared', '-fPIC', '-O1', '-g', '-w',
                 '-fsanitize=address,undefined',
                 '-fno-sanitize-recover=undefined',
                 '-fno-omit-frame-pointer',
                 f'-I{sysconfig.get_paths()["include"]}', f'-I{native}',
                 f'-I{(src / path).parent}',
                 '-include', str(native / 'prelude.h'), str(src / path),
                 *extra, str(native / 'ht.c'), '-o', str(tmp / f'{name}.so')],
                capture_output=True, text=True)
            if p.returncode:
                raise Exception(f'building of {name} failed\n{p.stderr}')
        tmp.rename(target)


def run_case(ctx):
    scratch = pathlib.Path(os.environ['VERIF_SCRATCH'])
    folder = ctx.folder('c26')
    index = ctx.case // 8 % len(modes)
    mode = modes[index]
    n = counts[mode]
    trace = folder / 'trace'
    out = folder / 'out'
    env = {**os.environ,
           'LD_PRELOAD': f'{sanitizer("libasan.so")} '
                         f'{sanitizer("libubsan.so")}',
           'PYTHONMALLOC': 'malloc',
           'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:'
                           'allocator_may_return_null=1:'
                           'detect_stack_use_after_return=0' +
                           # addresses of released objects are used again
                           (':quarantine_size_mb=0:'
                            'thread_local_quarantine_size_kb=0'
                            if index == 6 else ''),
           'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1:exitcode=77'}
    ctx.log('mode', mode, 'scenarios', n)
    p = subprocess.run(
        [sys.executable, '-m', 'rt.native_child', str(scratch / 'native'),
         str(ctx.seed), str(ctx.case), mode, str(n), str(trace), str(out)],
        env=env, capture_output=True, stdin=subprocess.DEVNULL, timeout=85)
    ctx.count('processes')
    lines = (trace.read_text('utf-8', 'replace').split('\n')
             if trace.exists() else [])
    for i in lines[-60:]:
        ctx.log(i)
    err = p.stderr.decode(errors='replace')
    if p.returncode or not out.exists():
        if not lines:
            raise Exception(f'process was not started\n{err[-3000:]}')
        sanitized = 'Sanitizer' in err or 'runtime error' in err
        if not (sanitized or p.returncode < 0 or 'Fatal Python' in err):
            raise Exception(f'harness failed ({p.returncode})\n{err[-4000:]}')
        ctx.violation('native code crashed' if not sanitized
                      else 'sanitizer report', {
                          'exit code': p.returncode, 'report': err[max(0, err.find('ERROR:') - 100):][:6000],
                          'last operations': lines[-20:]})
    result = json.loads(out.read_text())
    for k, v in result['counters'].items():
        if k == 'deepest':
            ctx.maximum(k, v)
        else:
            ctx.count(k, v)
    if result['violation']:
        message, witness = result['violation']
        ctx.violation(message, {'what': witness,
                                'last operations': lines[-20:]})
    ctx.done(None, n=sum(result['counters'].get(i, 0) for i in queries))
    for i in result['signatures']:
        ctx.done((mode, i), n=0)
    for i in result['samples']:
        ctx.done(None, (mode, i), n=0)
