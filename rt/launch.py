"""Entry point of every check.

Copies the parts of /repo that are needed for running it into a scratch
folder, generates the schema repositories there (as the project's build does),
runs worker processes against that copy, merges what their monitors saw,
writes the evidence file and decides the exit code:

    0 - the property held on everything observed
    1 - violated (line ``VIOLATION property=<id> replay=<path>``)
    2 - anything else (inconclusive or broken check)
"""

import argparse
import collections
import importlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

root = pathlib.Path(__file__).resolve().parent.parent
repo = pathlib.Path(os.environ.get('VERIF_REPO', '/repo'))
python = '/opt/venv/bin/python'

copied = ['src_py', 'src_c', 'src_doit', 'dodo.py', 'pyproject.toml',
          'schemas_json', 'schemas_sbs']


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('id')
    parser.add_argument('--replay')
    parser.add_argument('--case', type=int)
    parser.add_argument('--cases', type=int)
    parser.add_argument('--keep', action='store_true')
    args = parser.parse_args()

    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'

    only = None
    if args.replay:
        replay = json.loads(pathlib.Path(args.replay).read_text())
        seed, tier, only = replay['seed'], replay['tier'], [replay['case']]
    if args.case is not None:
        only = [args.case]

    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    os.setpgid(0, 0) if os.getpgid(0) != os.getpid() else None

    scratch = pathlib.Path(tempfile.mkdtemp(prefix='verif-'))
    scratch.chmod(0o755)
    try:
        code = run(args, seed, tier, only, scratch)
    finally:
        if not args.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def prepare(scratch):
    """Scratch copy of the repository, built"""
    dst = scratch / 'repo'
    dst.mkdir()
    for name in copied:
        src = repo / name
        if src.is_dir():
            shutil.copytree(src, dst / name, ignore=shutil.ignore_patterns(
                '__pycache__', '*.pyc', '*_repo.json'))
        elif src.exists():
            shutil.copy2(src, dst / name)

    env = {**os.environ, 'PYTHONPATH': str(dst / 'src_py'),
           'PYTHONHASHSEED': '0'}
    p = subprocess.run([python, '-m', 'doit', 'json_schema_repo', 'sbs_repo'],
                       cwd=dst, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode:
        print(p.stdout.decode(errors='replace'))
        raise SystemExit('building of the repository copy failed')
    return dst


def run(args, seed, tier, only, scratch):
    t0 = time.monotonic()
    prop = args.id
    evidence_dir = root / 'evidence'
    replay_dir = evidence_dir / 'replay'
    replay_dir.mkdir(parents=True, exist_ok=True)

    try:
        dst = prepare(scratch)
    except SystemExit as e:
        print(e)
        return 2

    module = f'checks.{prop.lower()}'
    env = {**os.environ,
           'PYTHONPATH': f'{dst / "src_py"}:{root}',
           'VERIF_SEED': str(seed), 'VERIF_TIER': tier,
           'VERIF_SCRATCH': str(scratch), 'VERIF_SRC': str(dst)}

    # static description of the check, read without importing hat
    describe = subprocess.run(
        [python, '-c',
         f'import json, {module} as m; '
         'print(json.dumps({"level": m.LEVEL, "rule": m.RULE, '
         '"tiers": m.TIERS, "assumptions": getattr(m, "ASSUMPTIONS", []), '
         '"require": getattr(m, "REQUIRE", {})}))'],
        env={**env, 'PYTHONHASHSEED': '0'}, cwd=root, capture_output=True,
        stdin=subprocess.DEVNULL)
    if describe.returncode:
        sys.stdout.write(describe.stderr.decode(errors='replace'))
        print(f'{prop}: the check could not be loaded')
        return 2
    desc = json.loads(describe.stdout.decode().strip().split('\n')[-1])
    conf = desc['tiers'][tier]
    if tier == 'quick':
        # number of cases is the limit, except on overloaded machines
        conf['time'] = max(180, conf['time'])

    cases = only if only is not None else list(range(args.cases
                                                     or conf['cases']))
    workers = min(conf.get('workers', 8), len(cases))
    outs = []
    procs = []
    for k in range(workers):
        out = scratch / f'out.{k}.jsonl'
        outs.append(out)
        spec = {'id': prop, 'module': module, 'seed': seed, 'tier': tier,
                'cases': cases[k::workers], 'out': str(out), 'worker': k,
                'time': conf['time'], 'case_timeout':
                conf.get('case_timeout', 90)}
        spec_path = scratch / f'spec.{k}.json'
        spec_path.write_text(json.dumps(spec))
        procs.append(subprocess.Popen(
            [python, '-m', 'rt.worker', str(spec_path)],
            env={**env, 'PYTHONHASHSEED': str(cases[k] % conf.get('workers',
                                                                  8))},
            cwd=scratch, stdin=subprocess.DEVNULL,
            stdout=open(scratch / f'log.{k}', 'wb'),
            stderr=subprocess.STDOUT))

    hard = conf['time'] + conf.get('case_timeout', 90) + 120
    deadline = time.monotonic() + hard
    broken = []
    for k, p in enumerate(procs):
        try:
            code = p.wait(max(1, deadline - time.monotonic()))
            if code:
                broken.append((k, f'exit code {code}'))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            broken.append((k, 'did not finish'))

    # merge
    counters = collections.Counter()
    maxima = {}
    signatures = set()
    samples = []
    violations = []
    inconclusive = []
    errors = []
    evaluations = 0
    for k, out in enumerate(outs):
        if not out.exists():
            continue
        for line in out.read_text().split('\n'):
            if not line:
                continue
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            kind = rec['kind']
            if kind == 'case':
                evaluations += rec['evaluations']
                counters.update(rec['counters'])
                for name, value in rec['maxima'].items():
                    maxima[name] = max(maxima.get(name, value), value)
                signatures.update(rec['signatures'])
                if len(samples) < 4:
                    samples.extend(rec['samples'][:1])
            elif kind == 'violation':
                violations.append(rec)
            elif kind == 'inconclusive':
                inconclusive.append(rec)
            elif kind == 'error':
                errors.append(rec)
    for k, msg in broken:
        log = (scratch / f'log.{k}').read_bytes()[-4000:]
        errors.append({'kind': 'error', 'case': None,
                       'message': f'worker {k}: {msg}\n'
                                  f'{log.decode(errors="replace")}'})

    # known findings
    known = load_known(prop)
    reported = []
    hits = collections.Counter()
    for v in violations:
        key = v.get('key')
        if key is not None and key in known:
            hits[key] += 1
        else:
            reported.append(v)
    for key, what in known.items():
        if hits[key] or only is None:
            print(f'KNOWN-FINDING: property={prop} {what} '
                  f'(key {key}, seen {hits[key]} times in this run)')

    if only is None:
        evidence = {
            'property': prop, 'tier': tier, 'seed': seed,
            'level': desc['level'],
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': len(signatures),
                'rule': desc['rule'],
                'samples': samples or ['none'],
                'observed': dict(sorted(counters.items())),
                'maxima': maxima,
                'known_finding_hits': dict(hits),
                'inconclusive_cases': len(inconclusive),
                'workers': workers},
            'assumptions': desc['assumptions'],
            'wall_s': round(time.monotonic() - t0, 3),
            'violations': len(reported)}
        if desc['level'] == 'other':
            evidence['coverage']['explanation'] = desc['rule']
        (evidence_dir / f'{prop}.json').write_text(
            json.dumps(evidence, indent=1) + '\n')

    for v in reported[:5]:
        path = replay_dir / f'{prop}-{tier}-{seed}-{v["case"]}.json'
        path.write_text(json.dumps({'property': prop, 'seed': seed,
                                    'tier': tier, **v}, indent=1) + '\n')
        print(f'{prop} case {v["case"]}: {v["message"]}')
        print(f'VIOLATION property={prop} replay={path}')

    print(f'{prop} {tier} seed={seed}: {evaluations} evaluations, '
          f'{len(signatures)} distinct non-trivial, {len(violations)} '
          f'violations ({len(reported)} not listed as known), '
          f'{len(inconclusive)} inconclusive, {len(errors)} errors, '
          f'{time.monotonic() - t0:.1f} s')
    print('observed: ' + ', '.join(f'{k}={v}' for k, v in
                                   sorted(counters.items())))
    if reported:
        return 1

    for rec in errors[:3]:
        print(f'{prop} error in case {rec.get("case")}: {rec["message"]}')
    for rec in inconclusive[:3]:
        print(f'{prop} inconclusive case {rec["case"]}: {rec["message"]}')
    if errors:
        return 2
    if only is not None:
        return 0
    if len(inconclusive) > max(2, len(cases) // 5):
        print(f'{prop}: too many inconclusive cases')
        return 2
    if not evaluations or not signatures:
        print(f'{prop}: nothing was observed')
        return 2
    for name, minimum in desc['require'].items():
        if counters[name] < minimum:
            print(f'{prop}: monitor counter {name}={counters[name]} is below '
                  f'{minimum}: inconclusive')
            return 2
    return 0


def load_known(prop):
    path = root / 'known_findings.txt'
    known = {}
    if path.exists():
        for line in path.read_text().split('\n'):
            # finding: property=C99 key=<key> <what fails>
            if not line.startswith('finding: '):
                continue
            _, p, k, what = line.split(' ', 3)
            if p == f'property={prop}' and k.startswith('key='):
                known[k[4:]] = what
    return known


if __name__ == '__main__':
    main()
