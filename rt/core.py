"""Contexts, verdicts and common helpers of checks."""

import collections
import hashlib
import json
import pathlib
import random
import shutil


class Violation(Exception):
    """The monitored execution breaks the property"""

    def __init__(self, message, witness=None, key=None):
        super().__init__(message)
        self.message = message
        self.witness = witness
        self.key = key


class Inconclusive(Exception):
    """The monitor could not decide"""


class Ctx:
    """One case of a check"""

    def __init__(self, prop, seed, tier, case, tmp):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.case = case
        self.rng = random.Random(f'{prop}/{seed}/{case}')
        self.tmp = pathlib.Path(tmp)
        self.counters = collections.Counter()
        self.maxima = {}
        self.signatures = set()
        self.samples = []
        self.evaluations = 0
        self.trace = collections.deque(maxlen=400)
        # violations raised inside of callbacks may be suppressed by the
        # monitored code, so they are remembered too
        self.first_violation = None
        self.on_violation = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *args):
        """Remember step of the case (part of the witness)"""
        self.trace.append(' '.join(str(i) for i in args))

    def count(self, name, n=1):
        self.counters[name] += n

    def maximum(self, name, value):
        self.maxima[name] = max(self.maxima.get(name, value), value)

    def done(self, signature, sample=None, n=1):
        """One evaluation finished; signature is None if it was trivial"""
        self.evaluations += n
        if signature is not None:
            self.signatures.add(hashlib.sha1(
                repr(signature).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 2:
            self.samples.append(short(sample, 1200))

    def violation(self, message, witness=None, key=None):
        e = Violation(message, witness, key)
        if self.first_violation is None:
            e.trace = list(self.trace)
            self.first_violation = e
            if self.on_violation:
                self.on_violation()
        raise e

    def check(self, condition, message, witness=None, key=None):
        if not condition:
            self.violation(message, witness() if callable(witness)
                           else witness, key)

    def equal(self, got, expected, message, key=None, **extra):
        if got != expected:
            self.violation(message, {'got': short(got, 4000),
                                     'expected': short(expected, 4000),
                                     **{k: short(v, 4000)
                                        for k, v in extra.items()}}, key)

    def folder(self, name='d'):
        for i in range(1000000):
            path = self.tmp / f'{name}{i}'
            try:
                path.mkdir(parents=True)
                return path
            except FileExistsError:
                continue

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def short(value, n=600):
    try:
        text = value if isinstance(value, str) else repr(value)
    except RecursionError:
        text = f'{type(value)} nested too deep'
    return text if len(text) <= n else f'{text[:n]}... ({len(text)} chars)'


def jsonable(value):
    try:
        json.dumps(value)
        return value
    except (TypeError, ValueError, RecursionError):
        if isinstance(value, dict):
            return {str(k): jsonable(v) for k, v in value.items()}
        if isinstance(value, (list, tuple, set, collections.deque)):
            return [jsonable(i) for i in value]
        return short(value, 4000)
