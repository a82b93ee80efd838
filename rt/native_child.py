"""Process (with sanitizers loaded) in which native extensions are exercised

Usage: native_child BUILD_DIR SEED CASE MODE N TRACE OUT
"""

import collections
import ctypes
import datetime
import gc
import importlib.machinery
import importlib.util
import json
import os
import random
import sys
import traceback
import weakref

import _testcapi

from hat.event import common

from rt import gen
from rt import model

build, seed, case, mode, n, trace_path, out_path = sys.argv[1:]
rng = random.Random(f'native/{seed}/{case}/{mode}')
trace_fd = os.open(trace_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
counters = collections.Counter()
signatures = set()
samples = []


err_occurred = ctypes.pythonapi.PyErr_Occurred
err_occurred.restype = ctypes.c_void_p
err_occurred.argtypes = []


class Wrong(Exception):

    def __init__(self, message, witness=None):
        super().__init__(message)
        self.message = message
        self.witness = witness


def log(*args):
    os.write(trace_fd, (' '.join(str(i) for i in args).encode(
        'utf-8', 'backslashreplace')[:2000] + b'\n'))


def check(condition, message, witness=None):
    if not condition:
        raise Wrong(message, repr(witness)[:4000])


def load(name, path):
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    module = importlib.util.module_from_spec(spec)
    loader.exec_module(module)
    sys.modules[name] = module
    lib = ctypes.CDLL(path)
    return module, lambda: ctypes.c_long.in_dll(lib, 'native_live').value


csub, csub_live = load('hat.event.common.subscription._csubscription',
                       f'{build}/_csubscription.so')
ctree, ctree_live = load('hat.event.common.collection._ctree',
                         f'{build}/_ctree.so')

from hat.event.common.collection.ctree import CTreeEventTypeCollection  # NOQA
from hat.event.common.collection.pylist import PyListEventTypeCollection  # NOQA
from hat.event.common.collection.pytree import PyTreeEventTypeCollection  # NOQA
from hat.event.common.subscription.csubscription import CSubscription  # NOQA
from hat.event.common.subscription.pysubscription import PySubscription  # NOQA


class S(str):
    """String whose end of life is observable"""


class V:
    """Value whose end of life is observable"""


watched = []
shared = [collections, collections.deque, csub, ctree, csub.Subscription,
          ctree.Collection]
base = []


def watch(x):
    watched.append(weakref.ref(x))
    return x


def settle(what):
    """Nothing may be left after everything was released"""
    gc.collect()
    alive = [r() for r in watched if r() is not None]
    watched.clear()
    check(not alive, f'references are leaked by {what}', alive[:5])
    check(csub_live() == 0 and ctree_live() == 0,
          f'memory is leaked by {what}', (csub_live(), ctree_live()))
    counts = [sys.getrefcount(i) for i in shared]
    if not base:
        base.extend(counts)
    check(all(i < j + 50 for i, j in zip(counts, base)),
          f'references to shared objects are leaked by {what}',
          (counts, base))
    counters['leak_checks'] += 1


def fresh(t):
    """Same type made of new strings"""
    return tuple(watch(S(i)) if rng.random() < 0.3 else i for i in t)


def plain(t):
    return tuple(str(i) for i in t)


odd = ['*\x00', '\x00', 'a\x00b', '?\x00', '\x00*', '', '**', '??', '*a',
       'ž' * 50, '\U0001f600', 'x' * 1000]


def gen_query_type(max_len=4):
    t = gen.query_type(rng, max_len, odd=0.05)
    if rng.random() < 0.1 and t:
        t = list(t)
        t[rng.randrange(len(t))] = rng.choice(odd)
        t = tuple(t)
    return t


def gen_event_type(max_len=4):
    t = gen.event_type(rng, max_len, odd=0.05)
    if rng.random() < 0.1 and t:
        t = list(t)
        t[rng.randrange(len(t))] = rng.choice([*odd, '*', '?'])
        t = tuple(t)
    return t


def container(types):
    k = rng.randint(0, 4)
    types = [list(i) if rng.random() < 0.2 else
             iter(i) if rng.random() < 0.1 else
             i for i in types]
    return [list, tuple, iter, lambda x: (i for i in x),
            collections.deque][k](types)


def is_valid(types):
    """Is there no wildcard before the end (not hidden by previous one)"""
    stars = set()
    for t in types:
        for i, j in enumerate(t):
            if t[:i] in stars:
                break
            if j == '*':
                if i + 1 < len(t):
                    return False
                stars.add(t[:i])
    return True


def query_types_of(subscription):
    result = subscription.get_query_types()
    types = [tuple(i) for i in result]
    check(len(types) == len(set(types)), 'query type is given twice', types)
    return frozenset(types)


# agreement -------------------------------------------------------------------

def scenario_model():
    subs = []

    def new():
        types = [gen_query_type() for _ in range(rng.randint(0, 5))]
        if rng.random() < 0.05:
            types.append(('a', '*', 'b'))
            rng.shuffle(types)
        given = container([fresh(t) for t in types])
        log('new', types)
        try:
            s = csub.Subscription(given)
        except ValueError:
            check(not is_valid(types), 'valid types are refused', types)
            counters['refused'] += 1
            return
        check(is_valid(types), 'invalid types are accepted', types)
        subs.append((s, types))
        counters['subscriptions'] += 1

    def matches():
        s, types = rng.choice(subs)
        t = gen_event_type()
        log('matches', types, t)
        got = s.matches(fresh(t))
        want = any(model.matches(t, i) for i in types)
        check(got is want, 'wrong answer of matches', (types, t, got))
        counters[f'matches_{want}'] += 1
        signatures.add(hash((tuple(types), t)) & 0xffffffff)

    def isdisjoint():
        a, x = rng.choice(subs)
        b, y = rng.choice(subs)
        log('isdisjoint', x, y)
        got = a.isdisjoint(b)
        want = model.disjoint(x, y)
        check(got is want, 'wrong answer of isdisjoint', (x, y, got))
        check(b.isdisjoint(a) is want, 'wrong answer of isdisjoint', (y, x))
        counters[f'isdisjoint_{want}'] += 1
        signatures.add(hash((tuple(x), tuple(y))) & 0xffffffff)

    def types():
        s, types = rng.choice(subs)
        log('get_query_types', types)
        got = query_types_of(s)
        want = model.normalize(types)
        check(got == want, 'wrong query types', (types, got, want))
        counters['query_types'] += 1

    def wrapper():
        """Together with python part of the implementation"""
        a, b = ([t for t in (gen_query_type() for _ in range(3))]
                for _ in range(2))
        log('wrapper', a, b)
        if not is_valid(a) or not is_valid(b):
            return
        x, y = CSubscription(a), CSubscription(b)
        union = x.union(y)
        intersection = x.intersection(y)
        other = (PySubscription(b) if rng.random() < 0.5 else y)
        check(x.isdisjoint(other) is model.disjoint(a, b),
              'wrong answer of isdisjoint', (a, b))
        for _ in range(5):
            t = gen_event_type()
            p, q = (any(model.matches(t, i) for i in j) for j in (a, b))
            check(union.matches(t) is (p or q), 'wrong union', (a, b, t))
            check(intersection.matches(t) is (p and q),
                  'wrong intersection', (a, b, t))
        counters['wrappers'] += 1

    def drop():
        log('drop')
        subs.pop(rng.randrange(len(subs)))

    new()
    for _ in range(rng.randint(5, 25)):
        if not subs:
            new()
            continue
        rng.choice([new, matches, matches, matches, isdisjoint, isdisjoint,
                    types, wrapper, drop])()
    if not samples:
        samples.append(str([t for _, t in subs]))
    subs.clear()


def scenario_tree():
    c = ctree.Collection()
    items = []       # reference, query type, value
    pool = [1, 'v', None, ('x', ), *(watch(V()) for _ in range(3))]

    def add():
        t = gen_query_type()
        v = rng.choice(pool)
        log('add', t, v)
        if not is_valid([t]):
            return
        items.append((c.add(fresh(t), v), t, v))
        counters['added'] += 1

    def remove():
        if not items:
            return
        ref, t, v = items.pop(rng.randrange(len(items)))
        log('remove', t, v)
        check(c.remove(ref) is None, 'result of remove')
        if rng.random() < 0.2:
            log('remove again')
            try:
                c.remove(ref)
            except Exception as e:
                usable(e)
        counters['removed'] += 1

    def get():
        t = gen_event_type()
        log('get', t)
        got = c.get(fresh(t))
        want = {v for _, q, v in items if model.matches(t, q)}
        check(type(got) is set and got == want, 'wrong values',
              (t, got, want))
        counters['got'] += 1
        counters['got_values'] += len(want)
        signatures.add(hash((t, tuple(q for _, q, _ in items))) & 0xffffffff)

    for _ in range(rng.randint(5, 40)):
        rng.choice([add, add, remove, get, get])()
    if rng.random() < 0.5:
        # references outlive the collection
        refs = [i[0] for i in items]
        items.clear()
        del c
        log('references without collection')
        if refs and rng.random() < 0.5:
            other = ctree.Collection()
            other_ref = other.add(('a', ), 'other')
            for i in refs:
                try:
                    other.remove(i)
                except Exception as e:
                    usable(e)
            check(other.get(('a', )) == {'other'},
                  'foreign references changed collection')
            del other, other_ref
        refs.clear()
    else:
        get()
        items.clear()
        del c
    pool.clear()


def scenario_collections():
    """Collection class with native parts against other classes"""
    classes = [CTreeEventTypeCollection, PyTreeEventTypeCollection,
               PyListEventTypeCollection]
    collections_ = [i() for i in classes]
    reference = collections.defaultdict(list)
    for _ in range(rng.randint(5, 25)):
        k = rng.random()
        if k < 0.4:
            types = [gen_query_type() for _ in range(rng.randint(0, 4))]
            if not is_valid(types):
                continue
            v = rng.randint(0, 5)
            log('collections add', types, v)
            reference[v] += types
            for i in collections_:
                i.add(rng.choice([CSubscription, PySubscription])(types), v)
        elif k < 0.55:
            v = rng.randint(0, 5)
            log('collections remove', v)
            reference.pop(v, None)
            for i in collections_:
                i.remove(v)
        else:
            t = gen_event_type()
            log('collections get', t)
            want = {v for v, types in reference.items()
                    if any(model.matches(t, q) for q in types)}
            for i in collections_:
                got = i.get(t)
                check(set(got) == want, 'wrong values', (type(i), t, want))
            counters['collections_got'] += 1


# allocation failures ---------------------------------------------------------

def usable(e):
    """Misuse is reported by an exception of its own"""
    check(not isinstance(e, SystemError), 'exception is not set properly', e)
    counters['exceptions'] += 1


def nothing_pending():
    """Function which returned a result must not leave an exception set"""
    try:
        err_occurred()
    except BaseException as e:
        raise Wrong('result is returned with an exception set', repr(e))


def remove_quietly(remove):
    try:
        remove()
    except BaseException as e:
        remove()
        raise Wrong('result is returned with an exception set', repr(e))
    nothing_pending()


def with_failures(fn, *args):
    """Result of function and number of failed attempts"""
    set_nomemory = _testcapi.set_nomemory
    remove = _testcapi.remove_mem_hooks
    once = rng.random() < 0.5
    for i in range(200):
        error = None
        result = None
        stop = i + 1 if once else 0
        set_nomemory(i, stop)
        try:
            result = fn(*args)
        except BaseException as e:
            error = e
        if error is None:
            remove_quietly(remove)
        else:
            remove()
        if error is None:
            counters['operations_without_memory'] += 1
            return result, i
        counters['failed_allocations'] += 1
        log('failed', i, type(error))
        if isinstance(error, Wrong):
            raise error
        check(not isinstance(error, SystemError),
              'exception is not set properly', error)
        error = None
    raise Wrong('operation does not succeed with enough memory')


def scenario_nomemory():
    subs = []
    c = ctree.Collection()
    items = []

    def string():
        # encoding of these strings needs memory
        return rng.choice(['a', 'b', '*', '?']) if rng.random() < 0.4 else (
            ''.join(rng.choice('žćα') for _ in range(3)))

    def types():
        result = []
        for _ in range(rng.randint(1, 3)):
            t = tuple(string() for _ in range(rng.randint(0, 3)))
            if '*' in t:
                t = t[:t.index('*') + 1]
            result.append(t)
        return result

    for _ in range(rng.randint(3, 8)):
        k = rng.randint(0, 6)
        if k == 0 or not subs:
            ts = types()
            log('nomemory new', ts)
            s, _ = with_failures(csub.Subscription, ts)
            subs.append((s, ts))
        elif k == 1:
            s, ts = rng.choice(subs)
            log('nomemory get_query_types', ts)
            got, _ = with_failures(s.get_query_types)
            check(set(got) == model.normalize(ts), 'wrong query types',
                  (ts, got))
        elif k == 2:
            s, ts = rng.choice(subs)
            t = tuple(string() for _ in range(rng.randint(0, 3)))
            log('nomemory matches', ts, t)
            got, _ = with_failures(s.matches, t)
            check(got is model.matches_any(t, ts), 'wrong answer of matches',
                  (ts, t))
        elif k == 3:
            s, ts = rng.choice(subs)
            r, us = rng.choice(subs)
            log('nomemory isdisjoint', ts, us)
            got, _ = with_failures(s.isdisjoint, r)
            check(got is model.disjoint(ts, us), 'wrong answer of isdisjoint',
                  (ts, us))
        elif k == 4:
            t = types()[0]
            v = watch(V()) if rng.random() < 0.5 else rng.randint(0, 5)
            log('nomemory add', t, v)
            ref, _ = with_failures(c.add, t, v)
            items.append((ref, t, v))
        elif k == 5:
            t = tuple(string() for _ in range(rng.randint(0, 3)))
            log('nomemory get', t)
            got, _ = with_failures(c.get, t)
            check(got == {v for _, q, v in items if model.matches(t, q)},
                  'wrong values', t)
        else:
            log('nomemory collection')
            with_failures(ctree.Collection)
    for ref, _, _ in items:
        c.remove(ref)
    check(c.get(()) == set(), 'removed values are still there')
    items.clear()
    subs.clear()


# misuse ----------------------------------------------------------------------

def failing(items, at):
    for i, item in enumerate(items):
        if i == at:
            raise KeyError('failing iterator')
        yield item
    if at >= len(items):
        raise KeyError('failing iterator')


def attempt(fn, *args, must_fail=True, error=None):
    log('attempt', fn, args)
    counters['misuses'] += 1
    try:
        result = fn(*args)
        nothing_pending()
    except Wrong:
        raise
    except BaseException as e:
        usable(e)
        if error:
            check(isinstance(e, error), 'other exception is raised', e)
        signatures.add(hash((str(fn)[:30], type(e))) & 0xffffffff)
        return None
    check(not must_fail, 'unusable input is accepted', (fn, args))
    return result


class Other(tuple):
    pass


def scenario_misuse():
    sub = csub.Subscription([('a', 'b'), ('a', '?', 'c'), ('?', '*')])
    pick = rng.randint(0, 11)
    junk = [None, 5, 1.5, object(), watch(V()), b'ab', ['a'], {'a'}, 'a', {}, sub,
            datetime.datetime_CAPI]
    if pick == 0:
        attempt(csub.Subscription)
        attempt(csub.Subscription, None)
        attempt(csub.Subscription, [5])
        attempt(csub.Subscription, [[]], [[]])
        for i in [None, 5, b'a', watch(V()), ('a', ), ['a']]:
            attempt(csub.Subscription, [['a', i]])
            attempt(csub.Subscription, [['a'], [i], ['*']])
            attempt(csub.Subscription, [('a', '*', i)])
    elif pick == 1:
        t = [('a', 'b'), ('c', ), ('d', '*')]
        attempt(csub.Subscription, failing(t, rng.randint(0, 3)),
                error=KeyError)
        t = [watch(S(i)) for i in ('a', 'b', '*')]
        attempt(csub.Subscription, [failing(t, rng.randint(0, 3))],
                error=KeyError)
    elif pick == 2:
        attempt(csub.Subscription, [('a', '\ud800')], must_fail=False)
        attempt(csub.Subscription, [('\ud800', '*'), ('a', )],
                must_fail=False)
        for t in [('\ud800', ), ('a', '\ud800'), ('a', '\ud800', 'c'),
                  ('a', 'b', '\ud800'), ('\ud800', 'b')]:
            want = model.matches_any(t, [('a', 'b'), ('a', '?', 'c'),
                                         ('?', '*')])
            got = attempt(sub.matches, t, must_fail=False)
            check(got in (None, want), 'wrong answer of matches', t)
            s = csub.Subscription([('a', 'b'), ('?', 'b')])
            got = attempt(s.matches, t, must_fail=False)
            check(got in (None, model.matches_any(t, [('a', 'b'),
                                                      ('?', 'b')])),
                  'wrong answer of matches', t)
    elif pick == 3:
        for i in junk:
            attempt(sub.matches, i)
        s = csub.Subscription([('a', 'b')])
        for i in junk:
            if not isinstance(i, str):
                attempt(s.matches, (i, ))
                attempt(s.matches, ('a', i))
        check(sub.matches(Other(('a', 'b'))) is True, 'wrong answer')
    elif pick == 4:
        for i in junk:
            if i is not sub:
                attempt(sub.isdisjoint, i)
        check(sub.isdisjoint(sub) is False, 'subscription disjoint of itself')
        e = csub.Subscription([])
        check(e.isdisjoint(e) is True, 'empty subscription not disjoint')
        check(e.isdisjoint(sub) is True, 'empty subscription not disjoint')
    elif pick == 5:
        c = ctree.Collection()
        for i in junk:
            attempt(c.add, i, 1)
            attempt(c.get, i)
            if not isinstance(i, str):
                attempt(c.add, ('a', i), 1)
                attempt(c.add, (i, ), 1)
        attempt(c.add, ('a', ))
        attempt(c.add)
        attempt(c.add, ('a', ), 1, 2)
        attempt(c.add, ('a', '*', 'b'), 1)
        check(c.get(('a', 'b')) == set(), 'refused value is there')
    elif pick == 6:
        c = ctree.Collection()
        for i in junk:
            attempt(c.remove, i)
        v = watch(V())
        ref = c.add(('a', ), v)
        ref2 = c.add(('a', ), v)
        c.remove(ref)
        attempt(c.remove, ref)
        check(c.get(('a', )) == {v}, 'value was removed twice')
        c.remove(ref2)
        check(c.get(('a', )) == set(), 'value was not removed')
    elif pick == 7:
        a, b = ctree.Collection(), ctree.Collection()
        x, y = a.add(('a', ), 'x'), b.add(('a', ), 'y')
        attempt(a.remove, y)
        attempt(b.remove, x)
        if rng.random() < 0.5:
            del b
            attempt(a.remove, y)
        check(a.get(('a', )) == {'x'}, 'foreign reference was used')
        a.remove(x)
    elif pick == 8:
        # values with code of their own
        c = ctree.Collection()
        refs = []

        class Evil:

            def __hash__(self):
                if refs and rng.random() < 0.7:
                    try:
                        c.remove(refs.pop(rng.randrange(len(refs))))
                    except Exception as e:
                        usable(e)
                elif rng.random() < 0.3:
                    refs.append(c.add(('a', ), watch(Evil())))
                if rng.random() < 0.1:
                    raise KeyError('hash')
                return rng.randint(0, 2)

            def __eq__(self, other):
                if refs and rng.random() < 0.3:
                    c.remove(refs.pop())
                return rng.random() < 0.5

        types = [('a', ), ('*', ), ('?', ), ('a', '*'), ('?', '*')]
        for _ in range(8):
            refs.append(c.add(rng.choice(types), watch(Evil())))
        for _ in range(4):
            attempt(c.get, ('a', ), must_fail=False)
        # values keep the collection by their class
        refs.clear()
        c = None
        Evil.__hash__ = None
        Evil.__eq__ = None
    elif pick == 9:
        # values whose finalizers use the collection
        c = ctree.Collection()
        refs = []
        removed = []

        class Final:

            def __del__(self):
                removed.append(1)
                if refs and rng.random() < 0.5:
                    attempt(c.remove, refs.pop(), must_fail=False)
                if rng.random() < 0.3 and c is not None:
                    attempt(c.get, ('a', ), must_fail=False)

        for _ in range(6):
            refs.append(c.add(rng.choice([('a', ), ('*', ), ('b', )]),
                              Final()))
        for _ in range(3):
            if refs:
                attempt(c.remove, refs.pop(0), must_fail=False)
        refs.clear()
        c = None
        gc.collect()
        check(len(removed) == 6, 'values are leaked', len(removed))
    elif pick == 10:
        c = ctree.Collection()
        c.add(('a', ), [])
        attempt(c.get, ('a', ), error=TypeError)
        check(c.get(('b', )) == set(), 'wrong values')
        attempt(setattr, sub, 'x', 1)
        attempt(setattr, c, 'x', 1)
        for cls in (csub.Subscription, ctree.Collection):
            attempt(lambda: type('X', (cls, ), {}))
            attempt(lambda: cls.__new__(int))
        attempt(object.__new__, csub.Subscription)
        attempt(csub.Subscription.matches, 5, ('a', ))
        attempt(ctree.Collection.get, sub, ('a', ))
    else:
        # generator which uses other objects while it is consumed
        def types():
            for _ in range(5):
                x = csub.Subscription([('q', ), ('*', )])
                check(x.matches(('z', )) is True, 'wrong answer')
                yield iter([watch(S('a')), watch(S('b'))])

        s = csub.Subscription(types())
        check(s.matches(('a', 'b')) is True, 'wrong answer')
    # subscription is not changed by misuse
    check(sub.matches(('a', 'b')) is True and sub.matches(()) is False,
          'subscription was changed')


def scenario_deep():
    depth = int(rng.choice([900, 5000, 20000, 200000, 1000000]) *
                (0.5 + rng.random()))
    counters['deep'] += 1
    counters['deepest'] = max(counters['deepest'], depth)
    name = rng.choice(['a', '?'])
    t = (name, ) * depth
    kind = rng.randint(0, 3)
    log('deep', depth, name, kind)
    if kind == 0:
        s = attempt(csub.Subscription, [t], must_fail=False)
        if s:
            counters['deep_accepted'] += 1
            check(s.matches(('a', ) * depth) is True, 'wrong answer')
            check(s.matches(('a', ) * (depth - 1)) is False, 'wrong answer')
            check(s.isdisjoint(csub.Subscription([('a', '*')])) is False,
                  'wrong answer')
            r = csub.Subscription([t])
            check(s.isdisjoint(r) is False, 'wrong answer')
            if depth < 10000:
                check(list(s.get_query_types()) == [t], 'wrong query types')
    elif kind == 1:
        s = csub.Subscription([('a', ), ('b', '*')])
        check(s.matches(('a', ) * depth) is False, 'wrong answer')
        check(s.matches(('b', ) * depth) is True, 'wrong answer')
        c = ctree.Collection()
        c.add(('b', '*'), 1)
        c.add(('?', '?', '*'), 2)
        check(c.get(('b', ) * depth) == {1, 2}, 'wrong values')
    elif kind == 2:
        c = ctree.Collection()
        ref = attempt(c.add, t, 1, must_fail=False)
        if ref:
            counters['deep_accepted'] += 1
            check(c.get(('a', ) * depth) == {1}, 'wrong values')
            check(c.get(('a', ) * (depth - 1)) == set(), 'wrong values')
            c.remove(ref)
        check(c.get(('a', ) * 10) == set(), 'wrong values')
    else:
        types = [('a', ) * i for i in range(0, 900, 7)]
        s = csub.Subscription(types)
        check(s.matches(('a', ) * 700) is True, 'wrong answer')
        check(len(s.get_query_types()) == len(types), 'wrong query types')


scenarios = {'model': scenario_model, 'tree': scenario_tree,
             'collections': scenario_collections,
             'nomemory': scenario_nomemory, 'misuse': scenario_misuse,
             'deep': scenario_deep}


def main():
    result = {'violation': None}
    try:
        for i in range(int(n)):
            os.ftruncate(trace_fd, 0)
            os.lseek(trace_fd, 0, 0)
            log('scenario', mode, i)
            scenarios[mode]()
            counters['scenarios'] += 1
            settle(f'scenario {mode}')
    except Wrong as e:
        result['violation'] = [e.message, e.witness]
    except (MemoryError, OSError):
        raise
    except Exception as e:
        result['violation'] = [f'unexpected exception {type(e).__name__}',
                               traceback.format_exc()[-3000:]]
    result['counters'] = counters
    result['signatures'] = sorted(signatures)
    result['samples'] = samples
    with open(out_path, 'w') as f:
        json.dump(result, f)
    os._exit(0)


main()
