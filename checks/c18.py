"""C18: matching rule, subscription algebra and event type collections."""

import itertools

from hat.event import common
from hat.event.common.collection.pylist import PyListEventTypeCollection
from hat.event.common.collection.pytree import PyTreeEventTypeCollection
from hat.event.common.subscription.pysubscription import PySubscription

from rt import model

LEVEL = 'exploration'
RULE = ('random families of subscriptions over a small alphabet (with '
        'wildcards, shared prefixes, duplicates and odd segments) are combined '
        'by random trees of union and intersection; each result is compared, '
        'on every event type over the alphabet plus an unused segment up to '
        'one segment longer than any query type, with set operations on the '
        'documented matching rule, together with its list of types and '
        'disjointness of every pair; collections are driven by random adds '
        'and removes and asked for every event type. An evaluation is one '
        'family, non-trivial if some subscription matches some but not all '
        'event types, distinct by query types')
TIERS = {'quick': {'cases': 3264, 'time': 45},
         'thorough': {'cases': 60000, 'time': 300}}
REQUIRE = {'match_questions': 100000, 'combinations': 2000,
           'disjoint_true': 200, 'disjoint_false': 200,
           'collection_gets': 10000}


class Foreign(common.Subscription):
    """Other implementation of subscription"""

    def __init__(self, query_types):
        self._types = list(query_types)

    def get_query_types(self):
        yield from self._types

    def matches(self, event_type):
        return model.matches_any(event_type, self._types)

    def union(self, *others):
        raise NotImplementedError()

    intersection = isdisjoint = union


def gen_types(rng, alpha, max_len):
    result = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
        if result and rng.random() < 0.3:
            base = list(rng.choice(result))
            if base and base[-1] == '*':
                base.pop()
            base = base[:rng.randint(0, max_len)]
        else:
            base = []
        while len(base) < max_len and rng.random() < 0.6:
            base.append('?' if rng.random() < 0.3 else rng.choice(alpha))
        if rng.random() < 0.3:
            base.append('*')
        result.append(tuple(base))
    return result


def case(ctx):
    rng = ctx.rng
    alpha = rng.choice([['a'], ['a', 'b'], ['a', 'b', 'c'], ['', 'a'],
                        ['ž', 'a/b'], ['a', '**'], ['??', 'b']])
    max_len = rng.randint(0, 3 if len(alpha) > 2 else 4)
    universe = [t for n in range(max_len + 2)
                for t in itertools.product([*alpha, 'fresh'], repeat=n)]
    everything = frozenset(universe)

    def denote(types):
        return frozenset(t for t in universe if model.matches_any(t, types))

    def check(sub, expected, how):
        got = frozenset(t for t in universe if sub.matches(t))
        ctx.count('match_questions', len(universe))
        ctx.check(got == expected, f'{how} does not match exactly',
                  {'missing': sorted(expected - got)[:20],
                   'unexpected': sorted(got - expected)[:20]})
        types = list(sub.get_query_types())
        for t in types:
            ctx.check('*' not in t[:-1], f'types of {how} contain invalid '
                      f'type', types)
        ctx.check(denote(types) == expected,
                  f'list of types of {how} denotes other event types',
                  {'types': types, 'expected': sorted(expected)[:20]})
        ctx.check(len(set(types)) == len(types),
                  f'list of types of {how} repeats types', types)
        for prefix in [t[:-1] for t in types if t and t[-1] == '*']:
            ctx.check(sum(t[:len(prefix)] == prefix for t in types) == 1,
                      f'list of types of {how} is not sanitized', types)
        return types

    family = []
    for _ in range(rng.randint(2, 4)):
        types = gen_types(rng, alpha, max_len)
        ctx.log('subscription', types)
        for query_type in types:
            for t in universe:
                if (common.matches_query_type(t, query_type) !=
                        model.matches(t, query_type)):
                    ctx.violation('matching rule is wrong',
                                  {'event type': t, 'query type': query_type})
            ctx.count('match_questions', len(universe))
        given = types if rng.random() < 0.7 else iter(list(types))
        create = rng.choice([PySubscription, common.create_subscription])
        sub = create(given)
        check(sub, denote(types), 'subscription')
        family.append((sub, denote(types), types))

    signature = [i[2] for i in family]
    nontrivial = any(i[1] and i[1] != everything for i in family)

    def foreign(item):
        """As argument of operations"""
        if rng.random() < 0.15:
            return Foreign(list(item[0].get_query_types()))
        return item[0]

    pool = list(family)
    for _ in range(rng.randint(3, 9)):
        first, *others = [rng.choice(pool)
                          for _ in range(rng.choice([1, 2, 2, 2, 3]))]
        op = rng.choice(['union', 'intersection', 'intersection'])
        ctx.log(op, [list(i[0].get_query_types())
                     for i in [first, *others]])
        result = getattr(first[0], op)(*(foreign(i) for i in others))
        expected = first[1]
        for i in others:
            expected = (expected | i[1] if op == 'union' else
                        expected & i[1])
        check(result, expected, op)
        # operands stay as they were
        for i in [first, *others]:
            check(i[0], i[1], f'operand of {op}')
        ctx.count('combinations')
        pool.append((result, expected, None))

    for a, b in itertools.product(pool, repeat=2):
        got = a[0].isdisjoint(foreign(b))
        expected = not (a[1] & b[1])
        ctx.count('disjoint_true' if expected else 'disjoint_false')
        ctx.check(got == expected, f'disjointness is {got}',
                  {'first': list(a[0].get_query_types()),
                   'second': list(b[0].get_query_types()),
                   'common': sorted(a[1] & b[1])[:10]})

    # collections
    values = ['v1', 2, (3, ), frozenset([4])]
    for cls in [PyTreeEventTypeCollection, PyListEventTypeCollection,
                common.create_event_type_collection]:
        items = [(rng.choice(pool), rng.choice(values))
                 for _ in range(rng.randint(0, 2))]
        collection = cls([(i[0], v) for i, v in items])
        state = {}
        for i, v in items:
            state[v] = state.get(v, frozenset()) | i[1]
        for _ in range(rng.randint(1, 6)):
            v = rng.choice(values)
            if rng.random() < 0.7:
                i = rng.choice(pool)
                ctx.log('add', v, list(i[0].get_query_types()))
                collection.add(i[0], v)
                state[v] = state.get(v, frozenset()) | i[1]
            else:
                ctx.log('remove', v)
                collection.remove(v)
                state.pop(v, None)
            for t in universe:
                got = list(collection.get(t))
                expected = {k for k, e in state.items() if t in e}
                ctx.check(len(got) == len(expected) and
                          set(got) == expected,
                          'collection returns wrong values',
                          {'collection': str(cls), 'event type': t,
                           'got': got, 'expected': expected})
            ctx.count('collection_gets', len(universe))

    ctx.done(signature if nontrivial else None, signature)


def run_case(ctx):
    for _ in range(3):
        case(ctx)
