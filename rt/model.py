"""Reference semantics (oracles), written from the documentation.

Nothing here uses code of the monitored system except its plain data types
(named tuples and enumerations) for comparing.
"""

import functools

from hat.event import common


# event types ----------------------------------------------------------------

@functools.lru_cache(maxsize=1 << 18)
def matches(event_type, query_type):
    """Documented rule, by recursion over query subtypes"""
    if not query_type:
        return not event_type
    head, rest = query_type[0], query_type[1:]
    if head == '*' and not rest:
        return True
    if not event_type:
        return False
    if head != '?' and head != event_type[0]:
        return False
    return matches(event_type[1:], rest)


def matches_any(event_type, query_types):
    return any(matches(event_type, tuple(i)) for i in query_types)


@functools.lru_cache(maxsize=1 << 18)
def overlap(a, b):
    """Is there an event type which matches both query types"""
    if a == ('*', ) and b == ('*', ):
        return True
    if a == ('*', ):
        return True
    if b == ('*', ):
        return True
    if not a or not b:
        return not a and not b
    if a[0] != '?' and b[0] != '?' and a[0] != b[0]:
        return False
    return overlap(a[1:], b[1:])


def disjoint(xs, ys):
    return not any(overlap(tuple(x), tuple(y)) for x in xs for y in ys)


def normalize(query_types):
    """Drop types which are covered by literal prefix followed by *"""
    types = {tuple(i) for i in query_types}
    return frozenset(
        t for t in types
        if not any(q != t and q and q[-1] == '*' and
                   len(t) >= len(q) - 1 and t[:len(q) - 1] == q[:-1]
                   for q in types))


# conditions -----------------------------------------------------------------

def json_get(data, path):
    """hat.json.get semantics: missing value is null"""
    if isinstance(path, list):
        for i in path:
            data = json_get(data, i)
        return data
    if isinstance(path, str):
        return data.get(path) if isinstance(data, dict) else None
    if isinstance(path, int) and not isinstance(path, bool):
        if not isinstance(data, list):
            return None
        try:
            return data[path]
        except IndexError:
            return None
    raise ValueError(path)


def condition_matches(conf, event):
    if conf['type'] == 'all':
        return all(condition_matches(i, event) for i in conf['conditions'])

    if conf['type'] == 'any':
        return any(condition_matches(i, event) for i in conf['conditions'])

    if not isinstance(event.payload, common.EventPayloadJson):
        return False

    data = json_get(event.payload.data, conf.get('data_path', []))

    if 'data_type' in conf:
        names = {'null': data is None,
                 'boolean': isinstance(data, bool),
                 'string': isinstance(data, str),
                 'number': (isinstance(data, (int, float)) and
                            not isinstance(data, bool)),
                 'array': isinstance(data, list),
                 'object': isinstance(data, dict)}
        if not names[conf['data_type']]:
            return False

    if 'data_value' in conf and conf['data_value'] != data:
        return False

    return True


def conditions_match(conditions, event):
    return all(condition_matches(i['condition'], event)
               for i in conditions
               if matches_any(event.type, i['subscriptions']))


# storage --------------------------------------------------------------------

class Partition:

    def __init__(self, order_by, types):
        self.order_by = order_by      # common.OrderBy
        self.types = types
        self.events = {}              # event id -> event (registration order)

    def key(self, event):
        return (event.timestamp if self.order_by == common.OrderBy.TIMESTAMP
                else event.source_timestamp, event.id)

    def copy(self):
        p = Partition(self.order_by, self.types)
        p.events = dict(self.events)
        return p


class Storage:
    """What a database with given configuration has to contain

    `latest` maps event type to event, `partitions` maps (order by,
    normalized types) to partition; `conf` is the backend configuration that
    is currently active.
    """

    def __init__(self):
        self.latest = {}
        self.partitions = {}
        self.last_ids = {}
        self.last_timestamps = {}
        self.conf = None

    def copy(self):
        s = Storage()
        s.latest = dict(self.latest)
        s.partitions = {k: p.copy() for k, p in self.partitions.items()}
        s.last_ids = dict(self.last_ids)
        s.last_timestamps = dict(self.last_timestamps)
        s.configure(self.conf)
        return s

    def configure(self, conf):
        self.conf = conf
        if conf is None:
            return
        self.active = []
        for i in conf['timeseries']:
            key = (common.OrderBy[i['order_by']],
                   normalize(i['subscriptions']))
            if key not in self.partitions:
                self.partitions[key] = Partition(*key)
            if key not in self.active:
                self.active.append(key)
        self.latest_types = [tuple(i) for i in conf['latest']['subscriptions']]
        self.visible = {
            t: e for t, e in self.latest.items()
            if matches_any(t, self.latest_types) and
            conditions_match(conf['conditions'], e)}

    def accepts(self, event):
        server = event.id.server
        last_id = self.last_ids.get(server, (server, 0, 0))
        if tuple(event.id) <= tuple(last_id):
            return False
        last_timestamp = self.last_timestamps.get(server)
        if last_timestamp is not None and event.timestamp < last_timestamp:
            return False
        return conditions_match(self.conf['conditions'], event)

    def register(self, events):
        accepted = []
        for event in events:
            ok = self.accepts(event)
            server = event.id.server
            if tuple(event.id) > tuple(self.last_ids.get(server,
                                                         (server, 0, 0))):
                self.last_ids[server] = event.id
            if not ok:
                continue
            accepted.append(event)
            self.last_timestamps[server] = event.timestamp
            if matches_any(event.type, self.latest_types):
                previous = self.visible.get(event.type)
                if previous is None or not self.newer(previous, event):
                    self.latest[event.type] = event
                    self.visible[event.type] = event
            for key in self.active:
                p = self.partitions[key]
                if not matches_any(event.type, p.types):
                    continue
                if (p.order_by == common.OrderBy.SOURCE_TIMESTAMP and
                        event.source_timestamp is None):
                    continue
                p.events[event.id] = event
        return accepted

    @staticmethod
    def newer(a, b):
        """Is a (already stored) newer then b"""
        if a.id.server == b.id.server:
            return a.id > b.id
        return a.timestamp > b.timestamp

    # queries (return list of events and more follows)

    def query(self, params, timeseries_max=4096, server_max=4096):
        if isinstance(params, common.QueryLatestParams):
            return self.query_latest(params), False
        if isinstance(params, common.QueryTimeseriesParams):
            return self.query_timeseries(params, timeseries_max)
        return self.query_server(params, server_max)

    def query_latest(self, params):
        return {t: e for t, e in self.visible.items()
                if params.event_types is None or
                matches_any(t, params.event_types)}

    def query_timeseries(self, params, max_results):
        for key in self.active:
            p = self.partitions[key]
            if p.order_by != params.order_by:
                continue
            if (params.event_types is not None and
                    disjoint(params.event_types, p.types)):
                continue
            break
        else:
            return [], False

        events = [e for e in p.events.values()
                  if conditions_match(self.conf['conditions'], e)]
        return timeseries(events, params, max_results, p.key)

    def stored(self, server_id):
        """Stored events of a server, in order of ids"""
        events = {}
        for e in self.latest.values():
            events[e.id] = e
        for p in self.partitions.values():
            events.update(p.events)
        return [events[i] for i in sorted(events) if i.server == server_id]

    def query_server(self, params, max_results):
        return server(self.stored(params.server_id), params, max_results)


def timeseries(events, params, max_results, key):
    """Sorted, filtered and limited events"""
    events = sorted(events, key=key,
                    reverse=params.order == common.Order.DESCENDING)
    # paging: continue after the last received event; events outside of the
    # range of the ordering timestamp are not part of the paged sequence
    lo, hi = ((params.t_from, params.t_to)
              if params.order_by == common.OrderBy.TIMESTAMP else
              (params.source_t_from, params.source_t_to))
    events = [e for e in events
              if (lo is None or key(e)[0] >= lo) and
              (hi is None or key(e)[0] <= hi)]
    if params.last_event_id:
        ids = [e.id for e in events]
        events = (events[ids.index(params.last_event_id) + 1:]
                  if params.last_event_id in ids else [])
    events = [e for e in events if timeseries_filter(e, params)]
    limit = max_results
    if params.max_results is not None and params.max_results < limit:
        limit = params.max_results
    return events[:limit], len(events) > limit


def timeseries_filter(e, params):
    if params.event_types is not None:
        if not matches_any(e.type, params.event_types):
            return False
    if params.t_from is not None and e.timestamp < params.t_from:
        return False
    if params.t_to is not None and e.timestamp > params.t_to:
        return False
    if params.source_t_from is not None:
        if (e.source_timestamp is None or
                e.source_timestamp < params.source_t_from):
            return False
    if params.source_t_to is not None:
        if (e.source_timestamp is None or
                e.source_timestamp > params.source_t_to):
            return False
    return True


def server(events, params, max_results):
    events = [e for e in events
              if not params.last_event_id or e.id > params.last_event_id]
    limit = max_results
    if params.max_results is not None and params.max_results < limit:
        limit = params.max_results
    return events[:limit], len(events) > limit
