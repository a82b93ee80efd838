"""Source of /verif/properties.jsonl (python3 tools/properties_src.py > properties.jsonl)."""
import json

E = 'src_py/hat/event/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None}})


prop('C01', 'Event identity: unique, gap-free ids and one timestamp per session',
     "Every event an engine creates carries the engine's own server id and an identifier that is unique for all time: each registration "
     "(and each module reaction to it) forms one session whose number is exactly one more than the previous session's, and its events are "
     "numbered 1, 2, 3, ... without gaps, in the order in which they are committed. All events of a session share one timestamp, and while the clock does not "
     "step back timestamps never decrease from session to session; all this continues across clean restarts of the engine and of the whole server on the "
     "same database: no session number is ever handed out twice to events that anybody could have observed (results, notifications, queries).",
     ['schedules', 'histories', 'configurations'],
     'any interleaving of concurrent registrations from modules and eventer clients, any chain of module reactions, any number of engine and backend '
     'restarts (clean close), for any storage configuration, including one that stores nothing of what is registered',
     'tests register a handful of events one at a time with a mocked backend and never restart an engine on a real database',
     [E + 'server/engine.py', E + 'backends/lmdb/systemdb.py', E + 'backends/lmdb/backend.py', E + 'backends/memory.py'],
     [('_create_session/_create_event', E + 'server/engine.py'), ('get_last_event_id', E + 'backends/lmdb/systemdb.py')],
     ['result of Engine.register', 'backend registered events callback', 'on_session_start arguments', 'queries after reopening'],
     [('last_event_id', 'last identifier handed out', E + 'server/engine.py')])

prop('C02', 'Sessions run modules sequentially, exactly once, to a fixed point',
     "Registrations are processed one at a time as sessions: every module is told the session starts, then is given exactly once each event of the session "
     "that matches its subscription - the initially registered ones and those that any module (itself included) produced while reacting - with the true source "
     "of the event, and finally is told that the session stops; nothing of two sessions overlaps. Events given to one module arrive in creation order, and "
     "the set of events passed on to storage is exactly the initial events followed by everything the modules returned, in the order of their identifiers. "
     "Sources of events (engine, module index, eventer connection) reach the modules and are never mixed up.",
     ['programs', 'schedules', 'histories'],
     'any number of modules with any subscriptions and any reaction programs (terminating), synchronous or suspending at any point, and any concurrent registration load',
     'tests use one or two scripted modules and one registration at a time',
     [E + 'server/engine.py', E + 'common/module.py'],
     [('_process_sessions', E + 'server/engine.py'), ('_register_loop', E + 'server/engine.py')],
     ['Module.on_session_start/process/on_session_stop calls', 'backend.register argument'])

prop('C03', 'Every engine registration gets its own answer, none hangs',
     "Every registration accepted by an engine completes: with exactly one event for every requested event, in the requested order, with the same type, source timestamp and "
     "payload - or with None or an error when the storage refuses, a module fails or the engine closes - and never with another request's events and never hangs, "
     "however the engine ends. Requests are processed in the order they were enqueued. The first session of an engine holds only its STARTED event (plus reactions) and its last "
     "one, after all answered registrations, its STOPPED event. An engine ends as soon as any of its modules starts to close, however long that takes, and is closed only after all of "
     "its modules are.",
     ['schedules', 'fault_sequences', 'histories'],
     'any number of concurrent registrants (modules, clients, cancelled callers) x any register queue size x engine close, module exception, backend exception or refusal at any point',
     'tests register sequentially and close engines only when idle',
     [E + 'server/engine.py', E + 'server/eventer_server.py'],
     [('_register_loop', E + 'server/engine.py'), ('register', E + 'server/engine.py')],
     ['return value / exception of Engine.register', 'events passed to the backend'])

prop('C04', 'Live notifications: each matching session exactly once, in order, whole',
     "A connected eventer client receives, for each batch of events the server notifies in the client's chosen mode (registered or persisted), exactly those events whose type matches one of its "
     "subscriptions and whose server id equals its server id filter (all servers when it has none), once, in the order of the batch, in a single notification and with unchanged contents; batches arrive "
     "in the order they were notified and a batch without matching events causes no notification. "
     "What one client does (connecting, disconnecting, stalling in a callback) never changes which notifications another client receives, nor their contents and order.",
     ['schedules', 'inputs', 'histories'],
     'any set of concurrently connected clients with any subscriptions, server id filters and modes, any notified batches, with clients joining and leaving mid-stream',
     'tests check single clients with single events',
     [E + 'eventer/server.py', E + 'eventer/client.py', E + 'server/eventer_server.py'],
     [('notify_events', E + 'eventer/server.py'), ('_process_msg_events_notify', E + 'eventer/client.py')],
     ['events_cb of eventer clients', 'arguments of notify_events'])

prop('C05', 'Eventer requests: each answered once, in order, with its own result',
     "On an eventer connection each register request that asks for a response and each query gets exactly one answer, which is the one the server produced for that very request "
     "(a registration refused by the server is answered with a failure, seen as None), whatever the number of outstanding requests; a register request that does not ask for one is not answered. A server that is given no callback refuses registrations and answers queries with nothing. The server handles the requests of one "
     "connection in the order they were sent and passes their contents and the client's identity on unchanged, and requests still pending when the connection ends fail with a connection error instead of hanging.",
     ['schedules', 'fault_sequences', 'inputs'],
     'any number of concurrently issued requests of any kind and content, any server side completion times, cancelled callers, and a connection cut at any byte of either direction',
     'tests issue one request at a time and never cut a connection mid-message',
     [E + 'eventer/client.py', E + 'eventer/server.py', E + 'eventer/common.py'],
     [('_conv_futures', E + 'eventer/client.py'), ('_connection_loop', E + 'eventer/server.py')],
     ['results of Client.register/query', 'register_cb/query_cb arguments'])

prop('C06', 'Acknowledged notification waits for every addressed client',
     "A notification that asks for acknowledgement completes only when every client it was sent to has either finished its events callback for that very notification or got disconnected, and then it does complete; "
     "another client's disconnection, acknowledgement or acknowledgement of another notification never ends the wait early, and a client that takes long does not keep the notification from the others.",
     ['schedules', 'fault_sequences'],
     'any number of clients with arbitrarily slow or failing callbacks, overlapping acknowledged notifications, and disconnects at any time of any client',
     'the test suite acknowledges with one client at a time',
     [E + 'eventer/server.py', E + 'eventer/client.py', E + 'server/eventer_server.py', E + 'server/main_runner.py'],
     [('_conn_conv_futures', E + 'eventer/server.py')],
     ['completion of notify_events(with_ack) against completion of clients callbacks'])

prop('C07', 'Only admissible clients get in, and a bad peer hurts only itself',
     "A client that identifies itself with a server token is admitted only if the token equals the configured server token, and otherwise its initialization fails with an error, "
     "it receives nothing, cannot register or query and leaves no trace in the list of connected clients; a client without a token is admitted. "
     "A peer that sends malformed, unexpected or out of order messages (or garbage bytes) gets only its own connection closed: the server "
     "keeps accepting connections, and other clients' requests and notifications are unaffected.",
     ['inputs', 'fault_sequences', 'schedules'],
     'any token/configured token combination, any byte or message sequence sent by hostile peers before, during and after initialization, concurrent with well-behaved clients',
     'tests check one wrong token and one malformed message at most',
     [E + 'server/eventer_server.py', E + 'eventer/server.py', E + 'eventer/client.py'],
     [('_on_connected', E + 'server/eventer_server.py'), ('_connection_loop', E + 'eventer/server.py')],
     ['connect results', 'get_conn_infos/get_client_names', 'registered events'])

prop('C08', 'Client lifecycle events and operational status reach everyone truthfully',
     "While the server is operational every admitted client connection causes exactly one CONNECTED and, after it ends, exactly one DISCONNECTED event, of type (event, <server id>, eventer, <client name>) "
     "and with that connection as source, in that order, and the reported set of client names is exactly that of the current connections. "
     "A client's status is the server's status at connection time followed by each later change exactly once and in order, so that it always converges to the server's; registrations of clients are refused (answered with a failure) while the server has no "
     "operational engine.",
     ['schedules', 'histories'],
     'any interleaving of client connects, disconnects, engine starts and stops and status changes',
     'tests drive a single client through a single change',
     [E + 'server/eventer_server.py', E + 'eventer/server.py', E + 'eventer/client.py'],
     [('set_status', E + 'server/eventer_server.py'), ('_on_connected/_on_disconnected', E + 'server/eventer_server.py'), ('set_status', E + 'eventer/server.py')],
     ['events registered with the engine', 'status_cb sequences', 'Client.status', 'get_client_names'])

prop('C09', 'Latest query returns exactly the latest event of every matching type',
     "A latest query returns, for every event type that matches the queried types (all when none are given) and the storage's latest subscription, exactly one event - the latest accepted one of that type - and nothing else, "
     "whether or not it has been flushed, before and after a restart. The latest of two events of one server is the one with the greater id, of two servers the one with the greater timestamp (of equal timestamps the later accepted one). After a restart with changed subscriptions or conditions, only events allowed by the new configuration are returned.",
     ['inputs', 'histories', 'configurations'],
     'any sequence of registered batches (multiple servers, any payloads and types), flushes, restarts and reconfigurations, and any query types with wildcards',
     'tests use a few handpicked types and orders',
     [E + 'backends/lmdb/latestdb.py', E + 'backends/lmdb/backend.py'],
     [('LatestDb.query', E + 'backends/lmdb/latestdb.py')],
     ['LmdbBackend.query(QueryLatestParams)'])

prop('C10', 'Timeseries query: exact filter, total order and lossless paging',
     "A timeseries query answers from the first configured partition with the requested ordering criterion whose subscription can match the requested types, and returns exactly the stored events of that partition matching types and both time ranges (bounds included; "
     "events without source timestamp never match a source time bound and are not part of partitions ordered by it), sorted by the requested timestamp with ties by event id, ascending or descending, cut at the smaller of requested and configured maximum. 'More follows' is set exactly if something was cut, and "
     "paging with the last received event id yields each event once. The answer does not depend on which events have already been flushed.",
     ['inputs', 'histories', 'configurations', 'schedules'],
     'any partitions, any sequence of batches from several servers with out of order source timestamps (and server timestamps), any query parameters, with flushes and cleanups at any time between or concurrent with queries',
     'tests query mostly flushed data registered in timestamp order',
     [E + 'backends/lmdb/timeseriesdb.py'],
     [('_query_partition', E + 'backends/lmdb/timeseriesdb.py'), ('_ext_query_partition_events_range', E + 'backends/lmdb/timeseriesdb.py')],
     ['LmdbBackend.query(QueryTimeseriesParams)'])

prop('C11', 'Server query: every stored event of a server once, in id order, resumable',
     "A server query returns the stored events of the given server (those still held as latest or in some timeseries partition) with ids greater than the given last id, each exactly once and in increasing id order, cut at the smaller of "
     "requested and built-in maximum with 'more follows' set exactly if something was cut; so repeating it with the last received id walks through everything. With the persisted flag it returns only events that have been flushed; without it also all "
     "others (an event replaced as latest may be returned until the flush that removes it). This holds also after restarts with changed subscriptions or conditions (an id never yields another event).",
     ['inputs', 'histories', 'configurations', 'schedules'],
     'any sequence of registered batches of several servers, flushes, cleanups, restarts and reconfigurations, any last id (existing or not) and any limit',
     'tests use few events, one server and never reconfigure',
     [E + 'backends/lmdb/refdb.py', E + 'backends/lmdb/backend.py'],
     [('RefDb.query', E + 'backends/lmdb/refdb.py'), ('ext_write', E + 'backends/lmdb/refdb.py')],
     ['LmdbBackend.query(QueryServerParams)'])

prop('C12', 'Durability: flushed or cleanly closed events are all there after reopen',
     "When a flush completes, or the storage is closed normally, every event accepted before is on disk: after closing and reopening the same database all queries (latest, timeseries, server) and the last event ids give the same answers as before (but for events already replaced as latest, which a server query may lose). Registered batches "
     "are reported as persisted exactly once each, in registration order and only after they are on disk, and a flush that has been requested always completes or fails with a 'closed' error.",
     ['histories', 'schedules', 'configurations'],
     'any sequence of registrations, concurrent flush requests, periodic flushes, closes (with requests in progress) and reopens',
     'tests reopen once after a handful of events',
     [E + 'backends/lmdb/backend.py', E + 'backends/lmdb/environment.py'],
     [('_flush_loop', E + 'backends/lmdb/backend.py'), ('_ext_flush', E + 'backends/lmdb/backend.py')],
     ['flushed_events_cb', 'queries before close and after reopen'])

prop('C13', 'Crash safety: after a crash storage is a whole prefix, with all persisted events',
     "If the process or machine dies at any moment, the database reopens without error and contains exactly the effect of a prefix of the registered batches: never part of a batch, never a state where latest data, timeseries, references, counters and last ids disagree. "
     "The prefix includes every batch that was already reported as persisted and every batch covered by a completed flush.",
     ['crash_points', 'schedules'],
     'every point between two writes to the database file (and every loss of writes not yet synced), for any workload of registrations, flushes and cleanups',
     'the test suite never crashes anything',
     [E + 'backends/lmdb/backend.py', E + 'backends/lmdb/environment.py', E + 'backends/lmdb/common.py'],
     [('_ext_flush single transaction', E + 'backends/lmdb/backend.py')],
     ['database images at crash points, reopened with the real backend'])

prop('C14', 'Retention keeps what it must, drops what it may, and leaves no dangling data',
     "Cleanup removes from a timeseries partition with a limit only the oldest events (by the partition's order) and only while the partition exceeds its size or entry count limit or the oldest event is older than its duration, never going below its minimum number of entries; "
     "partitions without limit and latest data are never cleaned up, and after cleanup has run no configured limit stays exceeded. "
     "At all times the on-disk databases agree: every stored event has its reference, every reference leads to its event, and the partition counters equal the number of stored entries.",
     ['histories', 'configurations', 'schedules'],
     'any partitions and limits (alone or combined), any batches, with cleanup running concurrently with registrations, flushes, queries and restarts',
     'tests clean up one partition with one limit once',
     [E + 'backends/lmdb/timeseriesdb.py', E + 'backends/lmdb/refdb.py', E + 'backends/lmdb/backend.py'],
     [('_ext_cleanup_partition', E + 'backends/lmdb/timeseriesdb.py'), ('ext_cleanup', E + 'backends/lmdb/refdb.py')],
     ['queries', 'raw contents of the database file read with lmdb'])

prop('C15', 'Admission: stale or condition-violating events never get stored',
     "The storage accepts an event only if its id is greater than the last accepted id of its server, its timestamp is not less than that server's last accepted one, and its payload satisfies all conditions whose subscription matches its type; an event that fails any of this leaves no "
     "trace in any query while the other events of its batch are stored. Thus replaying batches that were already accepted changes nothing. The last event id of a server is the greatest id ever registered with it, stored or not, also after reopen.",
     ['inputs', 'histories', 'configurations'],
     'any batches with duplicates, id and clock regressions, several servers, any condition trees (all/any/json path, type, value) and any payloads',
     'tests use a few single-condition examples',
     [E + 'backends/lmdb/backend.py', E + 'backends/lmdb/conditions.py', E + 'backends/lmdb/systemdb.py'],
     [('register', E + 'backends/lmdb/backend.py'), ('Conditions.matches', E + 'backends/lmdb/conditions.py')],
     ['queries after registration', 'get_last_event_id'])

prop('C16', 'Encodings are lossless and keep order',
     "Every event, register event, query and query result that can be expressed in the API survives encoding and decoding unchanged, both over the eventer protocol and in the database (types, ids, timestamps before and after 1970, JSON and binary payloads, absent values). "
     "The binary form of database keys (ids, timestamps) sorts exactly as their logical values sort, and conversions between timestamps and bytes, floats or datetimes are exact inverses to microsecond precision (floats: to the precision of a float) over the datetime range.",
     ['inputs'],
     'all values of the types within their representable ranges, including extreme, negative and boundary ones',
     'tests use a handful of values',
     [E + 'common/encoder.py', E + 'common/common.py', E + 'backends/lmdb/common.py', 'schemas_sbs/eventer.sbs'],
     [('event_to_sbs/event_from_sbs', E + 'common/encoder.py'), ('timestamp_*', E + 'common/encoder.py'), ('db_defs', E + 'backends/lmdb/common.py')],
     ['public conversion functions'])

prop('C17', 'Memory storage answers queries like the reference semantics',
     "The in-memory storage keeps everything that was registered and answers latest, timeseries and server queries by the documented semantics (exact filtering, ordering, limits with 'more follows', paging by last id, bounds included), "
     "gives the true last event id of each server, and reports each registered batch exactly once as registered and as persisted. An engine running on it behaves as on the on-disk storage. The dummy storage reports batches in the same way, keeps nothing and always answers that there is nothing.",
     ['inputs', 'histories'],
     'any sequence of batches of several servers and any query parameters',
     'tests exercise a few queries; several query kinds are never run',
     [E + 'backends/memory.py', E + 'backends/dummy.py'],
     [('MemoryBackend', E + 'backends/memory.py'), ('DummyBackend', E + 'backends/dummy.py')],
     ['MemoryBackend.query/get_last_event_id'])

prop('C18', 'Event type matching and subscription algebra are exact',
     "A queried type matches an event type exactly by the documented rule ('?' any one subtype anywhere, '*' any number of subtypes, only in last place), and a subscription matches exactly the union of its types; its own list of types denotes the same set, without repetitions or types that another one, ending with '*', covers literally. "
     "Union and intersection of subscriptions match exactly the set union and intersection, and two subscriptions are disjoint exactly when no event type matches both. "
     "An event type collection returns for an event type exactly the values whose subscription matches, each once, also after removing values.",
     ['inputs'],
     'all sets of query types over all alphabets and lengths, and all event types',
     'tests list some tens of examples',
     [E + 'common/matches.py', E + 'common/subscription/common.py', E + 'common/subscription/pysubscription.py', E + 'common/collection/pytree.py', E + 'common/collection/pylist.py'],
     [('matches_query_type', E + 'common/matches.py'), ('PySubscription', E + 'common/subscription/pysubscription.py'), ('PyTreeCollection', E + 'common/collection/pytree.py')],
     ['public functions'])

prop('C19', 'Redundant servers converge: no replicated event lost, reordered or invented',
     "A server that follows another one stores the other server's events in the original order with unchanged ids and contents, each once and whole sessions at a time, no matter how often and where the connection breaks or either side restarts; "
     "as soon as it reports being synced and all persisted events have been notified, its storage answers server queries for the other server's events exactly as the other one does (for stored events it is configured to accept). "
     "It never stores anything that is not an event of the remote server persisted there.",
     ['schedules', 'fault_sequences', 'histories', 'crash_points'],
     'any workload on the remote server during synchronization, any page boundaries, and connection cuts at any point of the synchronization and of live following',
     'tests use a scripted remote with a handful of events and no cuts',
     [E + 'server/eventer_client.py', E + 'server/eventer_client_runner.py', E + 'eventer/client.py', E + 'eventer/server.py'],
     [('_synchronize', E + 'server/eventer_client.py'), ('_on_events', E + 'server/eventer_client.py')],
     ['batches registered in the follower storage', 'server queries on both sides'])

prop('C20', 'At most one operational engine, with truthful status and sync reporting',
     "The engine of a server that uses a monitor is started only when the monitor blesses the server and no remote server it is connected to reports an active engine (any status but STANDBY), it then does start, and it is stopped when the blessing is lost. "
     "The status goes from STANDBY over STARTING, OPERATIONAL and STOPPING to STANDBY again, in this order (a failed or interrupted start skips the rest up to STOPPING), "
     "and before STANDBY is reported the engine is closed, its STOPPED event is its last one and all its events are persisted. A follower's synchronization progress is registered with the followed server, if it is operational, as the event (event, <follower id>, synced, <followed id>) with states CONNECTED, SYNCING, SYNCED (with count of new events) in that order "
     "per connection, and the last state is repeated (with null count) once for each engine started there later; the follower's own engine, if it runs, gets the same events. "
     "Announced servers of other groups, without valid data or with another token are never connected to. A remote server that became unreachable, announced or not any more, no longer counts as active. A restart asked for by a module, also while its engine is being created, replaces the engine. A restart of the engine, a reset of readiness asked for by a module, or the loss of a remote connection never terminates or blocks the server; the end of its engine, storage or monitor connection ends the server with everything persisted.",
     ['schedules', 'fault_sequences', 'histories'],
     'any interleaving of blessing changes, remote status changes, connection losses, engine restarts and synchronizations',
     'tests drive one transition at a time with mocks',
     [E + 'server/engine_runner.py', E + 'server/eventer_client_runner.py', E + 'server/main_runner.py', E + 'server/eventer_server.py'],
     [('EngineRunner', E + 'server/engine_runner.py'), ('EventerClientRunner', E + 'server/eventer_client_runner.py')],
     ['status notifications', 'registered events', 'eventer clients'])

prop('C21', 'A component runs exactly while it is blessed, ready and connected to the active event server',
     "An event component follows the active event server: the first component of the configured server group, in the order given by the monitor, whose blessing request token is set and equal to its response token, provided that its data are valid and its server token matches the expected one. The component's runner is created only while the component itself is blessed and ready and only with a client connected to that server, identified and subscribed as configured; there is at most one runner and one connection at a time, and the previous runner and client are completely closed before next ones are created. "
     "When the active server changes or disappears, the connection is lost (even while a runner is being created), or blessing or readiness is lost, the runner and the client are closed, and they are created again once conditions allow it, while changes of the monitor's state that concern other components leave them as they are; a runner that closes by itself, or whose creation fails, closes the component. Closing the component closes its runner, its client and the connection. Notified events, statuses, monitor states and close requests are passed to the callbacks.",
     ['schedules', 'fault_sequences', 'histories'],
     'any sequence and timing of monitor state changes, connection losses, server failures and runner closures',
     'tests check single transitions with generous sleeps',
     [E + 'component.py'],
     [('Component', E + 'component.py')],
     ['runner_cb calls and runner lifetime', 'connections seen by event servers', 'callbacks of the component'])

prop('C22', 'Database conversion keeps all events',
     "Converting a database of any supported older version to the current one yields a database that the current server opens and that contains exactly the old data: every latest event, every timeseries entry with order preserved, the last event ids and timestamps, all with unchanged types, timestamps and payloads (ids mapped injectively "
     "and order preserving), with references and counters consistent. The source database is not modified, and a failed conversion leaves no usable target.",
     ['inputs', 'histories', 'configurations'],
     'any contents of the old database: any event types, payload kinds, multiple servers and partitions',
     'there are no tests of conversion of arbitrary data',
     [E + 'backends/lmdb/convert/main.py', E + 'backends/lmdb/convert/convert_v06_to_v07.py', E + 'backends/lmdb/convert/convert_v07_to_v09.py',
      E + 'backends/lmdb/convert/v06.py', E + 'backends/lmdb/convert/v07.py', E + 'backends/lmdb/convert/v09.py'],
     [('convert', E + 'backends/lmdb/convert/main.py')],
     ['converted database read with the real backend'])

prop('C23', 'Database manager tools show and copy exactly what is stored',
     "The database manager's copy command produces a database equal in content to the source (skipping latest events or timeseries, together with references to them, as asked), and its query commands print exactly the stored settings, last ids, last timestamps, latest events, partitions, timeseries and references "
     "that match the given filter arguments. A copy which fails or is killed holds nothing or everything; commands used on the database of a running server see only completely flushed contents. Existing targets are refused and none of the commands modifies the source database.",
     ['inputs', 'configurations', 'crash_points'],
     'any database written by the current server and any combination of command arguments',
     'there are no tests of these commands',
     [E + 'backends/lmdb/manager/copy.py', E + 'backends/lmdb/manager/query.py', E + 'backends/lmdb/manager/main.py'],
     [('copy', E + 'backends/lmdb/manager/copy.py'), ('query', E + 'backends/lmdb/manager/query.py')],
     ['stdout of the commands', 'copied database'])

prop('C24', 'Event manager commands do what they print',
     "The event manager's register command registers exactly the given event and reports success exactly if the server accepted it; its query commands send exactly the query described by the command line and print all returned events; its subscribe command prints every matching event once, in order.",
     ['inputs', 'histories'],
     'any combination of documented arguments, any payloads and event types, against a live server',
     'there are no tests of these commands',
     [E + 'manager/main.py', E + 'manager/common.py'],
     [('main', E + 'manager/main.py')],
     ['exit status and output of the commands', 'requests seen by the server'])

prop('C25', 'Administration requests: each answered with its own result',
     "Each administration request (reading and setting the logging configuration) is answered with the result of that very request, errors included, for any number of concurrent or abandoned requests; a configuration that was set is the one read afterwards and is applied to the server process. "
     "A failed or malformed request hurts at most its own connection, and requests pending when the connection ends fail with a connection error.",
     ['schedules', 'fault_sequences', 'inputs'],
     'any number of concurrent clients and requests, cancelled requests, failing callbacks and cut connections',
     'tests issue one request at a time',
     [E + 'adminer/client.py', E + 'adminer/server.py', E + 'server/adminer_server.py'],
     [('_receive_loop', E + 'adminer/client.py'), ('_connection_loop', E + 'adminer/server.py')],
     ['results of client calls', 'calls of server callbacks'])

prop('C26', 'Native extensions are memory safe and equal to the reference matching',
     "The native subscription and collection extensions, given any input that Python can pass, never read or write memory out of bounds, use freed memory, leak references or crash, and give the same answers as the reference matching rules "
     "(matches, disjointness, list of types, collection lookup and removal), raising a Python exception on unusable input.",
     ['inputs', 'histories'],
     'all sequences of calls with any event types (any strings, lengths, wildcards) and malformed arguments, including allocation failures',
     'the extensions are not even built in the tested configuration',
     ['src_c/py/collection/_ctree.c', 'src_c/py/subscription/_csubscription.c'],
     [('Subscription_*', 'src_c/py/subscription/_csubscription.c'), ('Collection_*', 'src_c/py/collection/_ctree.c')],
     ['return values, exceptions and sanitizer reports'])

prop('C27', 'A whole server keeps its promises to clients over its lifetime',
     "With the real server process, a client that got its registration confirmed can immediately query the event, every persisted-mode notification it ever received is still answered by queries after the process is killed and restarted, "
     "and registered- and persisted-mode clients see the same sessions in the same order. Terminating the server normally loses nothing that was confirmed and clients connected till then are notified of all of it; a server whose disk gets full ends without losing anything that was reported as persisted, and the server comes up again with continuing identifiers.",
     ['histories', 'schedules', 'crash_points'],
     'any client workload and any kill or termination time, over several generations of the server process',
     'tests never run the server process',
     [E + 'server/main.py', E + 'server/main_runner.py', E + 'server/eventer_server.py', E + 'backends/lmdb/backend.py'],
     [('MainRunner', E + 'server/main_runner.py')],
     ['eventer clients connected to the server process'])

prop('C28', 'Finished work leaves nothing behind',
     "A process that repeats the same work - requests answered, cancelled or abandoned, clients connecting, refused and disconnecting, sources and modules created and closed, sessions processed, conversions of persisted and latest data, flushes and cleanups - does not grow: it holds no more objects, tasks, threads, "
     "open files or sockets after any number of repetitions than after the first few, and after everything is closed no task, thread, socket or file opened by it remains.",
     ['histories', 'schedules', 'fault_sequences'],
     'any number of repetitions of any mixture of ordinary, cancelled and failing operations',
     'tests run each operation once and never look at what remains',
     [E + 'eventer/client.py', E + 'eventer/server.py', E + 'adminer/client.py', E + 'adminer/server.py', E + 'server/engine.py',
      E + 'server/eventer_client.py', E + 'backends/lmdb/backend.py', E + 'backends/lmdb/environment.py', E + 'component.py', E + 'server/main_runner.py'],
     [('Client', E + 'eventer/client.py'), ('Server', E + 'eventer/server.py'), ('LmdbBackend', E + 'backends/lmdb/backend.py')],
     ['numbers of live objects, memory blocks, tasks, threads and file descriptors after each cycle of work'])

prop('C29', 'Nothing a client sends harms others',
     "Whatever well-formed messages a client sends - values that cannot be stored or encoded, timestamps out of range, nesting, types, names and subscriptions of extreme size, unusable query parameters - the server and its storage keep working and all other clients keep being served: "
     "an unusable registration or query is refused with an error, or at most ends the connection that sent it. Everything that was accepted is notified, can be queried and is found in storage afterwards, and events registered by others are never lost, delayed forever or made unreadable by it.",
     ['inputs', 'histories'],
     'any values in any well-formed message of any connection, mixed with any other work of the server',
     'tests send only sensible values and only to single components',
     [E + 'eventer/server.py', E + 'eventer/connection.py', E + 'common/encoder.py', E + 'backends/lmdb/backend.py', E + 'server/eventer_server.py'],
     [('register_event_from_sbs', E + 'common/encoder.py'), ('_connection_loop', E + 'eventer/server.py')],
     ['notifications, answers and connections of well behaved clients', 'contents of the storage after the server is closed'])

prop('C30', 'A failing disk never makes the storage lie',
     "When writing the database file fails at any point - disk full, input/output error, short write, failed sync, once or for good, also while the file is created - the on-disk storage either goes on correctly or ends, and never hangs: queries return exactly what was registered or fail, nothing is reported as persisted that is not in the file, batches are reported in order of registration without gaps, "
     "and the file that is left (also after a kill or power loss at that moment) holds a whole prefix of the registered batches containing everything that was reported. The storage opens it again and works.",
     ['fault_sequences', 'crash_points', 'histories'],
     'any position, number and kind of failing file operations in any history of registrations, flushes and restarts',
     'tests never let a file operation fail',
     [E + 'backends/lmdb/backend.py', E + 'backends/lmdb/environment.py'],
     [('_flush', E + 'backends/lmdb/backend.py'), ('Environment', E + 'backends/lmdb/environment.py')],
     ['persisted callbacks', 'results of registrations and queries', 'contents of the database file'])

prop('C31', 'A slow disk delays only what needs the disk',
     "While an operation of the disk (write, sync, truncate of the database file) takes long, an event server goes on: registrations are accepted, get their identifiers and are answered, notifications of registered events are delivered, latest queries return what was registered meanwhile, and clients are admitted. "
     "Nothing registered meanwhile is reported as persisted, no flush or closing completes, until the disk operations do; afterwards every batch is reported once, in order of registration, and is found in the reopened database.",
     ['schedules', 'histories'],
     'any disk operation of any flush that takes arbitrarily long, during any activity of clients',
     'tests run on a disk that is never slow, so blocking the event loop or reporting too early can not be seen',
     [E + 'backends/lmdb/backend.py', E + 'backends/lmdb/environment.py', E + 'server/engine.py', E + 'server/eventer_server.py'],
     [('_flush', E + 'backends/lmdb/backend.py'), ('Environment', E + 'backends/lmdb/environment.py'), ('EventerServer', E + 'server/eventer_server.py')],
     ['answers to requests', 'notifications', 'persisted callbacks', 'results of latest queries', 'contents of the reopened database'])

prop('C32', 'A storage opens only its own database',
     "The first identifier a database is opened with stays with it for good: afterwards it is opened with the same identifier or with none, and with nothing else. A database with another identifier or version, of an older format, or a file that is something else, is refused when the storage is created, without changing a byte of it and leaving nothing open, so that the right configuration works right after and returns everything that was registered. "
     "The same holds when creation is given up at any moment. A server whose storage can not be created ends without having listened for clients. A server that can not start for another reason, or is closed while it starts, leaves its database closed and usable.",
     ['inputs', 'histories', 'schedules'],
     'any identifiers, versions and contents of files, over any history of openings, refusals and canceled openings',
     'tests open fresh databases with one identifier',
     [E + 'backends/lmdb/systemdb.py', E + 'backends/lmdb/environment.py', E + 'backends/lmdb/backend.py', E + 'server/main_runner.py'],
     [('_ext_validate_settings', E + 'backends/lmdb/systemdb.py'), ('create', E + 'backends/lmdb/environment.py'), ('create', E + 'backends/lmdb/backend.py')],
     ['results of creation', 'bytes of database files', 'open files, tasks and threads', 'results of queries', 'listening ports'])

prop('C33', 'A server runs exactly with a valid configuration',
     "A configuration that violates the schema of the server, of its storage or of any of its modules - anywhere, however deep - or that refers to something that is no storage or no module is refused: the server ends unsuccessfully before it creates a database, a module or a log or does anything else. "
     "Every valid configuration, whether given as JSON, YAML or TOML file, on standard input or at the default place, is what the server runs with until it is asked to end: it accepts clients at its address with exactly its token, its events bear its server id, each configured module is created once with its own part of the configuration, events are stored, limited and persisted as the storage's part says and under its identifier, logs are written as configured, and the administration interface exists as configured and tells that log configuration.",
     ['inputs'],
     'any configuration in any form',
     'unit tests validate a few configurations and mock the servers creation',
     [E + 'server/main.py', E + 'server/main_runner.py', E + 'common/backend.py', E + 'common/module.py', 'schemas_json/server.yaml', 'schemas_json/backends/lmdb.yaml'],
     [('sync_main', E + 'server/main.py'), ('MainRunner._start', E + 'server/main_runner.py'), ('import_module_info', E + 'common/module.py')],
     ['exit code of process', 'files', 'clients answers and notifications', 'log'])

if __name__ == '__main__':
    for p in P:
        print(json.dumps(p))
