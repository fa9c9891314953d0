#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the statements are readable)"""
import json
K = 'crates/kuadrant-filter/src/'
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': [K + f if not f.startswith('/') else f[1:] for f in files],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


prop('C01', 'A guard call holds the request exactly until its reply is handled', '''
A gRPC action marked as a guard starts holding the request if and only if its call was actually dispatched, and that hold is
released exactly once when the reply for that call is handled, whatever the reply was and also when the pipeline was terminated
while the call was in flight and whatever wrappers the action runs under. Non-guard calls never hold or release anything, no other part of the system changes the number of
holds, and the request is held exactly while at least one hold is outstanding.''',
     ['schedules', 'histories', 'fault_sequences'], 'every order of dispatches, replies, failures and terminations over every action list',
     'the count is wrong only on particular reply outcomes (error status, undecodable body, missing data, termination in between) combined with particular wrappers; tests drive a few of those with mock tasks',
     ['kuadrant/context.rs', 'kuadrant/pipeline/tasks/dynamic.rs', 'kuadrant/pipeline/tasks/mod.rs', 'kuadrant/pipeline/tasks/failure_mode.rs', 'kuadrant/pipeline/tasks/tracing_decorator.rs', 'kuadrant/pipeline/executor.rs'],
     [('Barrier raise/lower/is_tripped', 'kuadrant/context.rs'), ('DynamicTask::apply and its reply processor', 'kuadrant/pipeline/tasks/dynamic.rs'), ('noop replacement of in-flight tasks', 'kuadrant/pipeline/executor.rs, tasks/mod.rs')])

prop('C02', 'A failed service action denies or continues as its failure mode says', '''
Every action that calls an auth, rate-limit or dynamic service runs under its service's failure mode: whenever the action
fails (evaluation, dispatch or reply), the errors metric is incremented once and the request is terminated with the default
500 reply if the mode is deny, or the action counts as done if it is allow. The mode keeps applying after the call was deferred and
when the action is retried later, results other than failure pass through unchanged.''',
     ['fault_sequences', 'configurations', 'histories'], 'every failure point of every service action under both modes',
     'each failure point times each mode times each wrapper has its own path; tests cover one or two',
     ['kuadrant/pipeline/tasks/failure_mode.rs', 'kuadrant/pipeline/blueprint.rs', 'services/mod.rs'],
     [('FailureModeTask::apply', 'kuadrant/pipeline/tasks/failure_mode.rs'), ('Blueprint::to_tasks wrapping', 'kuadrant/pipeline/blueprint.rs'), ('ServiceInstance::failure_mode', 'services/mod.rs')])

prop('C03', 'Termination stops the pipeline and its reply is sent once', '''
When an action ends the request, its terminal reply task runs exactly once, everything still queued is discarded and never runs,
in-flight calls are kept only to consume their replies without running any follow-up work, and teardown runs. From then on the
pipeline reports itself terminated and, once nothing is in flight, completes without asking for the request to be resumed.''',
     ['histories', 'schedules'], 'every position of the terminating action in the queue or among replies, every set of in-flight calls',
     'the interesting histories combine a terminating reply with other calls in flight and queued work',
     ['kuadrant/pipeline/executor.rs', 'kuadrant/pipeline/tasks/mod.rs'],
     [('Terminate handling in eval and digest', 'kuadrant/pipeline/executor.rs'), ('noop processor', 'kuadrant/pipeline/tasks/mod.rs')])

prop('C04', 'No action is lost, duplicated or run before its dependencies', '''
An evaluation round considers every queued action in order and either runs it exactly once or keeps it queued because one of its dependencies has not completed;
an action that is done or failed is recorded as completed, a deferred one is tracked under the token of its call, and requeued work goes back to the queue in its order (follow-up work of a reply ahead of everything queued, after its parent is recorded as completed).
A reply is handed to the task registered for exactly that token and that task is removed, a reply for an unknown token changes nothing, and the pipeline reports completion exactly when nothing is queued and nothing is in flight.''',
     ['histories', 'schedules'], 'every queue content, dependency set, outcome and reply order',
     'bookkeeping errors need specific combinations of outcomes in one round',
     ['kuadrant/pipeline/executor.rs'], [('eval, process_tasks, digest, From<Pipeline>', 'kuadrant/pipeline/executor.rs')])

prop('C05', 'Teardown runs exactly once, when the pipeline is over', '''
Teardown actions run exactly once per pipeline: right after termination, or when an evaluation round leaves nothing queued and nothing in flight, and never earlier.
A teardown action that started a call is tracked under its token until the reply has been consumed, and teardown ends the request span before exporting, so that a finished pipeline leaves no span open.''',
     ['histories', 'schedules'], 'every pipeline history with and without termination',
     'teardown at the wrong moment or twice needs multi-round histories with in-flight calls',
     ['kuadrant/pipeline/executor.rs', 'kuadrant/pipeline/tasks/export_traces.rs', 'kuadrant/context.rs'],
     [('execute_teardown', 'kuadrant/pipeline/executor.rs'), ('ExportTracesTask::execute', 'kuadrant/pipeline/tasks/export_traces.rs')])

prop('C06', 'Reply status and size reach exactly the reply they belong to', '''
The status and size of a gRPC reply are recorded before the waiting task runs, are consumed by exactly one reader, and are never overwritten while unread.
Every kind of waiting task, including the placeholder that replaces work of a terminated pipeline, consumes them, so no later reply can be interpreted with the data of an earlier one.''',
     ['histories', 'fault_sequences'], 'every sequence of replies and waiting task kinds',
     'stale data shows only when one reply leaves its data behind and another one follows',
     ['kuadrant/context.rs', 'kuadrant/pipeline/executor.rs', 'kuadrant/pipeline/tasks/mod.rs', 'kuadrant/pipeline/tasks/dynamic.rs'],
     [('set_grpc_response_data / get_grpc_response_data', 'kuadrant/context.rs')])

prop('C07', 'Follow-up actions run only on a decoded OK reply', '''
The actions that follow a service reply are scheduled only when the reply data is present, its gRPC status is OK and its message was decoded, and then exactly those actions in order with the decoded message bound to the action's variable for its dependents.
A missing, non-OK or undecodable reply makes the action fail, and an OK reply without follow-up actions completes it.''',
     ['inputs', 'fault_sequences'], 'every status code, body and follow-up list', 'status codes and bodies are unbounded; tests use a handful',
     ['kuadrant/pipeline/tasks/dynamic.rs', 'services/dynamic.rs', 'services/mod.rs'], [('process_dynamic_response', 'kuadrant/pipeline/tasks/dynamic.rs')])

prop('C08', 'An action acts only when its predicate is definitely true', '''
No action sends a reply, changes headers, stores data, calls a service, fails the request or counts as such unless its own predicate evaluated to true in that same run.
A false predicate makes the action done without effect, an evaluation error makes it fail without effect, and a predicate waiting for a body never acts.''',
     ['inputs', 'configurations'], 'every task kind and every predicate outcome', 'each task kind implements the gate by hand',
     ['kuadrant/pipeline/tasks/'], [('Task::apply of every task kind', 'kuadrant/pipeline/tasks/*.rs')])

prop('C09', 'An action waiting for a body is retried until the stream ends, then fails', '''
An action whose predicate or expression needs body data that has not arrived is put back unchanged and as itself, so that it is evaluated again later.
Once the body it depends on has reached the end of stream and its data is still missing, the action fails instead of waiting forever.''',
     ['inputs', 'schedules'], 'every split of bodies into chunks and every end-of-stream position, for every task kind', 'needs a body that ends without the field, for each task kind and each of its expressions',
     ['kuadrant/pipeline/tasks/'], [('Pending arms of every Task::apply', 'kuadrant/pipeline/tasks/*.rs')])

prop('C10', 'A reserved store path stays pending exactly while its writer lives', '''
From the moment a store action is created until it is finished (or discarded), its path is reported as pending to every reader unless a value was already stored;
every creation of such an action adds one reservation and every end of it removes exactly that one, on every outcome, retry and termination, so the path is never left pending without a writer nor forgotten while another writer remains.''',
     ['histories', 'fault_sequences'], 'every number of writers of a path and every way each can end', 'reference counting errors need several writers of one path with different ends',
     ['kuadrant/context.rs', 'kuadrant/pipeline/tasks/store.rs'], [('PathReservation new/Drop, ValueStore', 'kuadrant/context.rs'), ('StoreTask', 'kuadrant/pipeline/tasks/store.rs')])

prop('C11', 'A reply variable is visible to its own follow-ups only', '''
A value bound by an action's reply is visible, under its configured name, to expressions of that action and of actions nested below it, and to no other action, however identifiers are chosen.
The follow-up actions of a reply get identifiers nested below their parent, distinct from each other.''',
     ['configurations', 'histories'], 'every action tree, including ten and more siblings (identifiers 1 and 10)', 'prefix confusions need particular identifier pairs',
     ['kuadrant/context.rs', 'kuadrant/pipeline/blueprint.rs'], [('CelScope, is_ancestor', 'kuadrant/context.rs'), ('on_reply ids', 'kuadrant/pipeline/blueprint.rs')])

prop('C12', 'Attribute reads are cached per path and agree with what was written', '''
An attribute is fetched from the host at most once per path while a value is cached, a missing-yet attribute is reported as pending and never cached, and an error is neither cached nor turned into a value.
After the filter sets an attribute or a header map, later reads see the written value, and a failed write leaves what readers see unchanged.
An expression sees the value that was read, as its own type: a missing attribute as null, every header with all its values joined by commas, and text of no known type as the JSON it is, with all its members, or else as that text.''',
     ['histories', 'fault_sequences'], 'every sequence of reads, writes and host errors', 'needs sequences of host failures between reads and writes',
     ['kuadrant/cache.rs', 'kuadrant/context.rs'], [('AttributeCache', 'kuadrant/cache.rs'), ('fetch_attribute, store_attribute_*', 'kuadrant/context.rs')])

prop('C13', 'Each host call gets exactly the configured target and evaluated payload', '''
A service call goes to the endpoint, gRPC service, method and timeout configured for that service with the evaluated and encoded message; a reply sends the status, headers and body of its evaluated response; and header actions write back the target's current headers changed only as evaluated.
Reading a reply uses the size reported for that reply.''',
     ['configurations', 'inputs'], 'every service, action and payload', 'swapped or stale arguments of equal types are invisible unless a test happens to compare that argument',
     ['kuadrant/context.rs', 'services/dynamic.rs', 'services/tracing.rs', 'kuadrant/pipeline/tasks/send_reply.rs', 'kuadrant/pipeline/tasks/headers.rs', 'services/mod.rs'],
     [('dispatch paths to the host trait', 'kuadrant/context.rs, services/'), ('reply, header and body host calls', 'kuadrant/pipeline/tasks/')])

prop('C14', 'The most specific matching action set handles the request', '''
The request host, lower-cased and without port, selects the action sets registered for the most specific hostname pattern covering it; the first of them, in configuration order, whose route predicates all hold is used, and no action set whose predicates do not all hold is ever used.
Hostnames are registered and looked up under the same normal form, every configured hostname and action set is registered, and an error in deciding is reported instead of choosing.''',
     ['configurations', 'inputs'], 'every configuration of hostnames and predicates and every host header', 'overlapping patterns and case or port variants are unbounded',
     ['kuadrant/pipeline/factory.rs'], [('PipelineFactory::try_from, build, select_blueprint', 'kuadrant/pipeline/factory.rs')])

prop('C15', 'Every outbound call carries one stable request id and trace context', '''
Every call made to an external service for a request carries the request identifier and the propagated trace headers of that request, with the same identifier on every call and in the reply to the client.
The identifier is the client's if it sent one and otherwise generated once; trace headers come from the active request span or else from the incoming trace context.''',
     ['histories', 'inputs'], 'every sequence of outbound calls of a request', 'requires comparing identifiers across all calls of one request',
     ['kuadrant/context.rs', 'services/mod.rs', 'services/tracing.rs', 'services/dynamic.rs'], [('ReqRespCtx::dispatch_grpc_call, get_tracing_headers, Tracker', 'kuadrant/context.rs')])

prop('C16', 'Counters are registered under their own names and count once per event', '''
Each counter of the filter is registered with its own distinct metric name and every accessor returns its own counter.
A reply sent as a denial counts exactly once as denied, a failing action that ends the request and a failure handled by the failure mode each count exactly once as an error, on every path, and a counter increment adds exactly one to that counter only.''',
     ['histories', 'configurations'], 'every path that reaches a counted event', 'double or missing counts need the rare path',
     ['metrics/mod.rs', 'kuadrant/pipeline/tasks/send_reply.rs', 'kuadrant/pipeline/tasks/fail.rs', 'kuadrant/pipeline/tasks/failure_mode.rs'],
     [('METRICS', 'metrics/mod.rs')])

prop('C17', 'Descriptor fetching never loses, mixes up or stalls on a service', '''
Every fetch asks the configured descriptor service for exactly the services whose descriptor is missing, and marks exactly those as waiting for its token; when nothing was dispatched nothing is marked, so they are asked for again. A service is not asked for again while a fetch for it is outstanding.
A reply is applied only if some service waits for its token and it decodes; each returned descriptor that decodes, builds and contains its service is filed under the cluster and service it names, none is dropped because another one is bad, no other entry changes, and built-in descriptors are never replaced. Resetting a token makes exactly the services still waiting for it missing again.
Expecting a service again never loses what is known about it, polling does not stop while a service is missing, and a lookup answers with the descriptor recorded for that cluster and service or not at all.''',
     ['histories', 'fault_sequences'], 'every state of the table, every reply (stale, failed, malformed, partial) and every order of operations', 'needs stale, partial or malformed replies between fetches',
     ['filter/descriptor_manager.rs'], [('DescriptorManager', 'filter/descriptor_manager.rs')])

prop('C18', 'Locks are held briefly, never nested and never leaked across calls out', '''
No code path acquires a lock while already holding one that can be the same or be taken in the opposite order elsewhere, and no host call, task or user expression runs while a lock is held.
A poisoned lock is never turned into a crash of request processing.''',
     ['schedules', 'programs'], 'every call path through the program', 'a re-entrant acquisition is one rare call path away',
     ['kuadrant/cache.rs', 'kuadrant/context.rs', 'filter/descriptor_manager.rs', 'tracing/processor.rs', 'tracing/mod.rs'], [('every Mutex/RwLock acquisition', 'crate wide')])

prop('C19', 'No request, reply or configuration data can crash the filter', '''
No data coming from a client, an upstream service, the host or the configuration can make request processing panic: every panicking operation (unwrap, expect, indexing, slicing, arithmetic, explicit panic) is either unreachable from those inputs or guarded by a check that dominates it on every path.''',
     ['inputs', 'fault_sequences'], 'every byte string a peer can send', 'crashing inputs are the ones nobody thought of writing down',
     ['data/cel.rs', 'data/cel/strings.rs', 'kuadrant/', 'services/'], [('every panic site', 'crate wide')])

prop('C20', 'Request data never becomes expression source', '''
Text that is compiled as an expression consists only of configuration and program constants: no header, path, body, identifier or reply of a peer is ever spliced into expression source.''',
     ['inputs'], 'every value a peer can send', 'an injection needs one crafted value; tests use tame ones',
     ['kuadrant/pipeline/blueprint.rs', 'configuration/legacy_translation.rs', 'data/cel.rs'], [('every call that compiles an expression or predicate', 'crate wide')])

prop('C21', 'Numbers crossing into or out of expressions are never silently altered', '''
A number taken from an expression result and written to a message field or map key, or read back from a message, keeps its value, and a value that does not fit its destination is an error instead of a different number; only where the destination is floating point it becomes the nearest value there.
The status of a deny reply is the number of the response, or the default 500 when that is no valid number for a status; numeric host attributes are the little-endian value of exactly their eight bytes; and a number in a JSON text is read as floating point only if it is no integer.''',
     ['inputs'], 'every integer and floating point value', 'out-of-range values are a tiny part of the input space',
     ['services/dynamic/converters.rs', 'kuadrant/pipeline/tasks/send_reply.rs'], [('numeric conversions', 'services/dynamic/converters.rs')])

prop('C22', 'Every protobuf field kind has matching type, read and write conversions', '''
For every kind of message field the type announced to the expression language, the conversion of a received value and the conversion of a value to be sent agree with each other and with the field's kind, including map keys, timestamps and (when received) the JSON-like well-known types.
A value whose type does not match the field is rejected, and no field or element is dropped or written to another field.''',
     ['programs', 'inputs'], 'every field kind and every value kind', 'the product of field kinds and value kinds is only sampled',
     ['services/dynamic/converters.rs'], [('protobuf_kind_to_cel_type, proto_value_to_cel_val, cel_val_to_single_proto_value', 'services/dynamic/converters.rs')])

prop('C23', 'A configuration is used completely or rejected', '''
Every predicate, expression, action and service of an accepted configuration is compiled and takes part in processing; any part that does not compile or refers to an unknown service (the tracing service and requestData expressions included) rejects the whole configuration with an error.
Each documented key and name fills its own setting, a missing key becomes the documented default or an error, and each service type selects its own kind of client with its own gRPC service and method.''',
     ['configurations'], 'every configuration document', 'a silently dropped part only shows for the configuration that uses it',
     ['kuadrant/pipeline/blueprint.rs', 'kuadrant/pipeline/factory.rs', 'services/mod.rs', 'configuration.rs'], [('Blueprint::compile, compile_typed, ServiceInstance::from_config, serde defaults', 'kuadrant/pipeline, services, configuration')])

prop('C24', 'Legacy actions translate to typed actions with the same meaning', '''
A legacy action runs under the conjunction of its own predicates and, for rate limits, of the alternatives of its conditional data (a block without predicates is always an alternative).
Its domain, hits addend, descriptor entries (those of a block under the predicates of the block) and requestData reach the message with their keys and values unchanged: literal text escaped, expressions as whole expressions, so that operator precedence changes nothing.
Each service type gets the message, guard setting and reply handling belonging to it; the translated action keeps service and sources and is not terminal.
A rate-limit or auth reply that means deny always produces a terminal reply action, one that means allow only its header changes (and stored metadata), any other a terminal failure; the reply to a report never changes or ends the request.''',
     ['configurations'], 'every legacy action', 'combinations of predicates, conditional data and special keys are unbounded',
     ['configuration/legacy_translation.rs', 'kuadrant/pipeline/blueprint.rs'], [('legacy translation', 'configuration/legacy_translation.rs')])

prop('C25', 'Buffered spans are bounded, exported at most once and kept in order', '''
The number of spans waiting for export never exceeds the capacity of the buffer however many requests run, every finished span is buffered and only the oldest ones are dropped, and only when the buffer is full.
Taking spans for export empties the buffer and the export sends each taken span once and in order, so that no span is exported twice; spans are discarded otherwise only at shutdown.''',
     ['histories', 'schedules'], 'every sequence of span ends and exports', 'the bound matters only after very long histories',
     ['tracing/processor.rs'], [('BufferingSpanProcessor', 'tracing/processor.rs')])

prop('C26', 'Every attribute and body field an expression uses is prefetched for it', '''
Whatever an expression selects statically from a variable, and every body field it names by a literal, in any position of any kind of subexpression, is found when the expression is compiled.
Before it is evaluated, the host attributes among these are fetched and bound to their variables, and a body field not yet there makes it wait.
The body fields a service action needs (predicate, message, request data, follow-ups at any depth) are announced to a parsing task that runs before it, and those of a store action to its own parser.''',
     ['programs'], 'every expression shape', 'a missed subexpression kind shows only with an expression of that shape',
     ['data/cel.rs', 'kuadrant/pipeline/blueprint.rs', 'kuadrant/pipeline/tasks/store.rs'], [('properties', 'data/cel.rs'), ('collect_body_values', 'kuadrant/pipeline/blueprint.rs')])

prop('C27', 'Sequential actions wait for everything before them, parallel ones for the fence', '''
An action configured as sequential waits for every action since (and including) the previous sequential one, a parallel action waits only for the previous sequential one, and a legacy action waits for its predecessor.
These dependencies reach the running task for every kind of action and are reported unchanged by every wrapper around it, and follow-up actions cannot set an execution mode.''',
     ['configurations'], 'every list of actions and execution modes', 'wrappers and action kinds each have their own copy',
     ['kuadrant/pipeline/blueprint.rs', 'kuadrant/pipeline/tasks/'], [('compute_dependencies', 'kuadrant/pipeline/blueprint.rs'), ('Task::dependencies implementations', 'kuadrant/pipeline/tasks/')])

prop('C28', 'Body fields come from the whole of their body, however it is cut into chunks', '''
A task that extracts fields from a body (a store action, token usage) extracts exactly the fields its own expressions ask of that body, from the bytes of that body: it reads from where its extractor stopped to the end of what the host holds,
feeds each piece it is given exactly once, whole and unchanged, and goes on (is put back or finishes) with nothing received left unread; put back, it keeps the same extractor with everything it was fed. The extraction is concluded exactly when the stream has ended;
a store action whose wanted fields are still missing then fails. An extractor keeps, appends or passes on every chunk exactly once, also one that ends within a character or a line (text is rejected only for being malformed, never for being cut short);
complete lines each go into an event once, and complete events are returned in order; for an event stream (chosen by content type) the fields come from the event before the last one. A value is stored under the field it was found for, in the context of the body it was read from.
(How the host counts buffered bytes, and whether it shows an accumulating buffer or one chunk at a time, is outside the source and not claimed.)''',
     ['schedules', 'inputs'], 'every way to cut a body into chunks', 'the number of ways to cut a body is exponential',
     ['kuadrant/pipeline/tasks/store.rs', 'kuadrant/pipeline/tasks/store/', 'kuadrant/pipeline/tasks/token_usage.rs'], [('StoreTask::apply', 'kuadrant/pipeline/tasks/store.rs'), ('TokenUsageTask::apply', 'kuadrant/pipeline/tasks/token_usage.rs'), ('EventParser, JsonBodyParser, SseBodyParser', 'kuadrant/pipeline/tasks/store/')])

prop('C29', 'Expression evaluation results match the expression language', '''
Evaluating an expression yields what the expression language defines for it, including the string helper functions.''',
     ['inputs', 'programs'], 'every expression and environment', 'values are unbounded', ['data/cel.rs', 'data/cel/strings.rs'], [('Expression::eval, strings', 'data/cel.rs')])

prop('C30', 'The filter phases report pause, continue and resume consistently', '''
In every phase callback the filter pauses the stream exactly while the request is held, resumes it once nothing holds it, and never drops a pipeline that is still in progress.''',
     ['schedules', 'histories'], 'every order of phase callbacks and replies', 'callback orders are unbounded',
     ['/crates/wasm-shim/src/filter/kuadrant_filter.rs'], [('KuadrantFilter callbacks', 'crates/wasm-shim/src/filter/kuadrant_filter.rs')])

if __name__ == '__main__':
    import os
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
