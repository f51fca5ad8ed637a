"""Source of /verif/properties.jsonl: run `python3 tools/props.py` to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files)))

U='openleadr/utils.py'; M='openleadr/messaging.py'; C='openleadr/client.py'; S='openleadr/server.py'
ES='openleadr/service/event_service.py'; PS='openleadr/service/poll_service.py'; RS='openleadr/service/report_service.py'
RG='openleadr/service/registration_service.py'; VS='openleadr/service/vtn_service.py'; PF='openleadr/preflight.py'
O='openleadr/objects.py'; T='openleadr/templates'; E='openleadr/enums.py'

p('C01','Messages survive a create/parse round trip',
  "For every supported message type and every payload within the documented domain, creating the message and parsing the resulting XML gives back the same message type and the same values: identifiers and free text exactly as given (never reinterpreted as numbers or booleans; only a request id that is a plain canonical integer may come back as that int), numbers, booleans, durations to the second and timestamps to the microsecond, targets, intervals, report descriptions and lists in the same order and number (a testEvent value other than 'false' reads as true). This holds for single-element as well as multi-element lists and for optional members being present or absent.",
  ['inputs'],"all message types; all texts (XML special characters, digits-only ids, 'true'), numbers, datetimes, durations, list lengths, presence/absence of optional members",
  "Tests convert one fixed sample per message type; the guarantee is over all values (e.g. an id '007', a name with '&', one event instead of two).",[M,U,T])
p('C02','Created messages are schema-valid and carry each value in its element',
  "Every message created from valid values, signed or not, is well-formed XML that validates against the OpenADR 2.0b schema, and an independent reader finds every given value in the element the OpenADR schema prescribes for it, with text properly escaped. Optional members that are not given do not appear in the message.",
  ['inputs'],"all message types and payloads within the domain, signed and unsigned",
  "The schema tests use fixed samples with harmless characters and never read the XML with anything but the library's own parser.",[M,T,PF])
p('C03','Durations and timestamps are encoded and decoded exactly',
  "Formatting any duration of whole seconds (zero, negative, longer than a day) yields a valid RFC5545/OpenADR duration that parses back to the same duration, and every valid duration text (years as 365 days, months as 30 days, weeks, days, hours, minutes, seconds, signs) parses to its value, while other text (apart from tolerated missing P or T designators) is rejected with ValueError. Every timezone-aware datetime formats as the UTC ISO8601 timestamp of the same instant, and UTC timestamps with zero to many fractional digits parse to the instant truncated to microseconds.",
  ['inputs'],"all durations and datetimes, in any timezone; all duration texts of the grammar and near-misses",
  "A handful of literals are tested.",[U])
p('C04','Only intact messages signed by the expected key verify',
  "A message signed by the library verifies against the signer's own certificate fingerprint, for every message content and both for the VTN and VEN side, and does not verify with a different expected fingerprint. After any change to the signed content, the signature, the digest or the replay-protection values, verification fails.",
  ['inputs','fault_sequences'],"all message contents, all single edits of text, attributes or elements in the signed parts, swapped certificates",
  "The tests tamper with one or two fixed spots.",[M,U])
p('C05','A signed message is accepted at most once and only while fresh',
  "A signed message is accepted the first time it is validated within five seconds after its timestamp, and every later validation of that same message is rejected, no matter how many other messages are validated in between or when. A message whose timestamp is more than five seconds old is rejected, as is a message without a timestamp or nonce; messages that differ in timestamp or nonce never cause one another to be rejected.",
  ['histories','schedules'],"all interleavings of signing, validating, replaying and time passing, including the exact boundary",
  "Tests replay a single message once and wait in real time.",[M])
p('C06','Over TLS a VEN can only act as itself',
  "Over mutual TLS, a request that carries a venID reaches the handlers only if the client's TLS certificate fingerprint equals the fingerprint that the VTN has for that venID and, when message signature verification is enabled, the message is also validly signed with the certificate of that same fingerprint. In all other cases (unknown venID, unknown fingerprint, someone else's certificate, tampered or replayed message) no handler runs and the reply is an OpenADR or HTTP error.",
  ['inputs','configurations'],"all combinations of claimed venID, TLS certificate, signing certificate, tampering, lookup kind, lookup result and verification setting",
  "The integration tests use one VEN certificate and mostly the happy path.",[M,VS,S])
p('C07','The VTN answers every request, with the right protocol error',
  "For any HTTP request body and Content-Type on any service endpoint the VTN answers: 400 for a wrong Content-Type or XML that is malformed or not schema-valid, a schema-valid OpenADR reply with response code 459 for a message type that does not belong to the endpoint, 452 for a vtnID that is not its own, the error's own code and description when a handler raises one of the library's protocol errors, and 500 when a handler raises anything else. Protocol errors on an oadrRequestEvent come as an oadrDistributeEvent with that error, the VTN's own id and no events. A failing request does not change how later, valid requests are answered, and a handled request gets a schema-valid reply with code 200 that carries the request's requestID, the venID and vtnID where the reply type has them.",
  ['inputs','fault_sequences'],"random and mutated XML, all message types on all endpoints, handler faults of every kind, sequences of those",
  "A few fixed bad requests are tested.",[VS,S,'openleadr/errors.py'])
p('C08','Unknown VENs are told to re-register and do not reach the handlers',
  "When a ven_lookup is configured, any message other than a registration query or registration request whose venID is unknown to the lookup (it returns None or has no registration_id) is answered with oadrRequestReregistration for that venID, without any handler running and without any change to the VTN's queues; a VEN that is known is served normally. This follows the lookup at the moment of each request, so VENs may come and go.",
  ['histories','inputs'],"histories of VENs becoming known/unknown and sending all kinds of messages, sync and async lookups",
  "One unknown VEN is tested.",[VS])
p('C09','Events are distributed in OpenADR order',
  "Whenever events are ordered for distribution, no event is lost, duplicated or altered in anything but its status and, when the status changes, its creation time: active events come before all others, active events are ordered by priority (1 highest, 0 or absent lowest) and then by start time, and other events by start time, with ties keeping their given order. This holds for events as dicts and as objects, and for a single event as well as lists.",
  ['inputs'],"all event lists with equal and distinct priorities, starts and statuses, at any moment",
  "Tests order a few fixed events.",[U])
p('C10','Event status follows the clock',
  "Each time the VTN distributes an event from its queue, or in reply to an event request, its status is the one that follows from the current time and its active period: far, near from the start of the ramp-up period, active from its start, completed from its end (an event of zero duration never completes), where a cancelled event always stays cancelled. If no active period is given, it spans the event's signal intervals. A naive start time is interpreted in the local timezone, and time moving forward never moves an event back to an earlier status.",
  ['inputs','histories'],"all active periods and instants, in particular the exact boundaries, dict and object events, any local timezone",
  "Tests check a handful of offsets in real time.",[U,O,ES])
p('C11','The VTN event queue delivers every event until it is done',
  "With the internal queue, every request for events by a VEN returns exactly that VEN's events: each added event, in its latest version, on every request until it has either been delivered once as completed or its cancellation has been confirmed by the VEN, and never events of another VEN. A poll returns them if and only if something was added or cancelled for that VEN since its previous poll, and otherwise an empty response; cancelling an event marks it cancelled and raises its modification number by one, and cancelling unknown events changes nothing.",
  ['histories','schedules'],"histories of adding, cancelling, polling, requesting, responding and time passing over several VENs",
  "Tests walk one or two fixed sequences with a single event.",[ES,PS,S,U])
p('C12','Event response and delivery callbacks fire for the right event',
  "The response callback (function, coroutine function or future) given for an event is invoked once, with the venID, eventID and opt type of the first oadrCreatedEvent response of that VEN for that event, and never because of responses of other VENs, to other events or to other modification numbers; the delivery callback is invoked for each distribution of that event to that VEN and at no other time. Every event response in a message is handled, a response to an unknown event or modification is answered with code 452, a response to an event that has been completed is accepted.",
  ['histories'],"histories over several VENs and events with the same or different event ids, single and multiple responses per message, stale and repeated responses",
  "Tests use one VEN and one event at a time.",[ES,S])
p('C13','The VEN processes each event version once and answers consistently',
  "For every sequence of distributed events, the VEN calls on_event exactly once for an event it does not hold yet, on_update_event exactly once for each later version with another modification number, and no handler for a repeated version, which it answers with the opt type that it gave before. Each distribution is answered with one oadrCreatedEvent holding, in order, one response for every event that requires a response and is not completed, with that event's id, modification number, request id and opt type (code 460 if it has an unknown signal name), and with no message at all if no event needs a response.",
  ['histories'],"sequences of distributions with new, repeated, modified, cancelled and completed events in any combination, sync and async handlers",
  "Tests send one or two events.",[C])
p('C14','The VEN opts out of exactly the events its handler failed on',
  "If the on_event or on_update_event handler raises an exception or returns something other than 'optIn' or 'optOut' for an event that requires a response, the VEN answers 'optOut' for that event, repeats that answer when the same version arrives again, and still handles and answers all other events in the message with their own results. Without an on_update_event handler, the previous opt type for the event is repeated for a new version.",
  ['fault_sequences','histories'],"any placement of handler failures in sequences of distributions of one or more events",
  "Single-event failures only.",[C])
p('C15','add_event and add_raw_event deliver what was specified',
  "An event added through the convenience method or as a raw dict or object is distributed with exactly the given signal, intervals, targets, market context, periods, priority and response requirement, modification number 0, an active period that spans its intervals (unless one was given with a raw event), naive start times taken as local time, and its own venID as target if none was given. Invalid arguments (signal name or type, response requirement, intervals, callback signature) are refused with ValueError and queue nothing.",
  ['inputs'],"all argument combinations, valid and invalid, dict and object forms, any local timezone",
  "A few fixed events are tested.",[S,O,U])
p('C16','Outgoing messages are corrected or refused as documented',
  "When an event is distributed, an active period that differs from the equal total duration of its signals is adjusted to that total, signals with different totals are refused with ValueError when they conflict with the active period, SIMPLE payloads other than 0, 1, 2 or 3 are refused, the current value of a SIMPLE signal is reported as 0 unless the event is active, an invalid response requirement becomes 'always', a missing creation time is filled in, and inconsistent targets are refused. Report registrations get the METADATA_ prefix once, and measurements get the namespace that belongs to their name or are refused; everything that needs no correction is sent unchanged, and the given event, report or dict values other than those corrected are not lost.",
  ['inputs'],"all combinations of valid and correctable events and reports",
  "Each rule is tested with one example.",[PF,M])
p('C17','Targets and targets_by_type always agree',
  "Grouping a list of targets by type and ungrouping it again preserves every target and their order per type, None members are ignored, and event and opt objects created from either form expose both forms consistently. Supplying both forms is accepted exactly when they agree and refused with ValueError otherwise, as is supplying neither.",
  ['inputs'],"all target lists with all target types, dict and object forms, agreeing and disagreeing pairs",
  "Few fixed examples.",[O,U])
p('C18','The VTN requests exactly the reports its handler asked for',
  "When a VEN registers reports, the on_register_report handler (compact or full form, function or coroutine) is called with what each report offers, and the reply requests exactly the data points for which it returned a valid (callback, sampling interval[, reporting interval]), per report specifier, with the offered reading type, as granularity the smallest requested sampling interval of that report and the given reporting interval, each request under its own reportRequestID. Invalid results are skipped without affecting the valid ones, and metadata-only history reports are never requested.",
  ['inputs','fault_sequences'],"all combinations of reports, data points and handler results (valid, None, malformed)",
  "Tests cover single reports with mostly valid results.",[RS,U])
p('C19','The VEN reports every collected sample exactly once',
  "For every report request that the VEN accepts, each run of its schedule calls the callback of each requested data point once (incremental: without arguments; full: with the date_from, date_to and sampling_interval of the period) and every value it returns is sent to the VTN exactly once, under the requested reportRequestID, report specifier and rID, with its own timestamp. An incremental report is sent as soon as it holds the number of samples that fit in the report-back duration, immediately if that is not longer than the sampling interval, and never mixes samples of different requests; one-shot requests are sent once. A callback that raises keeps nothing else from being sent, and callbacks that take long lose nothing, whatever is sampled, requested or cancelled meanwhile.",
  ['histories','inputs'],"all combinations of reports, data points, granularities, report-back durations, callback result shapes and interleavings of sampling runs of several requests",
  "One report with one or two data points in real time.",[C])
p('C20','Report data reaches the callback that asked for it',
  "Every value in an oadrUpdateReport is delivered exactly once, with its timestamp and in order, to the callback that the VTN's handler returned for that data point of that reportRequestID, and to no other callback, also when several reports, data points, VENs and requests are interleaved; values for unknown requests or data points are ignored. The VTN answers each update with oadrUpdatedReport, whether callbacks are functions or coroutines and whether the report holds values or not.",
  ['histories','inputs'],"all multi-VEN histories of registrations and updates with any subset of data points",
  "One VEN and one data point.",[RS,U])
p('C21','add_report builds exactly the offered reports, or refuses',
  "Every report added to the VEN is registered with the VTN with the given specifier id, data point id, resource, reading type, report type, sampling rate, duration and market context, and with the measurement, unit, scale and power attributes that follow from the arguments, without affecting other reports, other clients or the library's predefined measurements; data points added under the same report name (and specifier id, where one is given) end up in the same report. Invalid names, types, scales, collection modes, measurements and callback signatures are refused (ValueError/TypeError) and add nothing.",
  ['inputs','histories'],"all argument combinations and sequences of additions over several clients",
  "A few fixed calls.",[C,E,U])
p('C22','Registration yields consistent identities on both sides',
  "A VEN that registers adopts exactly the venID, registrationID and poll frequency that the VTN's registration handler returned, and uses that venID in every following message; the handler sees the VEN's name, id and registration parameters as the VEN gave them. If the handler rejects (False, None or a malformed result) or the VTN answers with an error, the VEN does not consider itself registered, stops, and sends no further requests (in a re-registration that fails with an error it may also keep trying).",
  ['inputs','histories'],"all registration parameters, ids, poll frequencies, handler results, sync and async handlers, re-registrations",
  "A few fixed ids.",[C,RG])
p('C23','The VEN survives any faulty VTN response',
  "Whatever the VTN answers to a request (HTTP errors, empty bodies, garbage, malformed or schema-invalid XML, truncated messages, dropped connections, error codes, wrongly signed messages when a fingerprint is configured, unexpected but valid message types, or no answer at all), the VEN's poll returns within half a minute without raising, does not call event handlers or change its reports or events because of it, and its next poll of a healthy VTN works normally.",
  ['fault_sequences','histories'],"any sequence of faulty and healthy replies",
  "Tests inject a few single faults.",[C,M])
p('C24','Member lookup helpers agree with their reference meaning',
  "Finding, popping and grouping items by (nested) members return exactly what a straightforward scan would: the first item for which every given member exists and equals the value (or is in the tuple of values), only that item removed when popping, and groups that partition the list in order. Finding works the same on lists and on dicts of items, finding and popping the same for dict and dataclass items, and the items are left unchanged.",
  ['inputs'],"all lists of nested items with missing members, tuple values, multiple conditions",
  "A few fixed lookups.",[U])
p('C25','A report schedule fires at its sampling interval',
  "For each sampling interval of 1 second up to 24 hours that evenly divides a minute, an hour or a day respectively, the schedule that the VEN creates for a report request fires exactly at that interval, aligned to the clock; longer intervals fire daily. Optional jitter never exceeds a tenth of the interval or 300 seconds.",
  ['inputs','schedules'],"all such intervals and start instants, in local timezones",
  "Tests check a few cron strings.",[U,C])
p('C26','Servers and clients in one process do not influence each other',
  "Any number of VTN servers in one process behave as if each were alone: settings (signing certificate, ven_lookup, fingerprint_lookup, signature verification, poll frequency, path prefix), handlers, event queues, callbacks and report registrations of one never show up in another, whatever the order of creation and use. The same holds for several VEN clients in one process.",
  ['configurations','histories'],"all combinations of differently configured servers and interleavings of operations on them, compared with running each alone",
  "Tests run one server at a time.",[S,VS,C])
p('C27','Certificate fingerprints are the OpenADR fingerprint',
  "For every certificate, in PEM text or bytes, with any line wrapping as found in signed messages, alone or followed by its chain, the fingerprint is the last ten bytes of the SHA-256 digest of its DER form, as colon-separated uppercase hex pairs. The fingerprint shown by the command line tool, computed from a TLS connection and extracted from a signed message are all the same.",
  ['inputs'],"all certificates (RSA/EC, sizes, subjects)",
  "Two certificates are tested.",[U,'openleadr/fingerprint.py'])
p('C28','Hooks see every message in order and cannot break it',
  "On the VEN, every registered hook (function or coroutine) is called once per request at its point, in the fixed order before sending, after receiving, before validation, before parsing, after parsing, with the exact XML that is sent or received or the parsed message; a hook that raises changes nothing about the request, the other hooks or the result. On the VTN, every registered hook is called once per request at each point that the request reaches, with the exact content, message and reply.",
  ['histories','fault_sequences'],"any set of hooks, sync/async/raising, and any sequence of successful and failing requests",
  "One hook is tested.",[C,'openleadr/hooks.py',VS])
p('C29','VTN and VEN converge on the same events and opt decisions',
  "When a real VEN polls a real VTN, then after every poll the VEN holds exactly the events that the VTN has distributed to it and that are not yet cleaned up, each in the VTN's current version, and every event that requires a response has had its callback called with the opt type that the VEN's handler returned. This holds for every sequence of adding, cancelling, polling and time passing, and also when requests or replies are lost in between, once polls get through again and new changes were made.",
  ['histories','fault_sequences'],"histories over a VTN and several VENs, including lost requests",
  "A single event in real time.",[C,S,ES,PS])
p('C30','Custom VTN handlers are called with, and answered by, what they return',
  "With a custom on_poll handler, each poll calls it once with the venID and sends what it returns: nothing gives an empty response, an event (dict or object) or a list of events gives a distribution of exactly those events, and a (message type, payload) tuple gives that message, whatever the same handler returned before. A custom on_request_event handler is asked and answered likewise (in the prescribed order). Custom on_created_event handlers get each response's venID, eventID and opt type, and with a custom on_poll handler add_event refuses to queue.",
  ['inputs','histories'],"all kinds of handler results, sync and async, sequences of them",
  "Each result kind tested once.",[PS,ES,S])
p('C31','The VEN accepts only the reports it can deliver and confirms each request',
  "For every report request from the VTN (in reply to registration or by poll), the VEN schedules exactly the data points that it offers under that specifier, with matching measurement where one is given, and whose sampling rate range allows the requested granularity, skipping the others, and confirms with one oadrCreatedReport that lists every received reportRequestID with the request id of the message. Without a granularity the maximum sampling period is used, and requests in the same message do not influence each other.",
  ['inputs'],"all report request messages over all offered reports",
  "One or two fixed requests.",[C])
p('C32','The VEN forgets finished events, and only those',
  "The VEN's periodic housekeeping removes exactly the events that are cancelled or whose active period has ended, keeps all others, and keeps the status of the held events in line with the clock. An event that was removed and is distributed again is treated as new; one that was kept is not.",
  ['histories','schedules'],"histories of received events, time passing, housekeeping runs",
  "Nothing or a single event is tested.",[C,U])
p('C33','Cancelling reports and registrations stops exactly those',
  "When the VTN cancels a report (by poll or in reply to an update), the VEN sends the data collected once more if it has data points, stops that report's schedule only, forgets that request only, and confirms with oadrCanceledReport naming the report as pending only if it is to be followed; unknown report requests change nothing. When a registration is cancelled by either side under the VEN's own registrationID the VEN drops its registration, reports and schedules; with another registrationID it answers 452 and keeps everything.",
  ['histories','inputs'],"sequences of report requests, sampling runs and cancellations over several requests",
  "Fixed single sequences.",[C,RG])
p('C34','Report measurements are validated against OpenADR',
  "A measurement definition is accepted exactly when it has a name, description and unit, the description is the one that belongs to the name (ignoring case, and then corrected), the unit is acceptable for that name, and power measurements have voltage, ac and hertz attributes; unknown names become customUnit with any description and unit. Every accepted measurement, including all predefined ones with each acceptable unit, produces a schema-valid report registration that parses back to the same measurement.",
  ['inputs'],"all measurement names, descriptions (case variants), units, attribute sets",
  "A few fixed measurements.",[U,E,PF,T])
p('C35','TLS connections are only made with, and accepted from, trusted parties',
  "A VEN with a certificate sends messages only to servers whose certificate is currently valid, is vouched for by its ca_file (directly, through an intermediate certificate, or by being listed itself) and names the host of the VTN's URL unless check_hostname is False, and it presents its own certificate; to any other server nothing is sent and the call ends without an exception and without a result. A VEN without certificate does not talk to servers that its system does not trust. A VTN with http_cert, http_key and http_ca_file serves only TLS clients that present a currently valid certificate vouched for by http_ca_file, presents http_cert itself, and calls no handler for anyone else. Encrypted keys work with their passphrase. Every connection is judged by itself, whatever was accepted or refused before.",
  ['inputs','configurations','histories'],"all combinations of trust stores, certificates (authority, intermediate, self-signed, expired, future, names), host checks, passphrases, and sequences of servers or clients",
  "The tests connect with one matching set of certificates; refusals are not tested.",[C,S])
p('C36','Stopping a VEN or VTN ends its activity, and only its own',
  "Once stop() of a VEN has returned and what was in progress at that moment has finished, it sends nothing, samples nothing, calls no handler and leaves no task of its own behind, no matter when it was stopped: idle, during its start (after its first message), during a poll, a handler, a report or a re-registration, or twice. Once stop() of a VTN has returned, its port is closed and can be used again at once, none of its handlers is called, requests that were in progress were either answered properly or dropped, and other VTNs in the same process are not affected.",
  ['schedules','histories'],"all moments of stopping relative to polls, handlers, sampling and slow replies; sequences of servers starting and stopping on shared and separate ports",
  "Tests stop things when nothing is going on and do not look afterwards.",[C,S])
p('C37','Opts are sent as given and known until their cancellation is confirmed',
  "create_opt with valid arguments sends exactly one oadrCreateOpt with exactly the given type, reason, event or availability, targets, market context, device class and ids (or fresh ids), and returns the opt id if the VTN acknowledges it with code 200 and False otherwise (rejection, other message, HTTP error, lost or invalid reply), never raising. Invalid arguments (type, reason, device class, both or neither of event and availability) raise ValueError and nothing is sent. cancel_opt of an acknowledged opt sends exactly one oadrCancelOpt with its id, a request id and the venID, and returns True and forgets the opt if the VTN confirms it, else False and the opt can still be cancelled; for an unknown or already cancelled opt it returns False and sends nothing. Overlapping calls do not influence each other.",
  ['histories','inputs','fault_sequences'],"all opts, all replies and faults, sequences and overlaps of creations and cancellations",
  "There are no tests of opts.",[C,O,T])

p('C38','Received messages cannot reach files, the network or other content',
  "Processing a received message (a request at the VTN, a reply at the VEN) reads no file and opens no connection that the message refers to, whatever means the XML uses (internal, external and parameter entities, external DTD subsets, unparsed entities, default attributes, schema locations, XInclude, stylesheets) or whatever template or format markup its texts hold; no local content ends up in replies, handler arguments or later messages. A message with entity definitions is either refused (HTTP 400 at the VTN, ignored at the VEN) without reaching a handler, or handled exactly as the document with its entities expanded, so that a signed message cannot be made to mean something else. A small message takes bounded time and memory, and later messages are processed as usual.",
  ['inputs','attacks'],"all such constructs, at any place in any message, to every endpoint and in every reply",
  "Attack documents are not tested at all; and the validating and the converting XML parser treat entities differently.",[M,VS,C])
p('C39','The meaning of a message does not depend on its XML spelling',
  "Two XML texts with the same information, that is, that differ only in namespace prefixes and where they are declared, character references, CDATA sections, comments and processing instructions, white space between elements and in tags, attribute order and quotes, the form of empty elements, the encoding, byte order mark and XML declaration, and schema location hints, are parsed to the same type and payload, lead to the same handler calls and the same reply at the VTN, and to the same handler calls, schedules and messages at the VEN. A signed message in another spelling with the same canonical form still verifies and parses to the same payload. Booleans, numbers, durations and times in another lexical form of their schema type (1 for true, PT60M for PT1H, 1.50E2 for 150, more digits of a fraction) are parsed to the same values.",
  ['inputs'],"all messages and all combinations of these spellings and value forms (for the VEN in UTF-8)",
  "The tests read only XML that the library wrote itself; other implementations write other prefixes and layouts.",[M,U,VS,C])
p('C40','Enumerated arguments are accepted exactly when OpenADR knows them',
  "Wherever OpenADR restricts an argument to an enumeration (signal name and type, response requirement, opt type and reason, device class of an opt, report name and type, reading type, scale), the library accepts every value of the standard and, where the standard has extensions, tokens that start with 'x-', and the value arrives unchanged in a schema-valid message; it refuses every other text with ValueError, and nothing of it is sent. The enumerations in openleadr.enums list exactly the values of the standard under their own names.",
  ['inputs'],"all values of all enumerations, near misses of them, values of other enumerations and extension tokens, at every place that takes them",
  "Tests try one or two wrong values and a few right ones.",[O,C,S,'openleadr/enums.py'])
p('C41','Overlapping requests at a VTN are answered as if each were alone',
  "While handlers, callbacks or lookups of the VTN (coroutines) wait for something, other requests, also of the same kind or the same VEN, are received and answered, and every request gets the reply that follows from that request and what its own handler calls returned or raised: its own request id, venID, vtnID, registration ids, events, report requests and error, no matter in which order the handlers go on. Every handler and callback is called as often and with the same arguments as if the requests had come one after another, and callbacks for reports that were requested in the meantime belong to their own requests.",
  ['schedules','histories'],"all combinations of overlapping requests and all orders in which their handlers and lookups go on",
  "The tests send one request at a time, to handlers that do not wait.",[S,VS,'openleadr/service/'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P))
