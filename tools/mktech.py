"""Regenerates tools/techniques.json."""
import json, os
D = 'property-based testing (Hypothesis, shrinking)'
t = {}
def a(i, how, note): t[i] = (how, note)
a('C01', 'property-based round trip: random payload of every message type -> create -> parse', 'Generated payloads of every message type, compared field by field with the specification they were made from.')
a('C02', 'property-based differential test: random payloads read back by an independent XML reader, schema-validated', 'Generated payloads, unsigned and signed; the reader shares no code with the library.')
a('C03', 'property-based round trip and generated-grammar test against an arithmetic oracle', 'Generated durations, duration texts and timestamps.')
a('C04', 'property-based mutation of signed messages against the verifier', 'Generated messages, both signing certificates, one random edit of the signed parts each.')
a('C05', 'stateful property-based test of replay protection under a virtual clock against a reference model', 'Generated histories of signing, validating, replaying and time passing.')
a('C06', 'property-based test over TLS configurations with generated identities, on a real server', 'Generated combinations of claimed identity, TLS certificate, signature and lookup, over real TLS connections.')
a('C07', 'fuzzing of the HTTP endpoints (generated, mutated, misdirected messages and handler faults) against a response oracle', 'Generated request histories on a real server.')
a('C08', 'stateful property-based test of a real server with a changing VEN registry against a model', 'Generated histories.')
a('C09', 'property-based test against a reference sort', 'Generated event lists, directly and through a real server, under a virtual clock.')
a('C10', 'property-based test of event status under a virtual clock against a reference function, with metamorphic time shifts', 'Generated periods and instants around every boundary.')
a('C11', 'stateful model-based test of the VTN queue over HTTP under a virtual clock', 'Generated histories over several VENs against a reference model of the queue.')
a('C12', 'stateful model-based test of event callbacks over HTTP', 'Generated histories over several VENs and events against a reference model.')
a('C13', 'stateful model-based test of the real VEN against a scripted VTN', 'Generated sequences of distributions against a reference model of the VEN.')
a('C14', 'fault injection in event handlers with generated distributions, against a reference model', 'Generated sequences of distributions with faults in any handler call.')
a('C15', 'property-based test of add_event/add_raw_event through the wire with an independent reader', 'Generated valid and invalid arguments.')
a('C16', 'property-based test of outgoing corrections against a reference specification', 'Generated events, reports and measurements.')
a('C17', 'property-based round trip of target grouping and object construction', 'Generated target lists in both forms.')
a('C18', 'property-based test of report registration on a real server against a reference model', 'Generated reports and handler results.')
a('C19', 'stateful model-based test of report sampling by the real VEN against a scripted VTN', 'Generated report requests and sampling histories under a virtual clock.')
a('C20', 'stateful model-based test of report delivery on a real server', 'Generated multi-VEN histories of registrations and updates.')
a('C21', 'stateful property-based test of add_report against a reference model, read from the wire', 'Generated sequences of additions on several clients.')
a('C22', 'property-based test of registration between generated VENs and VTNs (real and scripted)', 'Generated identities, parameters and handler results.')
a('C23', 'fault injection: generated faulty replies to the real VEN', 'Generated sequences of faulty and healthy replies.')
a('C24', 'property-based differential test against a straightforward scan', 'Generated nested items and conditions.')
a('C25', 'property-based test of generated schedules against arithmetic fire times', 'Generated intervals and start instants.')
a('C26', 'differential test: several servers and clients in one process against each one alone', 'Generated configurations and interleavings.')
a('C27', 'property-based test over generated certificates against an independent computation', 'Certificates generated with the cryptography package.')
a('C28', 'stateful property-based test of hooks on a real VEN and VTN against a reference trace', 'Generated hook sets and request sequences.')
a('C29', 'stateful model-based end-to-end test of real VENs and a real VTN with message loss', 'Generated histories under a virtual clock.')
a('C30', 'stateful property-based test of custom handlers on a real server', 'Generated handler results.')
a('C31', 'property-based test of report requests to the real VEN against a reference model', 'Generated offers and requests.')
a('C32', 'stateful model-based test of the housekeeping of the real VEN under a virtual clock', 'Generated histories.')
a('C33', 'stateful model-based test of cancellations on the real VEN against a scripted VTN', 'Generated histories of requests, sampling and cancellations.')
a('C34', 'property-based test of measurement validation against an independent table, with wire round trip', 'Generated measurement definitions.')
a('C35', 'property-based test over generated certificates and trust stores on real TLS connections', 'Generated sequences of server and client identities against an oracle of who vouches for whom.')
a('C36', 'stateful property-based test of real VENs and VTNs that are stopped at generated moments', 'Generated moments of stopping with real schedules in real time, many VENs at once.')
a('C37', 'stateful model-based test of opts against a scripted VTN with faulty replies', 'Generated sequences of creations and cancellations, also overlapping.')
a('C38', 'attack-document fuzzing with armed traps (watched files, listening socket) and a metamorphic oracle', 'Structured generation of entity, DTD, schema location, inclusion and template attacks at generated places in valid messages.')
a('C39', 'metamorphic property-based test: generated respellings of generated messages', 'A randomised XML writer produces equivalent documents; parse results, handler calls, replies and signatures have to agree.')
a('C40', 'property-based test of enumerated arguments against the enumerations of the schema', 'Generated known values, near misses, foreign values and extension tokens at every place that takes them, read back from the wire.')
a('C41', 'schedule-generating property-based test of concurrent requests to the real VTN', 'Every handler and lookup waits at a gate; generated schedules say which request arrives or which handler goes on; each reply is compared with what the request alone leads to.')
for k in t:
    t[k] = (t[k][0], t[k][1] + ' No exhaustiveness is claimed: only the generated cases were tried (see the evidence file for counts); the oracle is hand-written and trusted.')
json.dump(t, open(os.path.join(os.path.dirname(__file__), 'techniques.json'), 'w'), indent=1, sort_keys=True)
