#!/usr/bin/env python3
"""Writes MANIFEST.json. A property without an entry in CHECKS is listed as not applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing"
CHECKS = {
 "C01": ("property-based testing over generated documents and options", "Generated documents (v2 and v3, YAML and JSON, several files, dependencies) and options are run through the built CLI; the output is compiled and its controllers are compared with the operations listed from the document by an independent reader. Bounded document sizes; no operation name collisions."),
 "C02": ("property-based testing, metamorphic relation between runs, styles and histories", "The tool's output for generated documents is compared, byte for byte, with further runs, other key orders, YAML styles, YAML versus JSON, and with generations in a process that generated other documents with other options before. Key order of dependency files is not changed."),
 "C04": ("property-based testing, round trip through generated code", "Messages of any Go value are sent with a generated controller over an in-memory broker and compared with what the other controller receives. Excludes x-go-type."),
 "C05": ("property-based testing against a JSON reference model", "Payloads drawn from the document's schema are decoded by generated code, compared field by field with the model and re-encoded. Empty optional arrays are not generated."),
 "C06": ("property-based testing of limits against a reference validator", "Values at, inside and outside the limits of generated constraints, decoded by generated code; the set of fields the validator library refuses is compared with the document's constraints. uniqueItems of scalar items only; a missing required property only where the field can be absent."),
 "C07": ("property-based testing, metamorphic relation between placements of one document", "Documents are re-written with drawn objects moved behind references (components, chains, dependency files) and with compositions and traits; the oracle computes interface, JSON, wire format and addresses from the expanded document. References of dependencies' dependencies and JSON pointers into properties are not generated."),
 "C08": ("property-based testing of subscription histories on drawn addresses", "Sequences of subscriptions, messages and cancellations with drawn parameter values; broker addresses are compared with the document's."),
 "C09": ("property-based testing of requests with drawn replies, faults and cancellations", "Generated controllers ask over an in-memory broker that answers with drawn sequences of unrelated, undecodable and matching messages, failures and cancellations; concurrent requests on one reply address. Only schedules the Go scheduler produces are explored."),
 "C10": ("stateful property-based testing against a model of the subscriptions", "Histories of subscriptions, cancellations, closings, broker failures and messages on generated controllers, compared with a model after each step."),
 "C11": ("property-based testing of drawn middleware chains against a reference interpreter", "Chains of up to five middlewares of every behaviour around sending, reception and replies; the trace, the result and the message are compared with a reference interpreter of the chain."),
 "C12": ("property-based testing of message histories with injected failures", "Sequences of good, undecodable and refused messages with drawn handler, middleware and error-handler behaviours; settlements and error-handler calls are compared with a model."),
 "C13": ("stateful property-based testing against a routing model", "Generated histories over the wrapper with an in-memory broker; every delivery, drop, error and publication is compared with a model. Sequential histories; concurrency is C14's."),
 "C14": ("property-based testing of concurrent scripts with a history invariant", "Generated concurrent scripts, message floods and failing brokers; exclusivity, sharing, release and termination are checked on the recorded history. Only schedules the Go scheduler produces are explored."),
 "C15": ("property-based testing of cancellation schedules", "Generated cancellers, contexts, queue sizes, transmissions and GOMAXPROCS; only schedules the Go scheduler produces are explored."),
 "C16": ("property-based testing of contexts over message histories, and of the loggers with any strings", "Every context that a generated controller gives to middlewares, handlers, error handlers, the broker and loggers is compared with the operation at hand; logger output is parsed back. The correlation ID is not required in middlewares before the message is read, and field names that clash with others are not generated."),
 "C20": ("property-based testing, metamorphic relations between option settings, and types against the document", "Each option is changed alone for generated documents and the outputs are compared by their syntax trees; the fields of generated types are compared with the document by reflection. x-go-type on arrays is only generated with types that can be nil."),
 "C21": ("property-based testing of the naming functions and of generated packages", "Drawn names and pairs go through the functions that turn names of documents into Go names (valid, stable, distinct words kept); documents with hostile names are generated and compiled, and their wire format is compared with the document."),
 "C22": ("property-based testing, metamorphic relation between a document with and without descriptions", "Generated documents are generated with and without drawn descriptions at every place that can hold some, inline and behind references, and the syntax trees of the two outputs are compared. Comments and the order of the same declarations in other files are not compared."),
 "C03": ("structure-aware fuzzing of the command line tool", "Each case is one run of the tool on mutated valid documents (trees, bytes, references, options): no crash, exit status 0 with a Go file or 1 with a message and the old output kept; documents with one change that must be refused are refused."),
 "C17": ("stateful model-based testing against a protocol-level fake server", "Generated histories of controllers, subscriptions, publications, cancellations and closings (sequential and from several goroutines) run against a fake NATS server, whose record of what it got and sent is the oracle."),
 "C18": ("stateful model-based testing against a protocol-level fake server, differential testing of subject matching", "Generated histories of subscriptions, publications, settlements, redeliveries, cancellations and closings (sequential and from several goroutines) run against a fake NATS server with the part of JetStream the client uses; its books of deliveries and acknowledgements are compared with what consumers received and asked for."),
 "C19": ("stateful model-based testing against a protocol-level fake cluster, with injected faults", "Generated scenarios (clusters of several brokers, logs, concurrent publishers, subscribers with and without groups, commit modes, acknowledgement plans, refused and dropped requests, outages, cancellations, security options, invalid configurations) run many at a time against a fake Kafka cluster; its logs, commits and connections are compared with what was published, received and acknowledged."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
