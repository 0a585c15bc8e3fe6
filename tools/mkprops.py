#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that it stays readable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=state or [],observe_at=observe or [],hook_needed=None)))

G="pkg/codegen/generators"
p("C01","Any supported document generates code that compiles and offers its operations",
 "For every valid AsyncAPI 2.x or 3.0 document made of the supported constructs, in YAML or JSON, and every combination of the documented generation options, the tool succeeds and writes a Go file that compiles unchanged next to the extensions library, whether types, application and user parts are generated in one file or in separate files of one package. Every declared operation is available as a sending method on the controller of one side and as a subscribing method on the controller of the other side, with the same message type and the same channel parameters, and the list of channel paths and the AsyncAPI version constant match the document.",
 ["inputs","programs","configurations"],"all documents of a structured grammar of the supported constructs x all option combinations",
 "The tests compile a fixed set of checked-in generated files and do not run the generator on anything new; a template or model change shows only on documents nobody wrote down.",
 [f"{G}/v2/templates/*.tmpl",f"{G}/v3/templates/*.tmpl",f"{G}/v3/common.go",f"{G}/v2/controller.go","pkg/asyncapi/v2/*.go","pkg/asyncapi/v3/*.go","cmd/asyncapi-codegen/*.go"],
 [("templates",f"{G}/v{{2,3}}/templates"),("operations by side",f"{G}/v3/common.go NewActionOperations, {G}/v2/controller.go NewControllerGenerator")],
 observe=["exit status of asyncapi-codegen","go build of the output","method set of AppController and UserController"])
p("C02","Generation is a deterministic function of the document and the options",
 "For a given document (with its dependencies) and given options the generated file is byte-identical every time, whatever the order of the keys in the document, whether the document is written in YAML or in JSON, and whatever was generated before in the same process with other documents or options.",
 ["inputs","histories","configurations"],"all documents x all key orders and encodings x all histories of previous generations in a process",
 "Go map iteration order and package-level state make a single run look right; the tests never compare two generations.",
 [f"{G}/**","pkg/codegen/codegen.go","pkg/asyncapi/v3/channel.go","pkg/utils/map.go","pkg/utils/template/helpers.go"],
 [("package level option switches","pkg/utils/template/helpers.go, "+G+"/v*/templates/helpers.go"),("ordered traversal of maps","text/template range; GetChildrenObjectSchemas")],
 observe=["bytes of the output file"])
p("C03","Any input file or option value is handled or rejected, never crashes",
 "Whatever the bytes of the input files and the option values, the tool terminates without crashing: either it succeeds and writes the output file, or it reports an error with a non-zero exit status and leaves an existing output file as it was. A document whose AsyncAPI version is missing or unsupported, a reference that is malformed or whose target does not exist (locally or in a dependency), an unknown generation part, key conversion, or naming scheme is always rejected.",
 ["inputs"],"all byte strings, all structural mutations of valid documents, all option strings",
 "Tests only feed a few valid documents; error paths over reference resolution and malformed documents are open ended.",
 ["pkg/asyncapi/parser/parse.go","pkg/asyncapi/v2/specification.go","pkg/asyncapi/v3/specification.go","pkg/asyncapi/v2/*.go","pkg/asyncapi/v3/*.go","cmd/asyncapi-codegen/*.go","pkg/codegen/codegen.go"],
 [("reference resolution","pkg/asyncapi/v{2,3}/specification.go reference()"),("version detection","pkg/asyncapi/parser/parse.go")],
 observe=["exit status, stderr, output file"])
p("C04","A message sent by one side is received equal by the other side",
 "For every operation of every supported document, a message sent with the generated controller of one side reaches the handler subscribed with the generated controller of the other side exactly once and equal to the message sent: payload of any supported type, headers (required, optional, object-valued, date-time), optional fields absent or present, and correlation ID. A message with a correlation ID location that is sent without one gets a fresh non-empty one, and an ID that was set is left as it is.",
 ["inputs","programs"],"all supported documents x all values of their message types",
 "The tests send a handful of literal messages of fixed documents; encoding and decoding are generated per schema.",
 [f"{G}/v2/templates/message.tmpl",f"{G}/v3/templates/message.tmpl",f"{G}/v*/templates/marshaling/*.tmpl",f"{G}/v*/templates/controller.tmpl"],
 [("message encoding and decoding",f"{G}/v*/templates/message.tmpl toBrokerMessage / brokerMessageTo")],
 observe=["value given to the subscriber callback","broker message published"])
p("C05","Payloads on the wire are the JSON that the schema describes",
 "A JSON payload that satisfies the message's schema is decoded into the field that the schema names for each property and is encoded again to the same JSON: property names as in the document (or as converted by the key-conversion option), every schema type and format mapped to the corresponding Go type, absent optional properties left absent and nil, required ones always written, additional properties kept with their names and typed values, nested objects and arrays at any depth, date-times as RFC 3339, and x-omitempty obeyed.",
 ["inputs","programs"],"all supported schemas x all JSON values that satisfy them",
 "Tests check a few literal JSON strings for a few schemas.",
 [f"{G}/v*/templates/schema_definition.tmpl",f"{G}/v*/templates/schema_name.tmpl",f"{G}/v*/templates/marshaling/*.tmpl",f"{G}/helpers.go"],
 [("type mapping",f"{G}/v*/templates/schema_name.tmpl"),("tags",f"{G}/helpers.go GenerateJSONTags"),("additional properties",f"{G}/v*/templates/marshaling/additional_properties.tmpl")],
 observe=["payload bytes on the broker","decoded message"])
p("C06","Generated validation tags accept exactly what the schema constraints allow",
 "For every property with the documented constraints (required, minLength, maxLength, minimum, maximum, exclusiveMinimum, exclusiveMaximum, uniqueItems, enum of strings, const string), validating a decoded object (with the objects nested in it, the elements of arrays on their own) with the validator library refuses exactly the fields whose values break these constraints of the document, zero limits, large limits and any characters in enum and const values included; an absent optional property is always accepted, and an absent required one is refused wherever its field can be absent (arrays, and every field with forced pointers).",
 ["inputs","programs"],"all combinations of constraints on properties x values inside, on and outside of each bound",
 "Tests look at a fixed struct with a few values.",
 [f"{G}/helpers.go","pkg/asyncapi/schema.go",f"{G}/v*/templates/schema_definition.tmpl"],
 [("validate tags",f"{G}/helpers.go GenerateValidateTags"),("merge of constraints through references","pkg/asyncapi/schema.go Merge")],
 observe=["validator.Struct on the received payload"])
p("C07","References and composition mean the same as the expanded document",
 "A document that uses references (to components in the same file or in a dependency file, for channels, messages, schemas, parameters, headers, payloads, traits) behaves on the wire like the document with the referenced objects written in place; allOf, anyOf and oneOf give a message type that has the properties of all the members, required as soon as any member of an allOf requires them, with the constraints of the composition itself where it describes a property of a member again; and message traits add their headers and fields without replacing those of the message.",
 ["inputs","programs"],"all placements of references and compositions in supported documents, all splits over files",
 "Tests have one document per kind of reference.",
 ["pkg/asyncapi/v2/schema.go","pkg/asyncapi/v3/schema.go","pkg/asyncapi/v2/message.go","pkg/asyncapi/v3/message.go","pkg/asyncapi/v*/specification.go","pkg/codegen/codegen.go"],
 [("reference resolution","pkg/asyncapi/v*/specification.go"),("merging","pkg/asyncapi/v*/schema.go MergeWith, pkg/asyncapi/v*/message.go MergeWith/ApplyTrait")],
 observe=["wire format and Go fields of messages"])
p("C08","Both sides of an operation meet on the address the document declares",
 "Sending, subscribing, unsubscribing and waiting use exactly the address given in the document, with each channel parameter replaced by the value given in the parameters structure and the rest of the address unchanged, for any parameter values and any characters of the address; different parameter values give separate subscriptions, and messages of one address never reach a handler of another.",
 ["inputs","programs"],"all address templates x all parameter values",
 "Tests use one or two addresses.",
 [f"{G}/v2/templates/helpers.go",f"{G}/v3/templates/helpers.go",f"{G}/v*/templates/controller.tmpl",f"{G}/v*/templates/types.tmpl"],
 [("address building",f"{G}/v3/templates/helpers.go GenerateChannelAddr, {G}/v2/templates/helpers.go GenerateChannelPath")],
 observe=["channel argument given to the broker"])
p("C09","A request returns its own reply, or an error, and never leaks or hangs",
 "A request (AsyncAPI 3 reply, or wait-for in AsyncAPI 2) subscribes on the reply address before the request is sent, returns the first message whose correlation ID equals that of the request (or the first message when there is none) whatever other messages arrive before, and after returning leaves no subscription behind. It returns an error when the context is done, the subscription ends, sending fails or a middleware fails; a message that cannot be decoded is an error when there is no correlation ID, and is passed over when there is one; the reply helper answers on the reply channel or on the address carried by the request, with the correlation ID of the request.",
 ["inputs","schedules","fault_sequences"],"all sequences of unrelated, malformed and matching messages, broker failures, cancellations",
 "Tests cover the one-request happy path on real brokers, which are not available here.",
 [f"{G}/v3/templates/controller.tmpl",f"{G}/v2/templates/controller.tmpl",f"{G}/v3/common.go","pkg/asyncapi/v3/operation*.go"],
 [("request loop",f"{G}/v3/templates/controller.tmpl Request..., waitFor...NextResponse"),("wait-for loop",f"{G}/v2/templates/controller.tmpl WaitFor...")],
 observe=["return value of Request*/WaitFor*","subscriptions open on the broker"])
p("C10","Controllers keep exactly the subscriptions asked for",
 "Whatever the sequence of subscribe, unsubscribe, subscribe-all, unsubscribe-all, close and message arrivals on a controller, a channel has at most one broker subscription per controller, a second subscription is refused with the already-subscribed error and changes nothing, an unsubscribed or closed channel delivers nothing more and can be subscribed again, unsubscribing what is not subscribed does nothing, and a failing broker subscription is reported and leaves no trace. While subscribed, the handler of the channel gets every message of that channel once and in order.",
 ["histories","fault_sequences"],"all operation sequences over channels, with broker failures",
 "Tests perform one subscribe and one unsubscribe.",
 [f"{G}/v2/templates/controller.tmpl",f"{G}/v3/templates/controller.tmpl"],
 [("subscriptions map",f"{G}/v*/templates/controller.tmpl")],
 state=[dict(name="subscriptions",meaning="open broker subscriptions of a controller by address",where=f"{G}/v*/templates/types.tmpl")],
 observe=["broker Subscribe calls and cancellations","handler calls","returned errors"])
p("C11","Middlewares run in order, once, around every message",
 "On sending, on reception and on awaited replies, the configured middlewares are executed in the given order, each exactly once per message, each wrapping what follows when it calls next and being followed automatically when it does not; changes made to the message or the context are seen by what follows. The send or the handler runs at most once, does not run after a middleware returned an error, and the error of the chain is the one reported.",
 ["programs","inputs"],"all lists of middlewares with any mix of behaviours (pass, next, next twice, swallow, fail before, fail after, modify)",
 "Tests use one list of middlewares.",
 [f"{G}/v*/templates/controller.tmpl","pkg/extensions/middlewares/*.go","pkg/extensions/middleware.go"],
 [("middleware chain",f"{G}/v*/templates/controller.tmpl wrapMiddlewares"),("recovery","pkg/extensions/middlewares/recovery.go")],
 observe=["trace of middleware, handler and broker calls"])
p("C12","Every received message is acknowledged exactly once, according to its outcome",
 "Each message delivered to a subscribed controller is acknowledged after its handler succeeded; when decoding, a middleware or the handler fails, the error handler is called once with the channel, the message and the error, and the message is then negatively acknowledged unless the error handler already settled it. The broker sees exactly one acknowledgement per message, and after a failure the subscription goes on with the next messages.",
 ["inputs","fault_sequences","histories"],"all sequences of good and bad messages, handler, middleware and error-handler behaviours",
 "Tests inject one failure.",
 [f"{G}/v*/templates/controller.tmpl","pkg/extensions/broker.go","pkg/extensions/errorhandlers/*.go","pkg/extensions/errorhandler.go"],
 [("ack after handler",f"{G}/v*/templates/controller.tmpl listenTo...NextMessage"),("single acknowledgement","pkg/extensions/broker.go AcknowledgeableBrokerMessage")],
 observe=["AckMessage/NakMessage calls"])
p("C13","The versioning wrapper delivers each message to its version only",
 "Through the versioning wrapper, a published message carries the version of the context in the version header (default or custom key) and is otherwise unchanged; a received message goes unmodified, once and in order, to the subscriber of the version in its header, or of the default version if it has none, and to nobody else. Messages without a usable version or with a version nobody subscribed are dropped with an error log and never prevent later messages of other versions from arriving; subscribing without version is refused, as is a second subscription of one version to a channel.",
 ["inputs","histories"],"all interleavings of publications of any versions with subscriptions and cancellations of versions",
 "Tests use two known versions and never send an unknown one.",
 ["pkg/extensions/versioning/*.go"],
 [("routing by version","pkg/extensions/versioning/broker_subscription.go launchListener"),("tagging","pkg/extensions/versioning/wrapper.go Publish")],
 state=[dict(name="versionsChannels",meaning="subscribers of a broker channel by version",where="pkg/extensions/versioning/broker_subscription.go")],
 observe=["messages on each version's subscription","messages published on the wrapped broker","log"])
p("C14","The versioning wrapper shares and releases broker subscriptions without deadlock",
 "Whatever the sequence or concurrency of subscriptions and cancellations of versions on channels, the wrapper holds exactly one broker subscription per channel that has at least one subscribed version and none for the others; every subscribe and cancel call returns, cancelling one version does not disturb the others, a version or channel that was cancelled can be subscribed again, and a failed broker subscription leaves the wrapper usable.",
 ["histories","schedules","fault_sequences"],"all histories and interleavings of subscribe/cancel over versions and channels, with message traffic and broker failures",
 "Tests subscribe twice and close.",
 ["pkg/extensions/versioning/*.go","pkg/extensions/broker.go"],
 [("lock order and reference count","pkg/extensions/versioning/broker_subscription.go removeVersionListener, wrapper.go Subscribe")],
 observe=["open subscriptions on the wrapped broker","termination of calls"])
p("C15","Cancelling a subscription waits for clean-up and settles messages once",
 "Cancelling a broker subscription returns only after the broker's clean-up function ran and the message channel was closed (or the context ended), whatever the scheduling of both sides, runs the clean-up exactly once, and messages transmitted before are still readable. No message transmitted to a subscription that is not cancelled is lost, however late it is read. An acknowledgeable message forwards exactly one acknowledgement, the first one, whatever the sequence of ack and nak calls.",
 ["schedules","histories"],"all interleavings of subscribe side, broker side and cancellation, all ack/nak sequences",
 "Tests run one interleaving.",
 ["pkg/extensions/broker.go"],
 [("cancel handshake","pkg/extensions/broker.go WaitForCancellationAsync/Cancel"),("acked flag","pkg/extensions/broker.go AcknowledgeableBrokerMessage")],
 observe=["state when Cancel returns","BrokerAcknowledgment calls"])
p("C16","Context values and log entries describe the message being processed",
 "Middlewares, handlers, error handlers and loggers see in the context the AsyncAPI document version, the provider (app or user), the channel address, the direction and, once known, the correlation ID and the broker message of the operation at hand, whatever the caller's context says of another operation, and the context of a received message does not end while it is processed; each log call of the ECS logger writes one line of valid JSON holding the message, level, time, every given field under its name and the provider, channel, action, correlation ID and broker message of the context, and the text logger shows the message, the given fields and the channel, correlation ID and broker message, for any strings and from any goroutines; the logging middleware, the logging error handler (one error entry with the topic and the error) and the controllers do not alter what they log.",
 ["inputs"],"all strings in messages and log infos, all operations",
 "Tests check one or two literal lines.",
 ["pkg/extensions/loggers/*.go","pkg/extensions/context.go","pkg/extensions/middlewares/*.go","pkg/extensions/errorhandlers/*.go",f"{G}/v*/templates/controller.tmpl"],
 [("context",f"{G}/v*/templates/controller.tmpl addAppContextValues"),("formatting","pkg/extensions/loggers/*.go")],
 observe=["ctx.Value of extension keys","bytes written by the loggers"])
p("C17","The NATS adapter carries messages faithfully and subscribes as asked",
 "Through the NATS controller, any payload and any headers that NATS can carry, published on a subject, have reached the server when Publish returns and arrive on each subscription of that subject with equal payload and headers, once per subscriber or queue group (the one asked for, none by default), in order; subscriptions are in place at the server when Subscribe returns and independent of each other, also when one is not read; acknowledgements do nothing; cancellation stops the delivery, ends the messages and removes the subscription from the server; Close ends the connection, after which publishing and subscribing fail; and none of these, in whatever interleaving, crashes or blocks the process.",
 ["inputs","histories"],"all headers and payloads, all subscribe/publish/cancel sequences against a protocol-level fake server",
 "The broker tests need a live NATS server and do not run here.",
 ["pkg/extensions/brokers/nats/nats.go"],
 [("header and payload mapping","pkg/extensions/brokers/nats/nats.go")],
 observe=["protocol traffic of a fake NATS server","messages received"])
p("C18","The JetStream adapter dispatches and acknowledges each message once",
 "With the JetStream controller, a consumed message goes to one subscription whose subject matches (with NATS wildcard semantics) with equal headers and payload, each time the server delivers it, and its ack or nak (with the configured delay) is the one its consumer asked for first, or none; a message of a subject without subscription is acknowledged and dropped without affecting others; publishing stores the headers and payload under the subject before it returns; the stream and consumer are the configured ones; messages are consumed only while something is subscribed; and subscribing (also several times to one subject), failing to subscribe, cancelling and closing in whatever interleaving neither crash, nor block, nor lose messages of other subscriptions. Close ends the connection if it is the controller's own.",
 ["inputs","histories"],"all subjects and patterns, all message contents, all subscribe/consume/cancel sequences",
 "The broker tests need a live NATS server; subject matching is not tested.",
 ["pkg/extensions/brokers/natsjetstream/*.go"],
 [("dispatch","pkg/extensions/brokers/natsjetstream/natsjetstream.go HandleMessage/ConsumeMessage")],
 observe=["ack/nak of the JetStream message","messages received"])
p("C19","The Kafka adapter carries messages faithfully and commits after processing",
 "Through the Kafka controller, any headers and payload published on a topic, which is created on the cluster if it is missing, are stored as one record without key when Publish returns without error and not at all when it returns one, in order, leaving no connection behind; the records of a topic arrive on its subscriptions with equal payload and headers, in order, each on every subscription without group (of the configured partition) and on one subscription of each group; offsets of groups are committed automatically or, according to the option, on acknowledgement (ack or nak) only, never before; errors the client recovers from (lost connections, outages, errors of brokers) neither end a subscription nor lose messages; cancellation stops the reader and leaves the group, after which acknowledging returns; connections use the security options of their controller and only those, whatever other controllers of the process use; and calls end when their context does and give an error, not a crash, for a configuration that cannot work.",
 ["inputs","histories","configurations"],"all headers and payloads, all ack/nak sequences, both commit modes, groups, failures and security options, against a protocol-level fake cluster",
 "The broker tests need a live Kafka cluster and do not run here.",
 ["pkg/extensions/brokers/kafka/kafka.go"],
 [("mapping and commits","pkg/extensions/brokers/kafka/kafka.go")],
 observe=["logs, commits and protocol traffic of a fake Kafka cluster","messages received"])
p("C20","Generation options change exactly what they document",
 "The options do what they document for every document: forcing pointers makes every non-array field a pointer, ignoring string formats turns date and date-time into plain strings, key conversion changes only the JSON names, the naming scheme only the Go names, x-go-type and its import replace the type of the schema they annotate, the package name, output path and part selection select where and what is written, and disabling formatting changes only the layout; without them the corresponding default applies.",
 ["configurations","inputs"],"all option combinations x all documents",
 "Tests generate with a fixed set of options.",
 ["pkg/codegen/options/options.go","pkg/codegen/codegen.go","cmd/asyncapi-codegen/config.go","pkg/utils/template/helpers.go",f"{G}/**"],
 [("options","pkg/codegen/codegen.go Generate")],
 observe=["types and tags in the generated file"])
p("C21","Names become valid, stable Go identifiers",
 "For any name of letters, digits, separators and other characters that holds at least one ASCII letter, the naming function gives an exported Go identifier made of the letters and digits of the name in order, capitalising after separators and dropping leading digits, is idempotent (default naming scheme), and gives the same identifier wherever the name appears (declaration, reference, parameter, field), also when the name comes from a reference path or has parameters in braces; key conversions keep the letters and digits of the key in order.",
 ["inputs"],"all strings",
 "Tests check a list of literals.",
 ["pkg/utils/template/helpers.go",f"{G}/v*/templates/helpers.go"],
 [("namify","pkg/utils/template/helpers.go DefaultNamifier, NamifyWithoutParams")],
 observe=["return values of the exported helper functions"])
p("C22","Descriptions change nothing but comments",
 "Whatever a valid document holds that only describes (titles, summaries, descriptions, tags, external documentation, examples, default values, content types of JSON, bindings, servers and their variables, security requirements and schemes, contact, licence, traits that only describe, extensions of other vendors), inline or behind references to components of this document or of a dependency, the document is accepted and the generated declarations, comments apart, are those of the document without it.",
 ["inputs"],"all documents x all places and contents of descriptions",
 "Tests hold a few descriptions of the usual form.",
 ["pkg/asyncapi/v*/*.go","pkg/asyncapi/parser/parse.go",f"{G}/v*/templates/*.tmpl"],
 [("objects that describe","pkg/asyncapi/v3/{server,tag,message_example,operation_trait,security_scheme,external_documentation,*_bindings}.go"),("references to them","pkg/asyncapi/v3/specification.go reference")],
 observe=["status of the tool","declarations of the generated file"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
