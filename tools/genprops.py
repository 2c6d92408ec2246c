#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so it can be edited comfortably)."""
import json, os
P = []
CORE = 'libs/core/include/rtbot/'
STD = 'libs/std/include/rtbot/std/'
API = 'libs/api/'
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOT = "No stable test asserts an output value (only the benchmark runs); the repository's Catch2 tests sample a handful of fixed sequences."

p("C01", "Input operator lets through exactly the strictly increasing messages per port",
  "On every port, an Input operator forwards a message, unchanged and immediately, if and only if its timestamp is strictly greater than the timestamp of the last message it forwarded on that same port; every other message is dropped without any effect. Ports are independent of each other, and the rule keeps holding after any number of dropped messages.",
  ["inputs", "histories"], "for every number of ports and every sequence of (port, time, value) messages, ordered or not",
  NOT, [CORE+"Input.h"], [("last-forwarded timestamp per port", CORE+"Input.h processData")],
  ["returned messages of executeData", "messages reaching a connected operator"], [("lastSent", "last forwarded message per port", CORE+"Input.h")])

p("C02", "Join emits exactly the common timestamps of all its ports, in order, at once",
  "Whatever the interleaving between ports, a Join has emitted, once everything delivered so far is processed, exactly one synchronised tuple for every timestamp that has been received on all of its ports, in increasing time order, each port carrying its own original value. A tuple is emitted as soon as its last member arrives, never later, and messages that have no partner on some port are never emitted.",
  ["inputs", "schedules", "configurations"], "for every number of ports >= 2, every set of strictly increasing per-port streams and every interleaving of their delivery",
  NOT + " The Join tests cover 2 and 3 ports with one interleaving each.",
  [CORE+"Join.h", CORE+"BinaryJoin.h"], [("drop older heads until all heads agree", CORE+"Join.h executeData")], ["emitted messages per output port after each delivery"],
  [("dataInputs", "per-port queues of not yet matched messages", CORE+"Operator.h")])

p("C03", "Binary and linear operators compute on synchronised messages only",
  "Addition, subtraction, multiplication, division, logical and/or, greater-than / less-than between streams, and linear combination emit, for each timestamp present on all their ports, the documented function of the values at that timestamp with the operands in port order (i1, i2, ... i10, i11 ...), stamped with that timestamp. Division by zero, and comparisons that do not hold, consume the tuple and emit nothing (a comparison that holds emits the first operand); and/or read a value of at least 0.5 as true and emit 1 or 0.",
  ["inputs", "schedules", "configurations"], "for every operator kind, coefficient vector, set of per-port streams and interleaving",
  NOT, [CORE+"BinaryJoin.h", STD+"Plus.h", STD+"Minus.h", STD+"Multiplication.h", STD+"Division.h", STD+"And.h", STD+"Or.h", STD+"GreaterThanStream.h", STD+"LessThanStream.h", STD+"Linear.h"],
  [("operand selection and the operation lambda", CORE+"BinaryJoin.h processData"), ("coefficient pairing", STD+"Linear.h processData")], ["emitted messages after each delivery"])

p("C04", "Sliding window statistics equal their definition over the last n messages",
  "Moving average, sample standard deviation, FIR filter (first coefficient on the newest message) and difference (last minus previous) emit nothing until their window is full, and from then on exactly one message per input whose value is the definition evaluated on the last n values, regardless of how long the stream has been running. The emitted timestamp is the newest one in the window (the difference operator stamps the newest or the previous message's time according to its configuration).",
  ["inputs", "histories", "configurations"], "for every window size, coefficient vector and stream",
  NOT, [STD+"MovingAverage.h", STD+"StandardDeviation.h", STD+"FiniteImpulseResponse.h", STD+"Difference.h", CORE+"Operator.h"],
  [("bounded input buffer with running sum", CORE+"Operator.h receiveData"), ("window functions", STD)], ["emitted messages"], [("Input.sum", "running sum of the window", CORE+"Operator.h")])

p("C05", "Peak detector emits exactly the window-centre maxima, once, with their own time",
  "For every full window of the last n messages, the peak detector emits the message at the centre of the window (position floor(n/2) from the oldest), with its own timestamp and value, if and only if no message of that window has a larger value. Nothing is emitted before n messages were received.",
  ["inputs", "histories", "configurations"], "for every window size and stream, including plateaus, monotone runs and repeated values",
  NOT, [STD+"PeakDetector.h"], [("comparison of the centre with every window element", STD+"PeakDetector.h processData")], ["emitted messages"])

p("C06", "Autoregressive filter obeys y(t) = x(t) + sum c_i y(t-i) with zero history",
  "Each input message x produces exactly one output with the same timestamp and the value x plus the weighted sum of the previous outputs, the first coefficient weighting the most recent output. Before the first outputs exist the history is zero.",
  ["inputs", "histories", "configurations"], "for every coefficient vector and stream",
  NOT + " The existing test uses symmetric situations that do not fix the coefficient order.", [STD+"AutoRegressive.h"], [("recursion over the stored outputs", STD+"AutoRegressive.h executeData/processData")], ["emitted messages"])

p("C07", "Pointwise, threshold and accumulating operators apply their exact definition",
  "Add, scale, power, constant, identity and output operators emit one message per input, with the input's timestamp and the documented function of its value; greater-than, less-than and equal-to forward exactly the messages whose value strictly exceeds, strictly undercuts or equals the threshold, unchanged. Count and cumulative sum emit, with the input's timestamp, the number of messages and the sum of the values received so far.",
  ["inputs", "histories", "configurations"], "for every parameter and stream of finite values, including values equal to the threshold and long streams",
  NOT, [STD+"Add.h", STD+"Scale.h", STD+"Power.h", STD+"Constant.h", STD+"Identity.h", STD+"GreaterThan.h", STD+"LessThan.h", STD+"EqualTo.h", STD+"Count.h", STD+"CumulativeSum.h", CORE+"Output.h", CORE+"FilterByValue.h"],
  [("per-message function", STD), ("filter predicate", CORE+"FilterByValue.h")], ["emitted messages"])

p("C08", "Time shift moves timestamps by exactly dt*times and never below zero",
  "Every message is re-emitted once with its value unchanged and its timestamp moved by dt multiplied by times; a zero shift changes nothing. Where the shifted time would be negative it is zero instead.",
  ["inputs", "configurations"], "for every dt, every positive, zero or negative number of times, signed and unsigned time types, and every timestamp",
  NOT + " The test uses one positive and one negative shift with a signed time type, while every JSON program uses an unsigned one.", [STD+"TimeShift.h"], [("sign handling of the shift", STD+"TimeShift.h processData")], ["emitted messages"])

p("C09", "Function operator interpolates the configured points and extrapolates both ends",
  "Every message is re-emitted once, at its own time, with the value of the piecewise function through the configured points, whose order in the configuration is irrelevant: at a configured abscissa the result is the configured ordinate. Between points it follows the linear, or cubic Hermite with finite-difference tangents, interpolation, and outside the range the first or last segment's curve is extended.",
  ["inputs", "configurations"], "for every set of at least two distinct abscissas, both interpolation types, and every input value below, at, between and above the points",
  NOT, [STD+"Function.h"], [("segment search and interpolation", STD+"Function.h processData")], ["emitted messages"], [("points", "sorted interpolation points", STD+"Function.h")])

p("C10", "Constant resampler holds the last value on an exact grid",
  "After its first message at t0 the constant resampler emits exactly the grid points t0+dt, t0+2dt, ..., each exactly once and in order, as soon as a message at or after the grid point arrives. The value is that of the latest message at or before the grid point.",
  ["inputs", "histories", "configurations"], "for every interval and every strictly increasing stream, with gaps smaller than, equal to and many times larger than the interval",
  NOT, [STD+"ConstantResampler.h"], [("next emission time", STD+"ConstantResampler.h processData")], ["emitted messages"], [("nextEmit,lastValue", "next grid point and value held", STD+"ConstantResampler.h")])

p("C11", "Cosine resampler emits an exact uniform grid of cosine interpolated values",
  "The cosine resampler emits exactly the grid points first-time + k*dt (k>=1), each once and in order, as soon as a message at or after the grid point has arrived, however the input gaps compare with dt. The value is the cosine interpolation of the two messages surrounding the grid point (the message's own value where the grid hits it).",
  ["inputs", "histories", "configurations"], "for every dt >= 1 and every strictly increasing stream, with gaps smaller than, equal to and many times larger than dt",
  NOT, [STD+"CosineResampler.h"], [("carry-over between intervals", STD+"CosineResampler.h processData")], ["emitted messages"], [("carryOver", "time since the last grid point", STD+"CosineResampler.h")])

p("C12", "Hermite resampler emits an exact uniform grid of cubic Hermite values",
  "From its fourth message on, the Hermite resampler emits exactly the grid points first-time + k*dt (k>=1) that lie at or before the second newest message, each once and in order, one message behind its input. The value is the cubic Hermite interpolation of the four messages around the grid point; for the first interval the missing left neighbour is taken from the least-squares line through the first four messages.",
  ["inputs", "histories", "configurations"], "for every dt >= 1 and every strictly increasing stream, including epoch-millisecond timestamps and input gaps smaller than dt",
  NOT, [STD+"HermiteResampler.h"], [("carry-over between intervals", STD+"HermiteResampler.h lookAt"), ("artificial left neighbour", STD+"HermiteResampler.h get")], ["emitted messages"])

p("C13", "Relative strength index follows Wilder's recursion over the whole stream",
  "The relative strength index emits nothing for the first n messages and then one value per message at that message's time: averages of gains and losses start as plain means of the first n changes and are then smoothed with weight 1/n. The value is 100-100/(1+gain/loss), hence within [0,100], and 100 when the average loss is zero.",
  ["inputs", "histories", "configurations"], "for every period n >= 1 and every stream", NOT, ["libs/finance/include/rtbot/finance/RelativeStrengthIndex.h"],
  [("smoothed averages", "libs/finance/include/rtbot/finance/RelativeStrengthIndex.h processData")], ["emitted messages"])

p("C14", "Variable answers every time query with the value in force at the query time",
  "For each query timestamp received on its control port, in increasing order, a variable emits exactly one message at that timestamp: the value of the latest data message at or before the query time, or the configured default if the query precedes all data. A query is answered as soon as the data received is sufficient to decide it (a data message at or after the query time, or with an exactly equal time), whatever the interleaving of data and queries.",
  ["inputs", "schedules"], "for every strictly increasing data stream, strictly increasing query stream and interleaving of the two",
  NOT, [STD+"Variable.h"], [("query resolution", STD+"Variable.h query")], ["emitted messages after each delivery"], [("dataInputs/controlInputs", "pending data and queries", STD+"Variable.h")])

p("C15", "Demultiplexer routes each message to exactly the ports whose control says 1",
  "When the data message and the control messages (0 or 1) of all control ports for its timestamp have arrived, in whatever order, the demultiplexer immediately emits the unchanged data message on exactly the output ports whose control was 1, and on no port if all were 0. Every data message is routed exactly once, in order; control messages older than the data message being routed are discarded.",
  ["inputs", "schedules", "configurations"], "for every number of ports, control assignment and interleaving of data and control messages",
  NOT, [CORE+"Demultiplexer.h"], [("matching of data and control heads", CORE+"Demultiplexer.h join")], ["emitted messages after each delivery"])

p("C16", "Serialising and restoring a program at any point changes nothing observable",
  "For every program and every point of its history, the program rebuilt from its serialised bytes produces, for every continuation, exactly the outputs the original would have produced, and serialises to a state equivalent to the one it was restored from. Taking the snapshot does not disturb the running program, and this holds for every operator kind, including nested pipelines.",
  ["programs", "histories", "crash_points"], "for every generated program over all operator kinds, every prefix of input and every continuation, with repeated save/restore",
  NOT + " The serialisation tests check a couple of programs at one point.",
  [API+"include/rtbot/Program.h", API+"src/Program.cpp", API+"include/rtbot/FactoryOp.h", API+"src/FactoryOp.cpp", API+"include/rtbot/Pipeline.h", CORE+"Operator.h", CORE+"Message.h", CORE+"Input.h", CORE+"Composite.h", STD],
  [("collect/restore of every operator", CORE+"Operator.h"), ("serialise: definition + per-operator state", API+"src/Program.cpp serialize")], ["outputs of original and restored program", "serialised bytes"])

p("C17", "Program output depends only on the definition and the per-port input streams",
  "Two programs built from the same definition and fed the same input produce the same messages, however the input is cut into batches; so do programs whose definition lists the operators in another order or renames them, or lists independent connections in another order. Instances do not influence each other and running a program twice gives the same result.",
  ["programs", "schedules", "configurations"], "for every generated program, every input history, every batching and every permutation of the definition",
  NOT, [API+"include/rtbot/Program.h", API+"src/Program.cpp", CORE+"Operator.h"], [("synchronous depth-first propagation", CORE+"Operator.h emit")], ["program outputs"])

p("C18", "A program computes the composition of its operators, filtered by its output map",
  "The full trace of a program lists, for every operator and output port, exactly the messages that operator's own definition yields on the streams arriving at its inputs, in order. The normal result is exactly the part of that trace selected by the declared output map, nothing more and nothing less (everything, if no output map is declared).",
  ["programs", "inputs", "configurations"], "for every generated acyclic program over all operator kinds, every output map and every input history",
  NOT, [API+"include/rtbot/Program.h", API+"src/Program.cpp", CORE+"Operator.h"], [("message propagation and merging of outputs", CORE+"Operator.h emit/mergeOutput"), ("output filter", API+"include/rtbot/Program.h receive")], ["results of receive and receiveDebug"])

p("C19", "The program registry keeps programs isolated through any history of calls",
  "Through any history of create, restore, delete, buffer, process, query and serialise calls on any set of program ids, each live program behaves exactly as if it were alone, and buffered messages are delivered once, per port in insertion order, at the next processing call and then forgotten. Calls naming an unknown id are refused without creating anything, creating under an existing id never disturbs the existing program, and a deleted program leaves no trace for a later program of the same id.",
  ["histories"], "for every sequence of registry calls over several ids, including recreation after deletion with messages still buffered",
  NOT, [API+"include/rtbot/FactoryOp.h", API+"src/FactoryOp.cpp"], [("map of programs, per-program message buffer", API+"include/rtbot/FactoryOp.h")], ["return values of every registry call"], [("programs,messageBuffer", "live programs and buffered input", API+"include/rtbot/FactoryOp.h")])

p("C20", "Operator definitions survive a JSON round trip and honour every documented field",
  "Creating any operator from a JSON definition, writing it back and creating it again yields an operator with identical behaviour and identical JSON, preserving type, id and every documented parameter at full precision. Optional fields that are left out take their documented default, and the written definition is accepted wherever the original was.",
  ["configurations", "inputs"], "for every operator kind, every valid parameter set (large and fractional values included) and every subset of optional fields",
  NOT, [API+"src/FactoryOp.cpp"], [("to_json/from_json per operator", API+"src/FactoryOp.cpp"), ("operator registry", API+"include/rtbot/FactoryOp.h")], ["writeOp(readOp(json))", "behaviour of the rebuilt operator", "program listing"])

p("C21", "A nested pipeline behaves exactly like its operators wired in place",
  "A pipeline operator used inside a program produces on its output ports exactly the messages that the same operators produce when wired directly into the program. Its input and output ports are the unconnected ports of its operators, numbered in the sorted order of operator id and port.",
  ["programs", "inputs"], "for every generated inner operator graph and every embedding program and input",
  NOT, [API+"include/rtbot/Pipeline.h", API+"src/Pipeline.cpp"], [("port mapping", API+"src/Pipeline.cpp"), ("forwarding of inner results", API+"include/rtbot/Pipeline.h executeData")], ["messages emitted by the pipeline"])

p("C22", "A composite operator behaves exactly like the operators it is built from",
  "An operator assembled through the composite builder emits, message by message, exactly what the same operators with the same parameters emit when wired together by hand, for every kind of operator the builder offers. Reusing an operator id, or declaring a second input or output, is refused and leaves the composite usable.",
  ["programs", "inputs", "configurations"], "for every generated composite over all creatable operator kinds and every input",
  NOT, [CORE+"Composite.h"], [("create... builder functions", CORE+"Composite.h"), ("forwarding between outer and inner ports", CORE+"Composite.h")], ["messages emitted by the composite"])

p("C23", "Invalid program definitions are refused cleanly and leave no trace",
  "A definition that is not JSON, misses a required field, names an unknown operator type, connects unknown operators or ports, or has a missing or unsuitable entry operator is refused with an error, never a crash, hang or silently broken program. Afterwards no program exists under that id, other programs are unaffected, and the id can be used for a valid definition.",
  ["inputs", "configurations"], "for every single or multiple fault injected into a generated valid definition and for arbitrary text",
  NOT, [API+"src/Program.cpp", API+"src/FactoryOp.cpp", API+"src/Pipeline.cpp", CORE+"Operator.h"], [("validation while building operators and connections", API+"src/Program.cpp init")], ["return value or exception of createProgram", "later registry calls"])

p("C24", "Outputs are causal, strictly ordered in time and translation equivariant",
  "For strictly increasing inputs, every operator output port emits strictly increasing timestamps, never later than the newest input delivered so far (time shifts excepted), and what has been emitted for a prefix of the input is never changed by later input. Shifting all input timestamps by a constant shifts all output timestamps by that constant and leaves every value the same.",
  ["programs", "inputs", "histories"], "for every generated program, input history, prefix and time offset",
  NOT, [CORE+"Operator.h", CORE+"Join.h", CORE+"Input.h", STD], [("timestamps copied from input messages", STD)], ["emitted timestamps and values"])

p("C25", "State kept by an operator is bounded by its windows and unmatched messages",
  "An operator keeps only what its definition needs: window operators at most their window, resamplers a constant number of messages, synchronising operators only messages newer than their last tuple that still wait for another port, a demultiplexer and a variable only messages not yet answered or in force. Feeding aligned streams of any length therefore does not make the serialised state of a program grow.",
  ["histories", "programs"], "for every generated program with aligned inputs and every stream length", NOT,
  [CORE+"Operator.h", CORE+"Join.h", CORE+"Demultiplexer.h", STD+"Variable.h", STD+"AutoRegressive.h"], [("pop of consumed messages", CORE+"Operator.h receiveData, Join.h, Demultiplexer.h, Variable.h")], ["size of the serialised state", "buffer sizes"])

p("C26", "Connections deliver every emitted message exactly once to each connected port",
  "A connection delivers every message emitted on its source port to its target port exactly once and in emission order, to data and control ports alike, independently of the other connections of that source. Ports left out of the connection default to the only port of the operator; a port that does not exist or cannot be deduced is refused, and nothing is connected then.",
  ["configurations", "inputs"], "for every pair of operators, port naming (explicit, omitted, invalid) and fan-out / fan-in shape",
  NOT, [CORE+"Operator.h"], [("connect", CORE+"Operator.h connect"), ("emit", CORE+"Operator.h emit")], ["messages received by connected collectors", "exceptions and null results of connect"])

p("C27", "The JSON binding layer is equivalent to the native registry",
  "Every call of the JSON binding layer returns the exact JSON rendering of what the native registry yields for the same history: processing a batch equals buffering its messages one by one, debug variants return the full trace, entry and output-map queries match the definition, and times and values survive unchanged. Definitions that do not satisfy the published schema are rejected with a reason and create nothing, those that do are accepted.",
  ["histories", "inputs"], "for every history of binding calls over generated programs, batches of any length and port mix, and mutated definitions",
  NOT + " The bindings are not part of the build.", [API+"src/bindings.cpp", API+"include/rtbot/bindings.h", "tools/generator/src/index.ts"], [("JSON conversion and buffering", API+"src/bindings.cpp")], ["returned JSON strings"])

p("C28", "The Python program builder describes and runs exactly the native program",
  "A program assembled with the Python classes serialises to a definition the native engine accepts, containing exactly the operators, parameters, connections, entry operator and metadata that were declared. Running it over a series of rows returns, for every operator port that emitted, exactly the times and values the native engine emits, and a refused program raises the engine's reason; duplicate operators and connections to unknown operators are refused.",
  ["programs", "inputs", "configurations"], "for every generated program built through the Python classes and every input table",
  NOT + " The Python package is not part of the build.", ["libs/wrappers/python/rtbot.py", "libs/wrappers/python/rtbot.cpp", "tools/generator/src/index.ts", "tools/generator/templates"], [("Program.toJson, Run.exec", "libs/wrappers/python/rtbot.py"), ("generated operator classes", "tools/generator")], ["JSON text", "run results"])

p("C29", "The JavaScript program model and runner mirror the native engine",
  "Editing a program through the JavaScript model (adding and deleting operators and connections, in any order) leaves exactly the declared operators and connections, and its JSON describes exactly that program. Running it sends every input message to the right port once, in order, and returns the native results unchanged. Messages sent without waiting for the answers to earlier ones are still processed one by one in the order they were sent, and each answer is that of its own message.",
  ["histories", "programs", "schedules"], "for every sequence of editing operations, every input series and every overlap of calls",
  NOT, ["libs/wrappers/javascript/src"], [("Program editing", "libs/wrappers/javascript/src/program.ts"), ("RtBotRun", "libs/wrappers/javascript/src/api.ts"), ("generated operator classes", "tools/generator")], ["resulting operators, connections, JSON, calls made to the engine"])

p("C30", "The pipeline registry feeds exactly the live pipelines of each input key",
  "Through any history of creating, deleting and feeding pipelines keyed by input and output key, a message sent to an input key reaches exactly the live pipelines of that key, once each and unchanged, and their results are reported under the matching output keys. A key pair already taken, or a program the engine refuses, leaves the registry as it was; deleted pipelines are released in the engine and never fed again. Every operation terminates.",
  ["histories"], "for every sequence of registry operations over a small set of input and output keys, with programs the engine accepts or refuses",
  "The Rust crates are not part of the build and have no tests of the registry.", ["apps/rtbot-rs/src/pipelines_registry.rs"], [("two-level map of pipelines", "apps/rtbot-rs/src/pipelines_registry.rs")], ["results of every operation", "calls made to the engine"])

p("C31", "The debug command shows exactly what the program emits on the file's data",
  "The debug command reads the first column of the file as times and the second as values, applies the two scale factors, leaves out rows that are not two numbers, and returns for every remaining row, in file order, the message sent and everything the native engine emits for it, printed or written to the output file, and nothing for a run that fails. The interactive screen shows at any iteration one column per output port of each selected operator and one row for that iteration and the ones that follow, with exactly the messages of that port, and moves forward, backward, plays and stops within the iterations of the run, whatever was pressed before.",
  ["programs", "inputs", "histories"], "for every valid program with one entry port, every comma separated file, every pair of scale factors and every sequence of keys and selections",
  "The command line interface is not part of the build and has no tests.", ["apps/cli/src/commands/debug.ts", "apps/cli/src/tui"], [("preparation of the rows", "apps/cli/src/commands/debug.ts"), ("columns and rows of the table", "apps/cli/src/tui/store.ts"), ("keys", "apps/cli/src/tui/index.ts")], ["printed or written output", "tables, boxes and rendering given to the screen", "exit status"])

p("C32", "Every generated language binding describes exactly the documented operators",
  "For any set of operator documents the code generator writes a program schema, a C++ header, a Python module, a TypeScript module and reference pages that describe exactly the documented operators, each with its documented parameters in order, required or with their documented default, whatever the descriptions contain. An operator created with the same arguments is the same definition in Python and in TypeScript, arguments the document does not admit are refused, the usage a page shows is an operator the schema accepts, and a document that describes no operator is left out without affecting the others.",
  ["inputs"], "for every set of operator documents with required parameters before optional ones, and every argument list",
  "The generator is not part of the build and has no tests.", ["tools/generator/src/index.ts", "tools/generator/src/handlebars.ts", "tools/generator/templates"], [("reading of the documents", "tools/generator/src/index.ts"), ("templates", "tools/generator/templates")], ["generated files", "operators created by the generated classes"])

p("C33", "The redis commands store the program's outputs and feed the live pipelines",
  "RTBOT.RUN puts in the output series exactly what the program emits for the samples of the input series, in place of whatever the key held, and leaves no pipeline behind. RTBOT.XRUN does the same and keeps the pipeline, which from then on receives every sample added to the input series once, adds what it emits to the output series and publishes it on the channel \"<output>:ps\". Every program that has the shape the engine accepts is admitted. Neither command disturbs the pipelines already running, and a command that fails (missing arguments, no program, a program that is refused, no input series, a pair of keys already taken) reports an error, changes no key and leaves no pipeline behind.",
  ["histories"], "for every history of commands, samples and changes of keys, with different keys for inputs and outputs and the samples of an input in order",
  "The redis module is not part of the build and has no tests.", ["apps/redis-module/src", "apps/rtbot-rs/src/pipelines_registry.rs"], [("rtbot.run", "apps/redis-module/src/commands/rtbot_run.rs"), ("rtbot.xrun and notifications", "apps/redis-module/src/commands/rtbot_xrun.rs"), ("shape of a program", "apps/redis-module/src/program_validator.rs")], ["replies", "keys of the server", "published messages", "pipelines held by the engine"])

p("C34", "The server stores every usable input message and passes every output on",
  "The server creates an input series, stores the configured program and runs it over fresh keys before anything else. Every text message of the input websocket in which the configured mappings find a time and a first value (a number or its decimal text) adds exactly one sample with that time and value to the input series, in order; any other message adds nothing and does not keep the later ones from being stored, nor does a sample redis refuses. Every message published for the program's outputs reaches every client connected at that time exactly once and in order, with its time and values, whatever other clients do: arrive, go away or stop reading. It listens to the configured port, answers the health check, and says not found to anything else.",
  ["histories", "faults"], "for every configuration, and every history of input messages, publications, clients coming and going and refused samples",
  "The server is not part of the build and has no tests.", ["apps/rtbot-server/src"], [("input messages to samples", "apps/rtbot-server/src/main.rs"), ("keys and program", "apps/rtbot-server/src/push_redis_service.rs"), ("outputs to clients", "apps/rtbot-server/src/main.rs, pull_redis_service.rs, ws_client.rs"), ("configuration files", "apps/rtbot-server/src/config.rs")], ["commands sent to redis", "messages sent to each client", "replies"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
