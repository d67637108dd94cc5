"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (python3 tools/spec.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, level, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, observe=observe, level=level, technique=technique, note=note,
                  state=state or []))


SIM = ("real pyzwave code on an asyncio loop with virtual time and an in-memory datagram network; "
       "a fake Z/IP gateway written against an independent wire codec generates the traffic")

prop("C01", "Commands are encoded exactly as their documented wire layout",
     "For every command type that can be composed and every in-range field value, the encoded bytes are the command class id, "
     "the command id and then the documented fields in order, each in its documented width, byte order and bit position, with reserved "
     "bits zero and length prefixes correct. A field that cannot be represented in its width never silently changes any other field.",
     ["inputs"], "all composable command types x all in-range field values (plus out-of-range values for single fields)",
     "Tests compose about twenty fixed messages with one value each; the bit-level packing has to be right for every value of every field.",
     ["pyzwave/types.py", "pyzwave/message.py", "pyzwave/commandclass/*.py"],
     [("BitStreamWriter / per-type serialize", "pyzwave/types.py"), ("Message.compose", "pyzwave/message.py")],
     ["bytes returned by Message.compose()"],
     "exploration", "differential monitor: compose() against an independent reference codec",
     "Generated field values incl. all boundaries for every composable type; trusts the reference tables in mon/codec.py (written from the "
     "Z-Wave command tables and the MASK/SHIFT constants in the repo).")

prop("C02", "Well-formed frames decode to exactly the transmitted values",
     "Decoding a well-formed frame of any known command yields that command with every field equal to the transmitted value (bit fields, signed and "
     "scaled numbers, node and sensor bit masks, DSKs, IPv6 addresses, association lists, header extensions, nested commands, the queue handle of a failing node also where the gateway sends it as the last byte of an address), and a "
     "frame of an unknown command yields its command class and command id. Reserved bits and unknown optional header options never change the other fields, "
     "and a decoded command that can be composed re-encodes to an equal frame with its reserved bits zero (except packets that carry a header extension, no command or an unknown command).",
     ["inputs"], "all known command types x all in-range field values x reserved-bit noise x nesting",
     "Tests decode a few captured packets; correctness must hold for every value and every bit position.",
     ["pyzwave/types.py", "pyzwave/message.py", "pyzwave/util.py", "pyzwave/commandclass/*.py"],
     [("BitStreamReader / per-type deserialize / parse_*", "pyzwave/types.py"), ("Message.decode", "pyzwave/message.py")],
     ["Message returned by Message.decode()"],
     "exploration", "differential monitor: decode() against an independent reference encoder",
     "Reference-encoded random/boundary frames of every type; trusts mon/codec.py tables.")

prop("C03", "Malformed traffic is contained and never disturbs later traffic",
     "Whatever bytes arrive from the gateway, from a node or at the unsolicited listener, processing them never raises into the event loop, never "
     "delivers a non-command to the application and never breaks pending or later operations: later valid acknowledgements, replies, unsolicited "
     "reports and node list updates are still processed (a truncated command that answers a pending request may end that request). Describing any decoded command as a debug string never fails.",
     ["inputs", "histories"], "arbitrary byte strings, truncations, mutations of valid frames, on both sockets, interleaved with valid traffic",
     "Tests feed one undecodable packet; containment is over all byte strings and their position in the history.",
     ["pyzwave/zipconnection.py", "pyzwave/zipgateway.py", "pyzwave/message.py", "pyzwave/util.py", "pyzwave/application.py", "pyzwave/node.py"],
     [("decode guard in onPacket", "pyzwave/zipconnection.py"), ("onUnsolicitedMessage", "pyzwave/zipgateway.py")],
     ["event loop exception handler", "messages delivered to listeners", "later send results"],
     "exploration", "hostile-input fuzzing under loop-exception sanitizer and liveness probes",
     SIM + "; mutation fuzzing of both sockets.")

prop("C04", "send() reports success exactly when its own acknowledgement arrives in time",
     "Sending a command over a Z/IP connection transmits it exactly once in a packet requesting an acknowledgement, and reports True if and only if a positive acknowledgement "
     "with that packet's sequence number arrives before the timeout, otherwise False, no later than the timeout. "
     "Other, negative, duplicate, late or reordered acknowledgements and other concurrent, timed-out or cancelled sends never change that result, and two commands in flight "
     "together never carry the same sequence number.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent sends, cancellations and acknowledgement loss/duplication/reordering/delay, over histories past sequence wrap",
     "Tests send one command and ack it; the matching has to hold under concurrency, wrap-around and boundary timing.",
     ["pyzwave/zipconnection.py", "pyzwave/adapter.py"],
     [("sequence numbers and ack queue", "pyzwave/adapter.py"), ("send", "pyzwave/zipconnection.py")],
     ["datagrams on the wire", "send() results and virtual completion times"],
     "exploration", "trace monitor over wire + API events under virtual-time schedule/fault injection",
     SIM + ". At the exact timeout instant either result is accepted.")

prop("C05", "Commands queued for sleeping nodes are waited for as announced",
     "When the gateway answers that a command is queued for a sleeping node, the send stays pending for the announced delay plus 60 seconds (180 seconds if the announced delay is "
     "negative, 60 seconds if none is announced), restarted by each further such answer; it then reports False at that time, or True as soon as the "
     "acknowledgement arrives. Other sends are unaffected.",
     ["histories", "schedules"], "all announced delays, repeated waiting answers, and ack times relative to them",
     "One test uses one delay; the deadline arithmetic has to hold for every delay, repetition and timing.",
     ["pyzwave/adapter.py", "pyzwave/zipconnection.py", "pyzwave/commandclass/Zip.py"],
     [("Ack.queued/Ack.wait", "pyzwave/adapter.py"), ("HeaderExtension.expectedDelay", "pyzwave/commandclass/Zip.py")],
     ["send() result and its virtual time"],
     "exploration", "deadline monitor against a reference timeline under virtual time",
     SIM + ".")

prop("C06", "Requests return the first matching reply and do not disturb each other",
     "A request to the gateway or a node that is acknowledged returns the first message of the awaited type that answers it (the one for the requested parameter, group, sensor type, command class or node, where the reply names one) and arrives after the call started, even if it arrives before the acknowledgement, "
     "and raises a timeout if none arrives in time. How one request ends (reply, timeout, failed send, cancellation) never affects "
     "another pending request. After all requests for a type have ended, later messages of it go to the listeners and are not swallowed.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of requests, replies, acks, losses, timeouts and cancellations",
     "Tests run single requests with a scripted reply; cross-request interference needs interleavings.",
     ["pyzwave/util.py", "pyzwave/adapter.py", "pyzwave/node.py"],
     [("MessageWaiter sessions", "pyzwave/util.py"), ("sendAndReceive", "pyzwave/adapter.py"), ("sendAndReceive", "pyzwave/node.py")],
     ["request results/exceptions", "listener deliveries"],
     "exploration", "history checker against a reference waiter model under schedule/fault injection",
     SIM + ". Ties at the exact timeout instant accept both results.")

prop("C07", "Commands to a node go only to that node, over one connection",
     "A command for a node is transmitted only to the address the gateway advertised for that node id, with the requested source and destination endpoint, whatever the order, "
     "loss or staleness of the advertisements and however many lookups run at once. All commands to a node share one connection, also when first used concurrently; a lookup or connection attempt that failed does not prevent later commands from reaching the node; and a reply received there "
     "is delivered as coming from that node and endpoint.",
     ["schedules", "histories"], "all orders of concurrent first uses and address advertisements",
     "Tests resolve one node at a time with an immediate answer.",
     ["pyzwave/zipgateway.py", "pyzwave/zipconnection.py", "pyzwave/node.py"],
     [("connectToNode / ipOfNode / sendToNode", "pyzwave/zipgateway.py"), ("onMessageReceived", "pyzwave/zipgateway.py")],
     ["datagrams per destination", "endpoints created", "messageReceived events"],
     "exploration", "wire-level routing monitor under concurrent lookups and adversarial advertisements", SIM + ".")

prop("C08", "Unsolicited messages are attributed to their source node and acked once",
     "A valid command arriving at the unsolicited listener from the address of a known node is delivered exactly once, for that node, with its source endpoint and header extension; commands from unknown addresses are not "
     "delivered to any node, nor are datagrams that are not Z/IP packets. A node list that is reported again without changes does not disturb this. If and only if it requests an acknowledgement and its source is known, exactly one positive acknowledgement is sent "
     "to the sender's address and port, with the same sequence number and swapped endpoints. (Node list reports of the gateway itself are judged by C09.)",
     ["inputs", "histories"], "all source addresses, endpoints, sequence numbers, flags, extensions and node-table states",
     "Tests deliver one or two messages from a fixed table.",
     ["pyzwave/zipgateway.py", "pyzwave/application.py", "pyzwave/commandclass/Zip.py"],
     [("onUnsolicitedMessage", "pyzwave/zipgateway.py"), ("ZipPacket.response", "pyzwave/commandclass/Zip.py")],
     ["node-level deliveries", "datagrams sent by the listener"],
     "exploration", "exactly-once delivery monitor with uniquely tagged messages", SIM + ".")

prop("C09", "The node registry follows the gateway's node list",
     "After startup and after any sequence of node list reports, including reports arriving while earlier ones are still being processed, once quiet the application's nodes are exactly "
     "the last reported list without the controller (plus their endpoints). Every node that appears is announced as added "
     "exactly once per appearance, every node that disappears as removed exactly once, and no announcement names a node twice in a row; the registry holds the very node objects that were announced.",
     ["histories", "schedules"], "all sequences and overlaps of node list reports with arbitrary lookup latencies",
     "Tests apply one list update with mocked lookups; overlap and convergence need histories.",
     ["pyzwave/application.py", "pyzwave/zipgateway.py"],
     [("nodeListUpdated / startup", "pyzwave/application.py"), ("__handleNodeListReport__ / setupUnsolicitedConnection", "pyzwave/zipgateway.py")],
     ["nodeAdded/nodesAdded/nodeRemoved/nodesRemoved events", "Application.nodes"],
     "exploration", "event-log conservation checker at quiescent points", SIM + ".")

prop("C10", "Nodes are built faithfully from the device's node information",
     "A loaded node has exactly the supported command classes listed before the support/control mark, keeps the controlled ones apart from the supported ones, flags exactly those after the security mark "
     "as requiring security S0, and carries the reported device classes and listening flag. A node supporting multi channel "
     "gets exactly the reported number of endpoint nodes, each with its own reported capabilities and its parent's flags and root node id; no node information list (extended command classes included) prevents loading.",
     ["inputs"], "all node information lists, marks at any position, endpoint counts and capability reports",
     "Tests build two or three nodes from fixed lists.",
     ["pyzwave/node.py", "pyzwave/application.py", "pyzwave/commandclass/CommandClass.py"],
     [("Node.__init__", "pyzwave/node.py"), ("loadNode/loadEndPointNode", "pyzwave/application.py")],
     ["Node.supported/supports/securityS0 and properties"],
     "exploration", "reference-model comparison on generated node information served by a fake gateway", SIM + ".")

prop("C11", "Every supervised command gets exactly one truthful supervision report",
     "For every supervision request received from a node, the encapsulated command is handled exactly as if it had arrived unencapsulated and exactly one supervision report is sent back to that node with the same session id, "
     "status success if it was handled and no-support otherwise. Commands that are not supervised are never answered with a supervision report.",
     ["inputs", "histories"], "all session ids, encapsulated commands, handler outcomes and concurrent sessions",
     "Tests check one handled and one unhandled case.",
     ["pyzwave/node.py", "pyzwave/commandclass/Supervision.py"],
     [("supervision decorator", "pyzwave/node.py")],
     ["datagrams to the node", "listener deliveries"],
     "exploration", "exactly-once reply monitor over wire and listener events", SIM + ".")

prop("C12", "Received commands reach exactly the right listeners",
     "A command received for a node that no pending request consumed is offered once to the listeners of its command class under the name of the command, unless the command class itself handled it, and to the node-level listeners exactly when neither the command class nor a listener of it "
     "reported it handled; it is never offered to another node's or another command class's listeners, and a listener of a command class is offered the commands of its node in the order they arrived. A listener "
     "that raises never keeps the other listeners from receiving it. A command of the gateway itself or of the controller's own node reaches the application listeners once, inclusion and exclusion progress under their own events.",
     ["inputs", "histories"], "all command types, listener sets (sync/async/raising/handling) and pending requests",
     "Tests check one listener at a time.",
     ["pyzwave/node.py", "pyzwave/util.py", "pyzwave/commandclass/CommandClass.py", "pyzwave/application.py"],
     [("Node.handleMessage", "pyzwave/node.py"), ("CommandClass.handleMessage", "pyzwave/commandclass/CommandClass.py"), ("Listenable.speak", "pyzwave/util.py")],
     ["listener call log"],
     "exploration", "listener call-log monitor against a reference dispatch model", SIM + ".")

prop("C13", "Interviews record what the device reported and are honest about completion",
     "Interviewing a node asks every supported command class, requesting its version first if unknown, and stores exactly the values the device reported for that command class, sensor or group. A command class is marked interviewed only if its "
     "version is known and its own exchange completed in its last interview; "
     "one command class that does not answer never prevents the others from being interviewed.",
     ["histories", "fault_sequences"], "all device capability sets, lost/late/duplicated reports at every step",
     "Tests interview single command classes with perfect answers.",
     ["pyzwave/node.py", "pyzwave/commandclass/*.py"],
     [("interviewDecorator/requestVersion", "pyzwave/commandclass/CommandClass.py"), ("Node.interview", "pyzwave/node.py")],
     ["stored attributes, interviewed and version", "requests on the wire"],
     "fault_enumeration", "simulated devices with per-request fault injection and a reference outcome model", SIM + ".")

prop("C14", "Associations mirror the device and the lifeline is established",
     "After an association interview whose requests were answered the stored groups are exactly the device's reported groups with the reported maximum and member nodes (with endpoints for multi channel devices). For a Z-Wave Plus device whose lifeline group does not contain the controller "
     "it is added exactly once, using the multi channel form exactly when the device supports both multi channel classes, and the group is re-read; otherwise no association is written.",
     ["inputs", "fault_sequences"], "all group tables, memberships, capability combinations and unanswered groups",
     "Tests use two fixed devices.",
     ["pyzwave/commandclass/Association.py", "pyzwave/commandclass/MultiChannelAssociation.py"],
     [("Association.interview/setupLifeLine", "pyzwave/commandclass/Association.py"), ("Nodes.contains", "pyzwave/commandclass/Association.py")],
     ["association commands on the wire", "stored groups"],
     "fault_enumeration", "simulated device with association table; state and wire comparison", SIM + ".")

prop("C15", "Node settings survive a restart unchanged",
     "Whatever has been learned about a node's command classes (versions, interviewed flags and every stored attribute) is saved when it is learned and restored identically, with equal values of the same types, "
     "when the node is loaded again from the same storage path, and nothing is restored into other nodes or other command classes. Saving works for any existing or missing storage directory, also when it is lost or moved meanwhile.",
     ["histories", "inputs"], "all sets of command classes, attribute values and save/restart sequences",
     "Tests compare one mocked YAML document.",
     ["pyzwave/persistantstorage.py", "pyzwave/util.py", "pyzwave/commandclass/CommandClass.py", "pyzwave/commandclass/*.py"],
     [("YamlStorage.nodeUpdated/nodeAdded", "pyzwave/persistantstorage.py"), ("__getstate__/__setstate__", "pyzwave/util.py")],
     ["files under a scratch path", "attributes of the reloaded node"],
     "exploration", "save/reload round-trip monitor on real files", "Real YamlStorage on scratch directories with generated node states.")

prop("C16", "Storage lock: nothing is saved inside, everything changed is saved once after",
     "While a node's storage lock is held no save is signalled for that node; when the outermost lock is released, normally or by an exception, exactly one save is signalled if anything changed and none otherwise. Outside a lock every change is signalled immediately. "
     "This holds for nested and concurrent use of the lock, and one node's lock never affects another node.",
     ["histories", "schedules"], "all nestings, overlaps across tasks, exceptions and change sequences",
     "Tests use a single lock once.",
     ["pyzwave/node.py"],
     [("storageLock/commandClassUpdated", "pyzwave/node.py")],
     ["nodeUpdated events"],
     "exploration", "event-log monitor against a lock-depth reference model", "Generated concurrent lock/change schedules on real nodes.")

prop("C17", "Damaged or unwritable settings never take the application down",
     "Whatever the content of a node's settings file (empty, truncated, binary, wrong structure, out-of-range values) startup completes and the node is usable with defaults for what cannot be read. "
     "A save that fails, for example because the disk is full or a directory is missing or read-only, never breaks message processing, and neither disturbs the settings of other nodes.",
     ["crash_points", "inputs", "fault_sequences"], "all truncation points/corruptions of settings files and I/O failures at each save step",
     "Tests only use well-formed settings.",
     ["pyzwave/persistantstorage.py", "pyzwave/util.py", "pyzwave/application.py"],
     [("YamlStorage", "pyzwave/persistantstorage.py"), ("Listenable.speak guard", "pyzwave/util.py")],
     ["startup completion", "nodes available", "loop exceptions"],
     "fault_enumeration", "enumerated truncation points and injected I/O errors under a liveness monitor", "Truncation at every byte of real settings files plus injected OSErrors.")

prop("C18", "The mailbox delivers every queued message once, in order",
     "A message pushed to the mailbox is reported as waiting to the gateway and, if that was accepted, kept until it has been delivered; on each wake-up or acknowledgement the oldest queued entry of that queue is sent, with the last flag set exactly when nothing remains, and an empty queue answers with an empty entry flagged last. "
     "No accepted entry is lost (also when its delivery fails), delivered twice after success, or delivered to another queue, and an entry identical to one already waiting in that queue (the same checksum) is not queued again. "
     "Initializing the mailbox configures forwarding to exactly the given address and port, once, and returns whether the gateway acknowledged it.",
     ["histories", "schedules", "fault_sequences"], "all push/wake-up/ack histories over several queues with delivery failures and concurrency",
     "Tests push and pop one entry.",
     ["pyzwave/mailbox.py"],
     [("MailboxService push/pop", "pyzwave/mailbox.py")],
     ["mailbox commands sent"],
     "exploration", "queue-history checker (FIFO, conservation, exactly-once) with unique payloads", "Real MailboxService with a fault-injecting adapter on virtual time.")

prop("C19", "Mailbox entries are kept alive until delivered, and only until then",
     "For every queued mailbox entry a waiting notification is sent to the gateway every 60 seconds, every tenth of them as a ping, each naming the entry's queue and content. "
     "Notifications for an entry start when it has been queued and none is sent after it has been delivered.",
     ["histories", "schedules"], "all queueing/delivery times over long virtual durations",
     "Tests check one heartbeat with a patched sleep.",
     ["pyzwave/mailbox.py"],
     [("QueueItem runner", "pyzwave/mailbox.py")],
     ["waiting/ping commands sent and their virtual times"],
     "exploration", "timed-trace monitor under virtual time", "Real MailboxService with hours of virtual time.")

prop("C20", "The gateway connection is kept alive, without superfluous traffic",
     "Once connected, a keep-alive requesting an acknowledgement is sent whenever, and only when, 25 seconds have passed without anything being sent by a command or an earlier keep-alive on that connection, for as long as it is used.",
     ["schedules", "histories"], "all send schedules over long virtual durations and several connections",
     "Tests check the timer object once.",
     ["pyzwave/zipconnection.py"],
     [("resetKeepAlive/keepAlive", "pyzwave/zipconnection.py")],
     ["datagrams and their virtual times"],
     "exploration", "timed-trace monitor under virtual time", SIM + ".")

prop("C21", "Configuration parameters: cache, reads and writes are exact",
     "Every configuration report received from a node updates the stored value and size of exactly its parameter; a cached read returns the last reported value without traffic, an uncached or first read asks the device for that parameter and returns the value it reports. "
     "A write transmits exactly the given parameter, size and value and returns whether it was acknowledged.",
     ["histories", "inputs"], "all parameters, sizes, values and interleavings of reads, writes and reports",
     "Tests use one parameter.",
     ["pyzwave/commandclass/Configuration.py"],
     [("Configuration.get/set/report handler", "pyzwave/commandclass/Configuration.py")],
     ["wire traffic, return values, stored parameters"],
     "exploration", "reference register-map model over generated histories", SIM + ".")

prop("C22", "Sensor reports are filtered exactly by the supported types and scales",
     "When the supported sensor types and scales of a device are known, a sensor report reaches the application exactly if its type and scale are among them, in every order of reports; when they cannot be known (older versions) every report reaches the application. Values are delivered with the transmitted sign, precision and scale.",
     ["inputs"], "all versions x supported masks x sensor types x scales x values",
     "Tests check three reports.",
     ["pyzwave/commandclass/SensorMultilevel.py", "pyzwave/types.py"],
     [("SensorMultilevel report handler and interview", "pyzwave/commandclass/SensorMultilevel.py")],
     ["listener deliveries"],
     "exploration", "delivery monitor against a reference filter, incl. interviewed simulated sensors", SIM + ".")

prop("C23", "Network management calls return what the gateway reported",
     "Each network management query (node list, node info, failed nodes, endpoints, capabilities, failed node removal) sends one request naming the given node and returns the gateway's reported data, or the documented empty or failure result if no answer comes. "
     "The inclusion and exclusion calls send one command with the documented mode and arguments and report whether it was accepted; request sequence numbers stay valid and change from request to request over arbitrarily long histories.",
     ["histories", "inputs", "fault_sequences"], "all calls/arguments, lost answers, histories past sequence wrap",
     "Tests make each call once with mocked sends.",
     ["pyzwave/zipgateway.py", "pyzwave/commandclass/NetworkManagementInclusion.py", "pyzwave/commandclass/NetworkManagementProxy.py"],
     [("network management methods", "pyzwave/zipgateway.py")],
     ["wire requests, return values"],
     "exploration", "request/return monitor with a reference gateway over long histories", SIM + ".")

prop("C24", "Connecting configures the gateway as required",
     "Connecting reads the gateway mode and sets standalone mode if and only if it is not already set, listens for unsolicited traffic on port 4123, then registers that destination and port with the gateway, and learns the address of every listed node, so that unsolicited messages from each of them are accepted afterwards. A gateway that answers late, partially or not at all never leaves the call hanging.",
     ["schedules", "fault_sequences"], "all gateway modes, node lists, lost and delayed answers at every step",
     "Tests mock each step.",
     ["pyzwave/zipgateway.py", "pyzwave/zipconnection.py"],
     [("connect/setGatewayMode/setupUnsolicitedConnection", "pyzwave/zipgateway.py")],
     ["wire traffic during connect", "later unsolicited deliveries"],
     "fault_enumeration", "handshake trace monitor with a fault injected at each step", SIM + ".")

prop("C25", "Typed attributes keep their declared type and signal exactly the changes",
     "Assigning any acceptable value to a declared attribute of a command, command class or value object stores it converted to the declared type with the same value, reads back equal, and signals an update with new and old value exactly when the value changed. Attributes never assigned read as their defaults, assignments never affect other attributes or other objects, and saved state restored into a new object gives equal attributes.",
     ["inputs", "histories"], "all declared attributes x values x assignment sequences",
     "Tests use a handful of attributes.",
     ["pyzwave/util.py", "pyzwave/types.py", "pyzwave/commandclass/*.py"],
     [("AttributesMixin", "pyzwave/util.py")],
     ["attribute values, attributeUpdated calls"],
     "exploration", "reference attribute-store model over generated assignment histories", "Generated sequences over every declared attribute.")

prop("C26", "The DTLS reader delivers each datagram once in order and guards the PSK buffers",
     "Every datagram (of up to 1500 bytes) arriving at the DTLS socket is handed whole to the message callback exactly once, in order and on the event loop's own thread, with the sender's address in server mode; a read error ends the reader without taking the loop down. "
     "The key callbacks hand over exactly the configured key and never write more bytes into the identity or key buffer than the caller allows.",
     ["schedules", "inputs", "fault_sequences"], "all datagram sequences, thread timings, read errors, key and buffer lengths",
     "Tests mock the socket and never look at buffer bounds or threads.",
     ["pyzwave/dtlsconnection.py"],
     [("DTLSConnection.run", "pyzwave/dtlsconnection.py"), ("clientPskCb/serverPskCb", "pyzwave/dtlsconnection.py")],
     ["callback log with thread ids", "canary-guarded ctypes buffers"],
     "exploration", "cross-thread delivery monitor and canary-buffer memory sanitizer", "Fake DTLS socket (no OpenSSL here); real threads and ctypes callbacks invoked through the C function pointers.")

prop("C27", "UDP transport neither alters, duplicates nor misdirects datagrams",
     "Each message sent on a connected transport reaches the remote peer's port 4123 as exactly one datagram with identical bytes, and each datagram received is passed once, unaltered, to the registered callback, with the sender's address on a listening transport; replies sent to an address reach that address. Sending before connecting reports failure, and stopping one transport never affects another.",
     ["inputs", "histories"], "all payload sizes/contents, several transports, stop/connect orders on real sockets",
     "Tests mock the transport.",
     ["pyzwave/connection.py"],
     [("Connection / ZipClientProtocol", "pyzwave/connection.py")],
     ["bytes on real loopback sockets"],
     "exploration", "conservation monitor with uniquely tagged datagrams on real loopback UDP", "Real asyncio sockets on loopback (paced to avoid kernel drops).")

prop("C28", "Nothing is left behind by operations that are over",
     "A long-running application does not grow: however often requests, commands, gateway queries, address lookups, interviews, storage locks, settings saves, mailbox deliveries, node list changes and connection attempts complete, "
     "fail, time out or are cancelled, and whatever nodes and strangers send, once everything is quiet again no task, timer, open endpoint, object or collection entry remains for any of them: repeating the same traffic "
     "needs no more of them than before. Every operation ends.",
     ["histories", "schedules"], "all repeated mixes of operations x outcomes (answered, lost, late, refused, cancelled at any point) x unsolicited traffic",
     "Tests run one operation in a fresh fixture and never look at what remains; a leak needs repetition and a specific outcome (a timeout, a cancellation, a stranger) to show.",
     ["pyzwave/util.py", "pyzwave/adapter.py", "pyzwave/zipgateway.py", "pyzwave/zipconnection.py", "pyzwave/mailbox.py", "pyzwave/application.py", "pyzwave/node.py", "pyzwave/persistantstorage.py"],
     [("removeWaitingSession / waitForAck cleanup", "pyzwave/util.py, pyzwave/adapter.py"), ("ipOfNode cleanup", "pyzwave/zipgateway.py"), ("QueueItem.stop", "pyzwave/mailbox.py")],
     ["tasks, timers and endpoints of the event loop", "living objects and collections counted at quiet moments"],
     "exploration", "resource-leak monitor (tasks, timers, endpoints, heap census) at quiet points of repeated cycles", SIM + "; growth must continue over 69 cycles before it is reported.")

prop("C29", "A system that went through anything behaves like a new one afterwards",
     "After any history of failed, timed out, cancelled and successful operations, lost and hostile traffic and node list changes, once the network is healthy and the nodes have left and joined again, every later operation "
     "has the same results, sends the same commands, causes the same events and learns the same about the nodes as on a newly started application (sequence numbers, timing and address lookups apart).",
     ["histories"], "all histories x all later scripts of operations (with losses of their own)",
     "Tests start from fresh fixtures; dependence on what happened before needs a particular history followed by a particular operation.",
     ["pyzwave/zipgateway.py", "pyzwave/zipconnection.py", "pyzwave/adapter.py", "pyzwave/util.py", "pyzwave/application.py", "pyzwave/node.py", "pyzwave/mailbox.py"],
     [("session, acknowledgement and lookup bookkeeping", "pyzwave/util.py, pyzwave/adapter.py, pyzwave/zipgateway.py"), ("locks", "pyzwave/zipgateway.py, pyzwave/application.py, pyzwave/mailbox.py")],
     ["results, commands on the wire, listener events and node settings of a worn and a new system running the same script"],
     "exploration", "differential monitor: a worn and a new system on the same script", SIM + ".")

prop("C30", "Inclusion and exclusion work as documented from the user's decision to the usable node",
     "Whatever security a new device asks for and whatever the user decides, an application written as in docs/inclusion.rst is told every step the gateway reports (keys requested, DSK, status) exactly once per report, unaltered and in order, "
     "every decision reaches the gateway exactly once, unaltered and in order, commands the gateway acknowledged return True and the removal of a failed node returns the status the gateway reported (Node.remove: whether it was removed); "
     "a node that joined or left is announced exactly once (0 for a foreign node that was excluded) whether the node list changes before or after the status, nothing is announced for failed and aborted attempts, "
     "and afterwards the application knows exactly the nodes of the network, the new one with its classes and ready to be interviewed.",
     ["histories", "schedules"], "all histories of inclusions, exclusions, failed-node removals and aborts x security x decisions x outcomes x order of status and node list x other traffic",
     "Tests check single commands and single reports against mocks; the dialogue spans gateway, adapter, application and nodes.",
     ["pyzwave/zipgateway.py", "pyzwave/application.py", "pyzwave/commandclass/NetworkManagementInclusion.py", "pyzwave/commandclass/NetworkManagementProxy.py", "pyzwave/types.py"],
     [("ZIPGateway.addNode/addNodeKeysSet/addNodeDSKSet/removeNode/removeFailedNode", "pyzwave/zipgateway.py"), ("Application.onMessageReceived / nodeListUpdated", "pyzwave/application.py")],
     ["commands the gateway receives", "listener events of the application", "results of the adapter's methods", "Application.nodes"],
     "exploration", "online monitor: reference inclusion automaton against a fake gateway that includes and excludes devices", SIM + ".")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fd:
        for p in P:
            fd.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "mon", "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                           "thorough_cmd": "./check %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": "runtime monitoring: " + p["technique"],
                           "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fd:
        json.dump({"version": 1, "setup_cmd": "./setup.sh",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: every monitor observes the public API, the (simulated or real) sockets, files and the event loop. "
                            "VERIF_SEED selects the random cases; replay one with ./check <id> --replay <file>."}, fd, indent=1)
        fd.write("\n")


main()
