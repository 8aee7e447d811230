#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S="src/server/"; L="src/lib/"
p("P01","Tag reads return exactly what was last written",
  "A read of any part of any tag, by any client and of any data type, array length or bit position, returns exactly the bits of the most recent accepted writes and masked writes to that part, and zero where nothing was ever written. A write changes the addressed bits (for a masked write, those the mask selects) and no other bit of that tag or of any other tag, whatever the size of the transfer; a transfer too long for one message is divided only between elements. A request that is refused changes nothing.",
  ["inputs","histories"],"every interleaving of typed, raw and masked reads/writes from several clients over tags of all types and sizes, including transfers larger than one message",
  "the tests write a few fixed values to a few fixed handles; aliasing, off-by-one bit masks and split transfers only show for particular combinations of offset, length and history",
  [S+"tagbase.c",S+"message.c",L+"libdata.c",L+"libmsg.c"],
  [("server read/write/masked write",S+"tagbase.c tag_read/tag_write/tag_mask_write"),("typed client access, bit alignment and splitting",L+"libdata.c dax_tag_read/dax_tag_write/dax_tag_mask")],
  "the server's tag data areas","values returned to clients after every operation")
p("P02","Tags keep a stable, unique identity and the directory stays consistent",
  "A tag's name, index, type and length, looked up by name or by index, always describe the same tag from creation to deletion; an index is never given to another tag, a deleted tag can no longer be looked up, read or written, and re-creating an existing tag with the same type returns the existing index, keeps its data and at most enlarges it with zeros. Invalid names, unknown types, zero lengths and conflicting definitions are refused without side effects. The server's own tag count, last index, and last-added/last-deleted descriptors agree with the history.",
  ["inputs","histories"],"every sequence of creations, re-creations, deletions and lookups, including thousands of tags",
  "depends on the whole history of the directory (sorted index shifts, growth past the initial capacity, stale client caches), which fixed scripts do not reach",
  [S+"tagbase.c",S+"message.c",L+"libmsg.c",L+"libdata.c"],
  [("tag table and sorted name index",S+"tagbase.c tag_add/tag_del/_add_index/_del_index"),("client tag cache",L+"libdata.c cache_tag_add/cache_tag_del")],
  "tag table, name index, client tag cache","lookup results and system tags")
p("P03","Atomic operations compute the right value and never lose an update",
  "Each atomic operation (increment, decrement, NOT, OR, AND, NOR, NAND, XOR, XNOR) replaces exactly the addressed elements or bits with the documented result in the element's own width and leaves every other bit alone; operations not defined for the addressed type are refused without effect. When many clients apply operations concurrently, the final value is the one some serial order of all acknowledged operations produces.",
  ["inputs","schedules","histories"],"every type, offset, bit position, length and operand, and every interleaving of concurrent clients",
  "the tests use aligned handles at offset zero and one client; offsets, ragged bit ranges and concurrency are outside what they sample",
  [S+"atomic.c",S+"message.c",L+"libmsg.c"],
  [("operation bodies and bit masking",S+"atomic.c _atomic_*"),("bounds and type checks",S+"atomic.c atomic_op")],
  "tag data","values read after the operation, by every client")
p("P04","An event fires exactly when its condition says so",
  "For every write, masked write, atomic operation, group write or mapping that touches an event's data range, the event fires if and only if its condition is met: on every write; on a changed value; on a bit going 0-to-1 or 1-to-0; on an element newly becoming equal to, greater than or less than the limit; on a change of at least the deadband since the last firing; or on tag deletion. Operations that do not touch the range never fire it, and other events on the same tag do not influence it. An element that already meets the condition when the event is registered counts as newly meeting it at the first operation that touches it.",
  ["inputs","histories"],"every event type, data type, range, bit offset and history of writes",
  "firing depends on hidden per-event state accumulated over the history and on range overlaps; tests use one event on one tag with a handful of writes",
  [S+"events.c",S+"tagbase.c",S+"message.c"],
  [("condition evaluation",S+"events.c event_check/_event_hit"),("event registration",S+"events.c event_add")],
  "per-event comparison state","event messages on the subscriber's connection")
p("P05","Event notifications reach their subscriber exactly once and in order",
  "Every firing is delivered exactly once, to the client that registered the event and to no one else, identified by the right tag and event, in the order of the writes that caused them, and carrying the event range's data as of that write if the client asked for data. In the client library each notification runs its own callback with its own user data once, a client that falls behind loses only the oldest undelivered notifications, and waiting returns promptly when one is available and times out otherwise. A removed event never notifies again.",
  ["schedules","histories"],"every interleaving of writers, subscribers, registrations and removals, across threads and processes",
  "ordering, duplication, misrouting and lost wake-ups depend on timing and on which events share a tag",
  [S+"events.c",L+"libevent.c",L+"libmsg.c"],
  [("server delivery",S+"events.c _send_event"),("client event FIFO",L+"libmsg.c _read_next_message"),("dispatch",L+"libevent.c dax_event_wait/dax_event_poll")],
  "client event FIFO, event list","callback log against the write log")
p("P06","Mappings copy exactly their source range on every source change",
  "After any accepted write, masked write, atomic operation or group write that touches a mapping's source range, the destination range holds the source's bits and everything outside the destination range is untouched; without such an operation the mapping changes nothing. This holds for every active mapping of the tag, including bit ranges at arbitrary bit offsets; a removed mapping, or one whose source or destination tag was deleted, has no further effect, and removing one mapping leaves the others working.",
  ["inputs","histories"],"every set of mappings, ranges, bit offsets and histories of writes, removals and deletions",
  "needs combinations of several mappings per tag, partial overlaps, bit shifts and deletions",
  [S+"mapping.c",S+"message.c"],
  [("propagation",S+"mapping.c map_check"),("registration and removal",S+"mapping.c map_add/map_del/map_get")],
  "per-tag mapping lists","destination tag contents after each operation")
p("P07","Tag groups read and write exactly their members",
  "Reading a group returns the concatenation, in order, of what reading each member would return; writing a group has the effect of writing each member in order, including events and mappings, and respects the same write permissions. A group belongs to the client that created it, stays usable until deleted however many other groups are created or deleted, and unknown, deleted or invalid groups are refused without effect.",
  ["inputs","histories"],"every set of groups, members, creations and deletions by several clients",
  "group slots are reused and the table grows; only particular create/delete histories expose slot mix-ups",
  [S+"groups.c",S+"message.c",L+"libmsg.c",L+"libdata.c"],
  [("group table",S+"groups.c group_add/group_del"),("transfer",S+"groups.c group_read/group_write")],
  "per-client group table","group reads compared with member reads")
p("P08","Overrides mask reads without disturbing the real value",
  "While an override is active, reads return the override bits where installed and the actual bits elsewhere, writes still update the actual value, and the actual value and installed mask can always be queried; clearing or removing the override makes reads return the latest actual value. Installing, removing, activating and clearing affect only the addressed range of that tag, survive enlargement of the tag, and the server's counts of installed and active overrides always equal the number of tags in that state.",
  ["inputs","histories"],"every sequence of override operations, writes, tag growth and deletion over all types and ranges",
  "the interplay of partial ranges, bit overrides, growth and deletion is combinatorial",
  [S+"tagbase.c",L+"libmsg.c"],
  [("override store",S+"tagbase.c override_add/override_del/override_get/override_set"),("masked read",S+"tagbase.c tag_read")],
  "override data/mask per tag, counters","reads, override queries and the two counter tags")
p("P09","Queue tags are lossless first-in first-out queues",
  "Every item accepted by a queue tag is returned by exactly one later read, in the order of acceptance, unchanged, no matter how the queue grows, wraps or is shared by concurrent producers and consumers. Reading an empty queue reports empty, partial writes are refused, and one queue never affects another.",
  ["histories","schedules"],"every interleaving of pushes and pops by several clients, over every queue length and growth point",
  "growth while wrapped happens only at particular fill/drain patterns",
  [S+"virtualtag.c",S+"tagbase.c"],
  [("ring buffer",S+"virtualtag.c write_queue/read_queue"),("creation",S+"tagbase.c _queue_add")],
  "ring buffers","items popped, against items pushed")
p("P10","Retained tags survive restarts and crashes with their last value",
  "A tag created as retained exists after any server stop, kill or restart with the same name, type and length and with the value of the last write acknowledged before the stop, again and again over successive restarts. A tag deleted before the stop does not come back, tags not retained do not appear, and custom datatypes needed by retained tags are restored first. Only an operation not yet acknowledged at the stop may have happened, wholly, in part or not at all.",
  ["crash_points","histories"],"every history of creations, writes, deletions and kill points, over several server generations",
  "only crashes at particular points and multi-generation histories expose loss; tests do one clean restart",
  [S+"retain.c",S+"tagbase.c"],
  [("restore at start",S+"retain.c _create_types/_create_tags/_init"),("write-through",S+"retain.c ret_add_tag/ret_tag_write/ret_del_tag")],
  "retention database file","tag directory and values after restart")
p("P11","A client's departure removes exactly what it owned",
  "When a client disconnects, in any way and at any moment, its status tag, the tags it owns, its event registrations and its groups are gone, and every other client's tags, values, events, mappings and groups are untouched and keep working. Each connected client has its own status tag under a unique name, and reconnecting any number of times works and never disturbs others.",
  ["histories","fault_sequences","schedules"],"every pattern of connects, abrupt and clean disconnects, and reconnects of many clients",
  "clean-up walks shared lists; damage depends on which clients share tags and in which order they leave",
  [S+"module.c",S+"events.c",S+"groups.c",S+"message.c"],
  [("registration",S+"module.c module_register"),("clean-up",S+"module.c module_unregister, events_cleanup, groups_cleanup")],
  "module list, event lists, ownership","directory, events and values seen by survivors")
p("P12","Write protection cannot be bypassed",
  "No sequence of requests by a client, whether plain or masked writes, atomic operations, group writes, mappings, overrides aside, changes a read-only system tag, a read-only tag owned by another client, another client's status tag apart from its command bits, or the identity part of its own; nor can a client delete or create reserved tags. The owner itself can write its own read-only tag.",
  ["inputs","histories"],"every request type against every protected tag, by owners and non-owners",
  "each write path checks permission separately; tests try one path on one tag",
  [S+"message.c",S+"tagbase.c",S+"virtualtag.c",S+"groups.c",S+"mapping.c",S+"atomic.c"],
  [("read-only and ownership checks",S+"message.c msg_tag_write/msg_tag_mask_write/msg_atomic_op"),("status tag rules",S+"virtualtag.c special_tag_write")],
  "tag attributes","protected values before and after, and error replies")
p("P13","Custom datatypes mean the same layout to every client and the server",
  "For every accepted custom datatype, its size and the byte and bit position, type and length of every member are the same for the creating client, every other client and the server, with members laid out in order without overlap and within the size. Defining it again identically yields the same type, a conflicting redefinition or invalid member is refused without effect, and existing types never change.",
  ["inputs","programs"],"every datatype definition including nested types, bit runs and arrays, across clients",
  "layout is computed independently in the client and in the server; only unusual member mixes expose a disagreement",
  [S+"tagbase.c",L+"libcdt.c",L+"libmsg.c"],
  [("server definition and size",S+"tagbase.c cdt_create/type_size/serialize_datatype"),("client cache and layout",L+"libcdt.c add_cdt_to_cache/dax_cdt_iter/dax_get_typesize")],
  "datatype tables in both processes","sizes and member offsets, and data exchanged through members")
p("P14","Tag expressions resolve to the right data and back",
  "Every well-formed tag expression (name, nested members, subscripts, bit numbers, with or without a count) resolves to exactly the bytes and bits it names, of the right type, and every malformed, unknown or out-of-range one is refused. Converting a resolved location back to text gives an expression that resolves to the same location.",
  ["inputs","programs"],"every datatype nesting, expression string and count",
  "the parser's space of nestings, subscripts and bit carries is unbounded; tests use a fixed table",
  [L+"libcdt.c",L+"libfunc.c"],
  [("expression parser",L+"libcdt.c dax_tag_handle"),("inverse",L+"libcdt.c dax_fqn")],
  "client datatype cache","returned handles, and data read through them")
p("P15","Values convert to text and back without loss",
  "Converting any value of any basic type to text and back yields the same value (for floating point, within the printed precision), converting text to a value writes only the addressed element or bit and marks exactly that in the mask, and a number outside the type's range is clipped to the nearest limit and reported, never written as something else. Type, event and error names convert consistently in both directions.",
  ["inputs"],"every value of every basic type and arbitrary text",
  "boundary values per type and malformed text are not enumerated by tests",
  [L+"libutil.c",L+"libcdt.c",L+"libevent.c"],
  [("value formatting and parsing",L+"libutil.c dax_val_to_string/dax_string_to_val"),("names",L+"libcdt.c dax_string_to_type/dax_type_to_string")],
  None,"returned strings and values")
p("P16","The client library is safe to use from many threads",
  "Any number of threads may share one connection: every call gets the answer to its own request, never another thread's, data reads are never torn, events are still dispatched, and no data race, deadlock, use of freed memory or lost call occurs, also while connections are opened and closed.",
  ["schedules"],"every interleaving of threads calling the library on shared and separate connections",
  "races show only under particular interleavings",
  [L+"libmsg.c",L+"libevent.c",L+"libcdt.c",L+"libdata.c",L+"libinit.c"],
  [("request serialisation",L+"libmsg.c _message_send/_message_recv with the state lock"),("connection thread",L+"libmsg.c _connection_thread")],
  "shared connection state","race detector reports and per-thread result checks")
p("P17","No input can crash the server, corrupt it or stop it serving others",
  "Whatever bytes any peer sends, registered or not, in whatever chunks, and however it disconnects, the server keeps running, touches no memory outside its objects, discloses no stale memory, and goes on answering other clients correctly and promptly. Every complete well-framed request gets exactly one reply.",
  ["inputs","fault_sequences","histories"],"every byte stream, malformed field, oversized length, truncated message and abrupt disconnect",
  "the space of malformed messages and their interaction with server state is unbounded and tests only send valid ones",
  [S+"message.c",S+"buffer.c",S+"tagbase.c",S+"events.c",S+"mapping.c",S+"groups.c",S+"atomic.c",S+"module.c"],
  [("framing",S+"buffer.c buff_read"),("dispatch and unmarshalling",S+"message.c msg_dispatcher, msg_*")],
  "all server memory","sanitizer reports, liveness probes from a well-behaved client, replies")
p("P18","Message boundaries on the wire do not matter",
  "The effect of a client's requests and the replies it gets do not depend on how the byte stream is cut into packets, delayed or coalesced: split, slow, or back-to-back requests are all executed once each, in order, and answered in order. The client library likewise reassembles replies and events delivered in any chunking.",
  ["schedules","fault_sequences"],"every segmentation and delay of both directions of a connection",
  "local sockets deliver whole messages in tests; segmentation appears on real networks and under load",
  [S+"buffer.c",S+"message.c",L+"libmsg.c"],
  [("server reassembly",S+"buffer.c buff_read"),("client reassembly",L+"libmsg.c _message_get")],
  "per-connection buffers","replies compared with the unsegmented run")
p("P19","Client calls always return, with the truth about the outcome",
  "If the server dies, hangs, or answers with malformed, oversized, late or wrong replies, every library call returns within its timeout with an error and without memory corruption, never with another request's data reported as success. After an error on one call, later calls still pair with their own replies or report failure; connecting again works.",
  ["fault_sequences","inputs"],"every reply content, delay and connection loss at every point",
  "needs a misbehaving server; tests only ever talk to a correct one",
  [L+"libmsg.c",L+"libevent.c",L+"libinit.c"],
  [("reply wait and matching",L+"libmsg.c _message_recv"),("connection loss",L+"libmsg.c _connection_thread/_connection_cleanup")],
  "pending reply slot","results of calls against a scripted server")
M="src/modules/modbus/"
p("P20","The Modbus server shows masters exactly the tag contents",
  "For every valid request the Modbus server returns or changes exactly the requested coils, discrete inputs or registers of the addressed node, in Modbus bit and byte order, and what a master writes is what the tag then holds and vice versa; requests outside the configured tables, of bad length or of unknown function get the standard exception and change nothing. Every request gets one well-formed reply with the request's transaction and unit identifiers, for any number of simultaneous masters.",
  ["inputs","histories","schedules"],"every function, address, count, value and interleaving of masters",
  "address/count combinations, bit packing and exceptions are a large space and tests check a few",
  [M+"modbus.c",M+"mbcmds.c",M+"modmain.c",M+"mbports.c"],
  [("request handling",M+"modbus.c create_response"),("server socket loop",M+"mbserver.c server_loop")],
  "register tags","Modbus replies against tag reads")
p("P21","Hostile Modbus traffic cannot crash or block the Modbus server",
  "Whatever bytes a peer sends, in whatever chunks, with whatever length fields, and however it disconnects, the Modbus server stays up, touches no memory outside its buffers, and keeps serving other masters correctly.",
  ["inputs","fault_sequences"],"every byte stream and disconnect pattern",
  "malformed frames are not sampled by the tests",
  [M+"modbus.c",M+"mbports.c"],
  [("frame reassembly and parsing",M+"mbserver.c server_loop, create_response")],
  "connection buffers","sanitizer reports and probes by a second master")
p("P22","Values pass through Lua unchanged",
  "Any value a Lua script writes to a tag, of any type, as scalar, array, string or nested custom datatype, is what the tag then holds, and any tag value read from Lua is the value the tag holds, over the whole range of the type. Parts a script does not mention are left as they were, unsuitable values raise an error and change nothing, and no script input corrupts the host process. (Integers wider than the type are cut to its width, unsigned 64-bit values appear as the Lua integer with the same bits, CHAR arrays are strings up to the first NUL, shorter strings are filled with zeros.)",
  ["inputs","programs"],"every type, shape and value, and arbitrary script arguments",
  "range limits and nested shapes are not enumerated by the few Lua tests",
  [L+"lua/libdaxlua.c"],
  [("conversion to and from Lua",L+"lua/libdaxlua.c daxlua_dax_to_lua/daxlua_lua_to_dax"),("bindings",L+"lua/libdaxlua.c _tag_read/_tag_write and friends")],
  "tag data","tag contents read by an independent client")
p("P23","The supervisor keeps its processes running as configured",
  "The master starts every configured process once, in order and after the configured delays, with exactly the configured program and arguments, the master's environment and the configured user and group (its own supplementary groups are not passed on to another user; a process whose user or group does not exist is not started). It restarts each process marked for restart whenever that ends, however many end at once, however quickly, and also after its program could not be executed or forked, with a delay that grows to at most a minute and is forgotten after a run of more than a minute, and never runs a second copy or restarts one not marked for it. Processes over their memory limit are told to quit and then killed, others are left alone. When the master is told to end, whenever that is, every child ends too.",
  ["schedules","fault_sequences","configurations"],"every configuration and every pattern of process deaths",
  "depends on signal timing and on how many children die together; there are no tests of it",
  ["src/master/process.c","src/master/master.c","src/master/mstr_config.c"],
  [("start and restart",  "src/master/process.c process_start/process_dmq_add"),("configuration","src/master/mstr_config.c")],
  "process list","start log written by the children")
p("P24","Settings follow the documented precedence",
  "For every option of the server and of client modules the effective value is the command line's if given, else the configuration file's, else the default, for both long and short forms, flags and values, and no combination of settings crashes the program or lets one option change another.",
  ["configurations","inputs"],"every combination of option sources, forms and values",
  "combinations of sources and forms are exponential and tests fix one configuration",
  [L+"libopt.c",S+"options.c"],
  [("client option merging",L+"libopt.c dax_configure"),("server options",S+"options.c")],
  "option tables","values reported to the program and observed behaviour")
D="src/modules/daxlua/"
p("P25","Logic scripts run as configured on consistent tag data",
  "Each enabled logic script runs at its configured interval, or once for each firing of its trigger, and not otherwise; every run sees its input globals as the tags are at the start of the run and its output globals are written to the tags when the run ends, static globals have their configured value at the start of every run while other Lua globals persist from run to run, and a failing script neither stops other scripts nor the module. Disabling and enabling a script takes effect without losing later triggers.",
  ["schedules","histories","programs"],"every mix of scripts, triggers, failures and enable/disable histories",
  "depends on thread timing and on script mixes that no test runs",
  [D+"daxlua.c",D+"threads.c",D+"scripts.c",D+"luaif.c",D+"luaopt.c"],
  [("script threads and queue",D+"threads.c"),("global exchange",D+"daxlua.c, scripts.c")],
  "script table, event queue","counters and values the scripts leave in tags")
p("P26","The Modbus master transfers exactly the configured data",
  "Each configured Modbus command, at each interval, trigger or write, sends a well-formed request for exactly the configured node, function, address and length carrying the tag's current data, and a good reply puts exactly the replied registers or bits into the configured tag and nothing else. Bad, short, late or exception replies change no command's data tag, are reported to whoever sent an asynchronous command, and do not stop later commands.",
  ["inputs","fault_sequences","histories"],"every command configuration and every reply a slave can send",
  "needs a scripted slave; reply faults and sizes are not sampled by the tests",
  [M+"modbus.c",M+"mbcmds.c",M+"mbports.c"],
  [("request building",M+"modbus.c sendTCPrequest/sendRTUrequest"),("response handling",M+"modbus.c handleresponse")],
  "command tag data","requests seen by a scripted slave and resulting tag contents")
H="src/modules/histlog/"
p("P27","The history log holds what its tags did",
  "For every configured tag the store of the history logger (file or sqlite plug-in) holds, in order: a NULL mark and the present value when the tag is taken up; then with a WRITE trigger every write once with its value and time, with a CHANGE trigger exactly the values that differ from the last recorded one by at least the threshold, each preceded by the last unrecorded value before it; a NULL before a record that follows a silence longer than the timeout; and a NULL for every logged tag at an orderly end. What is older than the flush interval survives a kill, rotating loses nothing, purging removes only what is too old, tags that appear later are taken up, and no configuration crashes the logger.",
  ["histories","inputs","crash_points"],"every sequence of values, types, thresholds, rotations, restarts and kills",
  "the log is a function of a whole history and of the moment of a kill, tests look at single values",
  [H+"histlog.c",H+"histopts.c",H+"plugin.c",H+"plugins/file/dhl_file.c",H+"plugins/sqlite/dhl_sqlite.c"],
  [("change decision",H+"histlog.c _test_difference, _event_callback"),("storage","plug-ins write_data, flush_data")],
  "log files, database rows, last and compared values per tag","the records read from the log files or the database compared with the writes made")
Q="src/modules/mqtt/"
p("P28","MQTT messages and tags correspond as configured",
  "The MQTT module subscribes to each configured topic with its QoS, also after the connection to the broker was lost, and a message is handled by the first configured subscription that matches its topic under MQTT's wildcard rules: without a filter its payload is copied to the configured tags, with one the values the Lua filter returns are written to them, and a filter that fails or returns unsuitable values changes no configured tag. Each firing of a publisher's trigger publishes exactly one message with the configured topic, QoS and retained flag, carrying the whole present tag data or what the filter makes of it, and nothing when the filter fails. Tags that appear later are taken up, filters running for messages in both directions do not disturb each other, the configured credentials are used, and no message or configuration crashes the module.",
  ["inputs","schedules","fault_sequences","histories"],"every configuration, message, topic, trigger history and loss of the broker",
  "needs a broker, concurrent traffic in both directions and connection loss; the one test uses a fake library",
  [Q+"mqtt.c",Q+"mqttopts.c"],
  [("incoming messages",Q+"mqtt.c msgarrived"),("publishing",Q+"mqtt.c publish, publish_callback"),("topic matching",Q+"mqttopts.c _topic_compare")],
  "subscription and publisher tables, Lua state","messages seen by a broker and tag contents")
D="src/modules/daxc/"
p("P29","The command client does exactly what each command says",
  "Commands given to the command client in a script file, with -x or typed on standard input act on the tag server as the same operation through the library would: tags, types, maps, events, overrides, values and atomic operations are created, written, changed and deleted for exactly the named tag, element, member or bit with exactly the given values ('~' leaves a value alone), reads print the present values in order, and waiting or polling prints the number of each event of this client that fired. A command that is wrong (unknown command, tag, type, operation or event, missing or impossible values, counts or indexes) is answered with an error and changes nothing, later commands still run, and no script, line length, empty line or argument crashes the client.",
  ["inputs","histories"],"every script of commands, however it is given",
  "the outcome depends on the whole history of commands and on rejected ones; no test runs the command client",
  [D+"daxc.c",D+"daxc_tag.c",D+"daxc_event.c"],
  [("tokens and scripts",D+"daxc.c runcmd, _str_daxtok, runfile"),("tag commands",D+"daxc_tag.c"),("events",D+"daxc_event.c event_add, event_del")],
  "event slots, tokens","output of the client, tag contents")
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
