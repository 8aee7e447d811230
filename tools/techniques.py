T["P05"]="runtime monitoring: concurrent writers, subscribers and registrations against the server under sanitizers; the recorded delivery streams are checked offline for exactly-once, order, agreement and data, and client-library callbacks against the log of writes"
T["P13"]="runtime monitoring: random datatype definitions through the server and the client library under sanitizers; sizes, member layouts and data exchanged through members compared with an independent layout model"
T["P14"]="runtime monitoring: generated valid and malformed tag expressions resolved by the real library under sanitizers and compared with an independent resolver, converted back and used for data exchange"
T["P15"]="runtime monitoring: boundary and random values and texts through the real conversion functions under sanitizers against an exact arithmetic oracle, with guard bytes around every buffer"
T["P16"]="runtime monitoring: many threads on shared, separate, reopened and lost connections of the real client library under ThreadSanitizer and AddressSanitizer; every answer judged (own data, untorn blocks, sums, exactly-once queue items, events)"
T["P23"]="runtime monitoring with fault injection: the real master (ASan/UBSan) supervises reporting children in generated configurations while they are killed together, crash, end at once, cannot be executed or forked, ignore signals or leave the session; start records (arguments, user, groups, environment, time), the live set sampled from /proc and the end of every child compared with the configuration; long delays and limits under an accelerated clock (preloaded time functions)"
T["P24"]="runtime monitoring: generated arguments, configuration files, program settings and added attributes merged by the real client library and the real server under sanitizers; every resulting value, callback, listening address, socket, log topic and module tag compared with the documented precedence"
T["P22"]="runtime monitoring: generated values of every type and shape moved between real Lua interpreters and tags under sanitizers, compared with what an independent client sees and an independent conversion; arbitrary arguments to every binding"
T["P19"]="runtime monitoring with fault injection: the real client library under sanitizers behind a proxy that damages, delays, drops, splits or invents frames of the real server, and a server that is stopped, killed and restarted; every call timed, its result compared with the server's state over a second connection, followed by a probe of a known value"
T["P20"]="runtime monitoring: generated requests by several concurrent masters over TCP (pipelined, in pieces) and by a serial master over a pseudo terminal against the real Modbus server under sanitizers, with other clients changing the tags; every reply and every register tag compared with an independent model of the protocol, concurrent block reads with the blocks written"
T["P21"]="runtime monitoring: structure-aware hostile Modbus traffic (fields, lengths, pieces, resets, stalled readers, crowds, serial noise) against the real Modbus module under sanitizers, with an honest master and the tags it owns probed in between"
T["P25"]="runtime monitoring: the real Lua module under sanitizers on a private server with generated mixes of scripts, threads, triggers, failures and enable/disable histories; what the scripts leave in tags (counters, inputs, outputs, trigger data, statics, order) compared with a model fed by a second client that sees the same events"
T["P26"]="runtime monitoring with fault injection: generated master configurations (every function, TCP, serial, interval, trigger, change, write and asynchronous commands) against scripted slaves that log every request and answer with damaged, late, split, missing or good replies; requests and resulting tags compared with an independent model, under sanitizers"

T["P27"]="runtime monitoring with fault injection: the real history logger under sanitizers with both plug-ins on a private server; every record read back from files and databases compared with an exact model of the writes over generated types, triggers, thresholds, silences, rotations, purges, late tags, ends and kills"
T["P28"]="runtime monitoring with fault injection: the real MQTT module under sanitizers between a real tag server and a broker of ours that logs, delays, splits, drops and refuses; tags and published messages compared with a model over generated subscriptions, filters, wildcards, triggers, reconnections and two-way crowds"
T["P29"]="runtime monitoring: the real command client under ASan/UBSan runs generated command scripts (file, -x, standard input) on a real tag server; every printed line, every complaint and, through a second client, every tag afterwards is compared with the executable specification of the server"
