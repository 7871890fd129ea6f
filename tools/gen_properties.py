#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Decoding arbitrary bytes is total, pure and all-or-nothing",
  "For every byte string and every supported protocol version, decoding terminates without crashing the caller and either returns a packet of the type announced in the first byte together with a count equal to the input length and no error, or returns no packet and an error. It never alters the input bytes, and decoding the same bytes again gives the same outcome.",
  ["inputs"], "all byte strings x versions 3.1, 3.1.1, 5.0",
  "Tests decode about forty hand-written packets; a crash or half-result hides in one of the remaining byte strings (truncated length prefixes, lying property lengths, odd flag nibbles).",
  ["mqttp/packet.go", "mqttp/header.go", "mqttp/connect.go", "mqttp/property.go"],
  [("Decode with recover", "mqttp/packet.go Decode"), ("fixed-header decode", "mqttp/header.go header.decode")],
  ["return values of mqttp.Decode", "the input slice after the call"])

p("C02", "Packets built through the API survive encoding and decoding",
  "Every packet of every type and version that is assembled through the public constructors and setters from legal field values encodes without error to bytes that a conforming MQTT peer reads as exactly those field values, and that this library decodes to a packet with exactly those field values. This includes every optional field, every combination of MQTT 5 properties allowed for the packet, repeated properties in their order, and field lengths up to the protocol limits.",
  ["inputs", "configurations"], "all legal packets: 15 types x 3 versions x field values",
  "Each test checks one literal packet per type, none with properties; combinations, boundary lengths and MQTT 5 encodings are never encoded by the suite.",
  ["mqttp/connect.go", "mqttp/connack.go", "mqttp/publish.go", "mqttp/puback.go", "mqttp/subscribe.go", "mqttp/suback.go", "mqttp/unsubscribe.go", "mqttp/unsuback.go", "mqttp/disconnect.go", "mqttp/auth.go", "mqttp/property.go", "mqttp/header.go"],
  [("per-packet encodeMessage/decodeMessage/size", "mqttp/*.go"), ("property encode/decode/len", "mqttp/property.go")],
  ["bytes from Encode", "getters of the decoded packet"])

p("C03", "Re-encoding a received packet preserves its meaning",
  "For every byte string that decodes successfully, encoding the resulting packet succeeds and yields bytes that decode again to a packet with the same observable content (all fields, flags, payload, reason codes, and every property with every repeated value in order). The reported size equals the number of bytes produced.",
  ["inputs"], "all accepted byte strings x versions",
  "The Decode/Encode equivalence tests use a single literal packet per type; persistence and forwarding rely on this for every packet a peer can send.",
  ["mqttp/header.go", "mqttp/property.go", "mqttp/publish.go", "mqttp/unsubscribe.go", "mqttp/auth.go"],
  [("remaining-length bookkeeping", "mqttp/header.go Size/Encode"), ("property length bookkeeping", "mqttp/property.go decode/encode")],
  ["Decode -> Encode -> Decode"])

p("C04", "Encoding respects the caller's buffer and the announced size",
  "Encoding into a buffer of at least the announced size either fails or writes exactly the announced number of bytes, the result does not depend on what the buffer held before, and no byte beyond the announced size is touched; encoding into any smaller buffer fails with the insufficient-buffer error. Asking for the size or encoding never changes the packet, encoding is repeatable, and a packet whose body would exceed the protocol maximum of 268435455 bytes is refused instead of being sized or encoded.",
  ["inputs", "histories"], "all packets x all buffer lengths x all prior buffer contents x repeated encodes",
  "Tests encode into freshly zeroed oversized buffers, so stale bytes, exact-fit buffers and short buffers are hardly exercised; no test goes near the maximum size.",
  ["mqttp/header.go", "mqttp/property.go", "mqttp/packet.go", "mqttp/routines.go"],
  [("Size then size check then write", "mqttp/header.go Encode"), ("property length prefix write", "mqttp/property.go encode")],
  ["the whole destination buffer incl. canary bytes", "Size(), Encode() results"])

p("C05", "Packet boundaries in a byte stream are recognised exactly",
  "For every packet the library accepts, every proper non-empty prefix of it is reported as insufficient data - and once the length field is complete the full packet size is reported with it - while the same packet followed by any extra bytes is refused with the packet's own size reported. Conversely, bytes that hold everything their length field announces are never reported as insufficient data, however malformed. A body is never read beyond the announced remaining length and never accepted when shorter than it.",
  ["inputs"], "all packets x all cut points x all trailing bytes, incl. every length-field width",
  "Tests cut two packets at one place each; the 1/2/3/4-byte length-field boundaries and the sizes reported to the stream reader are not covered.",
  ["mqttp/header.go", "mqttp/packet.go"],
  [("remaining length check", "mqttp/header.go header.decode")],
  ["(total, err) of mqttp.Decode"])

p("C06", "Fixed header: only legal types, flags and length fields pass",
  "A packet is accepted only if its type exists in the protocol version used for decoding (authentication packets only in MQTT 5), its flag bits are exactly those the protocol prescribes (for PUBLISH any combination except QoS 3 and the duplicate mark on QoS 0), and its remaining-length field has at most four bytes and matches the body; the flags, type and remaining length the decoded packet reports are those on the wire. A created packet carries the protocol's prescribed flags from the start and keeps them whatever is set on it and however its version is switched; an unsupported packet type cannot be created.",
  ["inputs"], "all 256 first bytes x versions x length-field encodings x body sizes",
  "Tests check default flags of a table and five literal headers, not acceptance of each first byte or of long/overlong length fields.",
  ["mqttp/header.go", "mqttp/packetType.go", "mqttp/packet.go", "mqttp/publish.go"],
  [("flag and type validation", "mqttp/header.go header.decode"), ("variable length integer", "mqttp/header.go uvarint"), ("type factory", "mqttp/packet.go newMessage")],
  ["Decode result", "New result", "Flags(), Type()"])

p("C07", "CONNECT: accepted exactly when well formed, and fully reported",
  "A CONNECT is accepted only if protocol name and level agree and are supported, the reserved flag is clear, will flags are consistent, credentials flags are legal for the version, an empty client identifier is permitted, client identifier, will topic and user name are legal strings, only permitted connect and will properties occur, and nothing is missing or left over; every CONNECT meeting those rules is accepted. The decoded packet reports exactly the keep-alive, clean flag, identifier, credentials, will message (topic, payload, QoS, retain, properties) and properties on the wire, and the protocol version it names.",
  ["inputs"], "all CONNECT bodies: 256 flag bytes x names x levels x field values x property sets",
  "Tests decode seven CONNECT packets, all with the same flag byte family; will, credential and property combinations are not enumerated.",
  ["mqttp/connect.go", "mqttp/property.go", "mqttp/publish.go"],
  [("Connect decode", "mqttp/connect.go decodeMessage"), ("client identifier rule", "mqttp/connect.go validClientID")],
  ["Decode of CONNECT bytes", "getters of Connect and its will"])

p("C08", "PUBLISH: accepted exactly when well formed, and fully reported",
  "A PUBLISH is accepted only if its topic is legal UTF-8 without wildcards or control characters and non-empty (in MQTT 5 it may be empty only with a non-zero topic alias), a complete two-byte packet identifier is present whenever QoS is above 0, and only properties permitted for a published message occur; every PUBLISH meeting those rules is accepted. The decoded packet reports exactly the topic, QoS, retain and duplicate flags, identifier, properties and payload on the wire, and its payload stays intact when the receive buffer is reused.",
  ["inputs"], "all PUBLISH packets: flags x topics x identifiers x properties x payloads",
  "Two literal QoS 0 packets are decoded by the suite; QoS 1/2 headers, truncated identifiers, properties and aliases are not.",
  ["mqttp/publish.go", "mqttp/property.go", "mqttp/header.go"],
  [("Publish decode", "mqttp/publish.go decodeMessage"), ("packet identifier", "mqttp/header.go decodePacketID")],
  ["Decode of PUBLISH bytes", "Publish getters"])

p("C09", "Acknowledgement and control packets: accepted exactly when well formed",
  "CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT and AUTH packets are accepted only if a complete packet identifier is present where the type requires one, every reason code is one the protocol defines for that packet type, reserved bits are clear, only permitted properties occur and nothing is missing or left over; every packet meeting those rules, including every reason code defined for its type, is accepted. The decoded packet reports exactly the identifier, session-present flag, reason codes in order and properties on the wire.",
  ["inputs"], "all bodies: identifiers x 256 reason codes x property sets x truncations, per type and version",
  "Tests only decode success codes in MQTT 3.1.1; MQTT 5 reason codes, omitted tails and truncated identifiers are not covered.",
  ["mqttp/connack.go", "mqttp/puback.go", "mqttp/suback.go", "mqttp/unsuback.go", "mqttp/disconnect.go", "mqttp/auth.go", "mqttp/pingreq.go", "mqttp/pingresp.go", "mqttp/reasonCodes.go"],
  [("per-packet decodeMessage", "mqttp/*.go"), ("reason code tables", "mqttp/reasonCodes.go")],
  ["Decode", "ReturnCode/Reason/ReasonCode/ReturnCodes/ID getters"])

p("C10", "SUBSCRIBE and UNSUBSCRIBE: accepted exactly when well formed",
  "A SUBSCRIBE or UNSUBSCRIBE is accepted only if it has a complete packet identifier and at least one topic filter, every filter is legal, every subscription's option byte is legal for the version, only permitted properties occur and nothing is missing or left over; every such packet is accepted whatever the number and length of its filters. The decoded packet yields exactly the filters on the wire, in order, each with its option bits (QoS, no-local, retain-as-published, retain handling), share name and dollar prefix.",
  ["inputs"], "all filter lists (count, lengths, contents) x 256 option bytes x properties x truncations",
  "Tests decode lists of exactly three long filters with options 0..2; short filters, long lists and MQTT 5 options are not exercised.",
  ["mqttp/subscribe.go", "mqttp/unsubscribe.go", "mqttp/types.go", "mqttp/packet.go"],
  [("topic list loop", "mqttp/subscribe.go, mqttp/unsubscribe.go decodeMessage"), ("option accessors", "mqttp/packet.go SubscriptionOptions")],
  ["Decode", "ForEachTopic", "SubscriptionOptions accessors"])

p("C11", "MQTT 5 property sections are decoded exactly or refused",
  "In every MQTT 5 packet the property section is accepted only if its length field matches its content, every property identifier is permitted for that packet type, identifiers that may not repeat occur once, every value is completely present with the wire type of its identifier, and integers and identifiers are minimally encoded; strings must be valid UTF-8. When accepted, looking up or iterating properties yields exactly the identifiers and values on the wire, every value of a repeatable property in order.",
  ["inputs"], "all property sections per packet type: identifiers 0..255 and multi-byte, all pairs and repeats, all length mismatches",
  "The property tests of the suite are empty functions; no property is ever decoded by a test.",
  ["mqttp/property.go"],
  [("property decode loop", "mqttp/property.go property.decode"), ("type/allowed tables", "mqttp/property.go propertyAllowedMessageTypes, propertyTypeMap")],
  ["Decode", "PropertyGet", "PropertyForEach"])

p("C12", "The property store of a packet behaves as a typed map",
  "After any sequence of property operations on an MQTT 5 packet, a property reads back as the last value set for it, reads as absent if never set or discarded, iteration visits each set property exactly once, and the encoded packet announces and contains exactly the stored properties. Setting a property that the packet type does not permit, or with a value of the wrong type, fails and leaves the packet unchanged; reading a value as any type other than its own fails.",
  ["histories"], "all operation sequences (set valid/invalid/overwrite, discard, read, iterate, encode, switch version) up to a depth, per packet type",
  "One test sets one property once. Overwrites, discards and rejected values need multi-step histories.",
  ["mqttp/property.go", "mqttp/header.go"],
  [("Set/Get/ForEach/reset and length bookkeeping", "mqttp/property.go"), ("version gate", "mqttp/header.go PropertySet/PropertyGet/PropertyForEach")],
  ["PropertySet/Get/ForEach/Discard", "encoded bytes"],
  [("stored properties and their running encoded length", "what will be announced on the wire", "mqttp/property.go property")])

p("C13", "Topic names and filters follow the MQTT grammar",
  "A filter is accepted exactly when it is a non-empty legal UTF-8 string in which '+' and '#' occupy whole levels and '#' is last (a single level that starts with '$' is left open); a filter whose first level is $share must have a non-empty share name free of wildcards followed by a non-empty legal filter, and then reports that name and that filter. A topic name is accepted exactly when it contains no wildcard and no control character. The exported regular expressions judge non-empty legal texts the same way.",
  ["inputs"], "all strings over {letter, two kinds of multi-byte rune, '/', '+', '#', '$', control, 'share' fragments} up to a length",
  "Thirteen literal topics are tested; the grammar is a regular expression whose errors show only on unusual combinations.",
  ["mqttp/types.go", "mqttp/packet.go"],
  [("filter/shared/publish regular expressions", "mqttp/types.go"), ("NewTopic", "mqttp/types.go"), ("ValidTopic", "mqttp/packet.go")],
  ["NewTopic/NewSubscribeTopic results and accessors", "ValidTopic", "Publish.SetTopic"])

p("C14", "String legality is exact for every code point and byte sequence",
  "A string is legal exactly when it is well-formed UTF-8 (no overlong forms, surrogates or values above U+10FFFF) and contains no control character (U+0000-U+001F, U+007F-U+009F), wherever in the string the offending unit stands; topic names, topic filters, user names and client identifiers are all held to it, and the byte order mark is preserved. Client identifiers additionally consist only of ASCII letters, digits, space and - _ , . | /.",
  ["inputs"], "all 1114112 code points, all byte sequences up to 3 bytes, boundary 4-byte sequences, each at start/middle/end",
  "The suite checks 64 single bytes, half of which are invalid for another reason.",
  ["mqttp/types.go", "mqttp/connect.go", "mqttp/packet.go"],
  [("IsValidUTF / BasicUTFRegexp", "mqttp/types.go"), ("clientIDRegexp", "mqttp/connect.go")],
  ["IsValidUTF, ValidTopic, NewTopic, SetClientID", "Decode"])

p("C15", "Protocol tables agree with the MQTT specifications",
  "For every reason code and packet type, the library reports the code as valid for that type exactly when MQTT 3.1.1 or 5.0 defines it there, and for every property identifier and packet type it reports permission, repeatability and value type exactly as MQTT 5.0 defines; packet type names, prescribed flags, per-version type validity, QoS validity and supported versions match the specifications for every possible value. A packet's direction query succeeds exactly for codes defined for that packet type.",
  ["inputs"], "all 256 codes x 256 types, property identifiers 0..65535 x 256 types, all 256 values of every one-byte enumeration",
  "The suite checks a handful of entries; one wrong or missing entry breaks interoperability only for that code.",
  ["mqttp/reasonCodes.go", "mqttp/property.go", "mqttp/packetType.go", "mqttp/qos.go", "mqttp/types.go"],
  [("tables", "mqttp/reasonCodes.go packetTypeCodeMap; mqttp/property.go; mqttp/packetType.go")],
  ["IsValidForType, IsValidV3/V5, PacketTypeDir, IsValidPacketType, DupAllowed, Valid, DefaultFlags, QosType.IsValid"])

p("C16", "Cloning a message for a subscriber is faithful and isolated",
  "A clone of a published message made for a subscriber's protocol version carries the same topic, payload, QoS, retain flag and expiry deadline, is never marked duplicate, speaks the subscriber's protocol version, and when both are MQTT 5 carries unaltered payload format, response topic, correlation data, user properties in order and content type, and no per-hop property. Any sequence of changes to a clone leaves the original and all other clones unchanged, and changes to the original do not affect existing clones.",
  ["inputs", "histories", "configurations"], "all source messages x property subsets x version pairs x mutation sequences on source and clones",
  "Clone has no test at all.",
  ["mqttp/publish.go", "mqttp/property.go"],
  [("Clone", "mqttp/publish.go Clone")],
  ["getters and encoded bytes of source and clones"])

p("C17", "Message expiry is decided by the deadline",
  "A message without a deadline never expires; a message whose deadline has passed is reported expired; one with at least a second left is reported live together with the whole seconds remaining; and the deadline reported is the deadline set. The answer for a live message never exceeds the time really left and does not depend on which other fields of the packet are set.",
  ["inputs", "histories"], "all deadlines (past, boundary, far future) x prior deadlines x clones",
  "One test tries three deadlines seconds away; boundary, re-set and far-future deadlines are not covered.",
  ["mqttp/publish.go"],
  [("Expired/SetExpireAt", "mqttp/publish.go")],
  ["Expired() bracketed by clock reads"])

p("C18", "Packet fields obey last-write-wins over any setter history",
  "After any sequence of setter calls (including rejected ones), encodes and size queries on a packet, every field reads back as the last accepted value for it, setters of one field never disturb another, a rejected setter changes nothing, and the bytes produced describe exactly that state. For CONNECT this covers clean flag, keep-alive, identifier, setting, replacing and resetting the will, and setting, replacing and clearing credentials, where a password without user name is refused before MQTT 5.",
  ["histories"], "all setter sequences up to a depth over small argument domains, per packet type and version",
  "Tests set each field once and read it back; interference between fields sharing a flag byte or a cached length needs sequences.",
  ["mqttp/connect.go", "mqttp/publish.go", "mqttp/suback.go", "mqttp/unsuback.go", "mqttp/connack.go", "mqttp/puback.go", "mqttp/disconnect.go", "mqttp/auth.go", "mqttp/header.go"],
  [("shared flag bytes", "mqttp/connect.go connectFlags, mqttp/header.go mFlags"), ("setters", "mqttp/*.go")],
  ["getters after each operation", "encoded bytes"],
  [("connectFlags", "will/credential/clean bits kept in one byte", "mqttp/connect.go Connect"), ("mFlags", "dup/QoS/retain bits", "mqttp/header.go header")])

p("C19", "Incomplete or contradictory packets are never emitted",
  "Encoding fails, rather than producing bytes, for an acknowledgement, SUBSCRIBE, UNSUBSCRIBE or QoS 1/2 PUBLISH without packet identifier, a SUBSCRIBE or UNSUBSCRIBE without topics, a PUBLISH without topic (unless MQTT 5 with a topic alias), a PUBLISH with the duplicate mark at QoS 0, a field longer than 65535 bytes, a CONNECT before MQTT 5 with a password but no user name, or an unsupported protocol version of a CONNECT. Setters refuse illegal QoS values, topics containing wildcards, illegal client identifiers, return codes not defined for the packet, and incomplete will messages.",
  ["inputs", "histories"], "all packet types x versions x subsets of missing/contradictory fields x illegal setter arguments",
  "Only the happy path and two short-buffer cases are encoded by the suite.",
  ["mqttp/publish.go", "mqttp/subscribe.go", "mqttp/unsubscribe.go", "mqttp/puback.go", "mqttp/suback.go", "mqttp/unsuback.go", "mqttp/connect.go", "mqttp/routines.go"],
  [("encode guards", "mqttp/*.go encodeMessage"), ("setter guards", "mqttp/*.go")],
  ["error results of Encode and setters"])

p("C20", "Packets are independent across goroutines",
  "Decoding, building, cloning and encoding different packets from different goroutines, in any interleaving, gives each goroutine exactly the result it would get running alone; cloning or reading one shared message from several goroutines at once is also safe, and so is decoding the same bytes, or handing the same texts, payload, filters or property values to several packets.",
  ["schedules"], "all interleavings (up to a preemption bound) of two or three goroutines each handling its own packets or cloning a shared one",
  "All tests are single-threaded; hidden shared buffers or caches only show under particular interleavings.",
  ["mqttp/packet.go", "mqttp/header.go", "mqttp/publish.go", "mqttp/property.go", "mqttp/routines.go"],
  [("no mutable package state", "mqttp/*.go"), ("Clone reads its source only", "mqttp/publish.go Clone")],
  ["results per goroutine compared with the sequential run"], hook="none in /repo: checks compile an instrumented copy through go build -overlay")

p("C21", "The recorded peak of a gauge is the true peak",
  "Whatever the interleaving of concurrent increases, decreases and reads of a gauge that records its maximum, no increase or decrease is lost, the recorded peak after all operations is the highest value the gauge took, the peak a reader sees never goes down between its reads, and a snapshot's peak is never below the snapshot's value.",
  ["schedules"], "all interleavings of 2-3 goroutines with 1-3 operations each",
  "No test touches the monitoring package; the window between reading and storing the peak is a few instructions wide.",
  ["vlmonitoring/vlmetrics.go"],
  [("AddU64/SubU64/Load with atomics", "vlmonitoring/vlmetrics.go Max")],
  ["Max.Load() after and during the run"],
  [("value and Max", "current and highest value", "vlmonitoring/vlmetrics.go Max")],
  hook="none in /repo: checks compile an instrumented copy through go build -overlay")

p("C22", "Counters and their differences conserve every increment",
  "Whatever the interleaving of concurrent increments with one periodic reporter that takes differences against its previous snapshot, the differences reported plus the part not yet reported always add up to the increments made, none is lost or reported twice, sent and received directions never mix, and each increment's returned total is distinct and consistent with a running sum. Taking a difference leaves the counter itself unchanged.",
  ["schedules", "histories"], "all interleavings of 2 incrementing goroutines and a reporter; all sequential histories up to a depth incl. wrap-around",
  "No test touches the monitoring package; a re-read between subtract and store loses increments only under a rare schedule.",
  ["vlmonitoring/vlmetrics.go"],
  [("atomic add", "vlmonitoring/vlmetrics.go Counter.AddU64"), ("LoadStore difference", "vlmonitoring/vlmetrics.go LoadStore, Diff")],
  ["AddU64 results, Diff results, Load/Get"],
  [("counter value and previous snapshot", "total and last reported total", "vlmonitoring/vlmetrics.go")],
  hook="none in /repo: checks compile an instrumented copy through go build -overlay")

p("C23", "Protocol version decides the wire format, and can be switched",
  "A packet set to MQTT 3.1 or 3.1.1 emits neither properties nor the reason codes that MQTT 5 added to acknowledgements and DISCONNECT, and refuses property access, whatever was set on it or decoded into it before; a packet switched to MQTT 5 accepts properties and emits them. After any history of version switches the encoded form is exactly that of the current version for the current field values.",
  ["histories", "configurations"], "all packet types x sequences of version switches, property operations and encodes up to a depth",
  "No test switches a packet's version.",
  ["mqttp/header.go", "mqttp/property.go", "mqttp/connect.go", "mqttp/publish.go", "mqttp/puback.go"],
  [("SetVersion", "mqttp/header.go"), ("version tests in encode/size", "mqttp/*.go")],
  ["Encode, PropertyGet/Set/ForEach"])

p("C24", "Packets are independent of each other over time",
  "The outcome of decoding, building or encoding a packet does not depend on which packets were handled before it, and a packet obtained earlier is not affected by later decoding, encoding or modification of other packets; messages and property values handed out remain unchanged.",
  ["histories"], "all sequences of up to 3 operations over an alphabet of packets of all types (accepted and rejected), earlier packets re-inspected after each step",
  "Every test handles one packet in isolation.",
  ["mqttp/packet.go", "mqttp/header.go", "mqttp/property.go"],
  [("per-packet allocation of all state", "mqttp/*.go New*, decode*")],
  ["getters of earlier packets after later operations"])

p("C25", "Plugin configuration normalisation keeps every entry or refuses",
  "A configuration object that is a map of arbitrary values with string keys (map[string]interface{}), or one with generic keys (map[interface{}]interface{}) all of whose keys are strings, normalises to a string-keyed map with exactly the same keys and values; anything else - a non-string key among any others, another type (maps of other key or value types among them), or nothing at all - is refused with the configuration-type error and no map. The input is never modified.",
  ["inputs"], "all maps up to 4 entries over mixed key kinds and value kinds, and all non-map kinds",
  "The package has no test; map iteration order makes partial results depend on luck.",
  ["vltypes/config.go"],
  [("NormalizeConfig", "vltypes/config.go")],
  ["returned map and error"])

p("C26", "Length-prefixed fields are read and written within their bounds",
  "Reading a length-prefixed field returns exactly the announced bytes and the count consumed, or fails when the prefix or the body is incomplete; it never reads past the field. Writing produces the two-byte big-endian length followed by the bytes, refuses more than 65535 bytes or a buffer that is too small without touching it, and touches nothing beyond the field; reading back what was written returns it.",
  ["inputs"], "all lengths 0..65537 x buffer slack, all prefixes x body lengths",
  "Tests use one string and two failing buffers.",
  ["mqttp/routines.go"],
  [("ReadLPBytes/WriteLPBytes", "mqttp/routines.go")],
  ["results and buffers"])

p("C27", "Errors and statuses are distinguishable, denial is the default",
  "Every error, status, reason code and quality-of-service value the API defines has its own non-empty description distinct from all others of its kind and from the text used for unknown values, and describing any other value never crashes and yields the unknown text. An authorisation status is described as allowed only when it is the allow status; every other value, known or unknown, is described as denied.",
  ["inputs"], "all values 0..255 (and negative/large for int kinds) of every error and status type in every package",
  "Tests compare errors by text, so two errors sharing a text are indistinguishable to them; most texts are never looked at.",
  ["mqttp/errors.go", "mqttp/property.go", "mqttp/reasonCodes.go", "mqttp/qos.go", "vlauth/auth.go", "vlpersistence/types.go"],
  [("description tables", "mqttp/errors.go, vlauth/auth.go, vlpersistence/types.go")],
  ["Error(), Desc(), Type()"])

p("C28", "Handling a packet costs no more than its size warrants",
  "Decoding any byte string, accepted or refused, takes a number of steps and an amount of memory at most proportional to the number of bytes actually received, whatever lengths those bytes announce and however the packet is made up (many filters, return codes, subscription identifiers or user properties, equal or distinct, or a few long fields). Sizing, encoding, iterating and cloning a packet, and assembling it call by call, likewise cost at most in proportion to its encoded size or the number of calls.",
  ["inputs"], "all ways a packet gets long at sizes 16 B..64 KiB (thorough 1 MiB), intact and damaged; all types x announced lengths up to 256 MB on bodies of a few bytes",
  "Tests decode packets of some dozen bytes, where a reserved buffer or a quadratic loop goes unnoticed.",
  ["mqttp/header.go", "mqttp/property.go", "mqttp/routines.go", "mqttp/subscribe.go", "mqttp/unsubscribe.go", "mqttp/publish.go"],
  [("Decode", "mqttp/packet.go"), ("Size/Encode", "mqttp/header.go"), ("Clone", "mqttp/publish.go")],
  ["statements executed, bytes allocated"])

p("C29", "Refusals name the reason the answer has to carry",
  "A CONNECT whose only fault is a protocol level not supported under its protocol name is refused with ErrInvalidProtocolVersion; one whose only fault is its client identifier (an illegal string, or an empty one without clean session below version 5) with the identifier-rejected code of its version (CodeRefusedIdentifierRejected, in version 5 CodeInvalidClientID); one whose only fault is a password without user name below version 5 or an ill-formed user name with the bad-user-name-or-password code of its version (in version 5 Malformed Packet will do for the user name). This holds whatever other fields precede or follow. A first byte naming no packet type of the version gives ErrInvalidMessageType. No refusal ever carries the code for success, and in version 5 every reason code a refused packet other than CONNECT is given is a failure (0x80 or above) that DISCONNECT may carry.",
  ["inputs"], "all CONNECT packets x single faults x decoding versions; all malformed packets of every type for the codes",
  "Tests check the error of a dozen malformed packets; whether the reason survives depends on which fields follow the faulty one.",
  ["mqttp/connect.go", "mqttp/header.go", "mqttp/packet.go", "mqttp/property.go"],
  [("CONNECT decode", "mqttp/connect.go Connect.decodeMessage"), ("error of the body", "mqttp/header.go header.decode")],
  ["error of mqttp.Decode"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
