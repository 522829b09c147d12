"""The properties, in one place."""


def P(id, title, statement, over, text, why, files, mechanism, note,
      state=None):
    anchors = {"files": files, "mechanism": [
        {"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w}
                            for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": anchors, "note": note}


PROPS = [
    P("P01", "BER framing round trip and window confinement",
      "Encoding a tag and a body yields the definite-length BER form, and "
      "decoding it returns the same tag, body and exactly the bytes behind it; "
      "trailing bytes, a wrong expected tag, and incomplete input are refused "
      "with the documented parse error and nothing else. Decoding a window "
      "into a larger buffer gives the same result as decoding a copy of it and "
      "never reads outside the window.",
      ["inputs"], "every tag class, tag number and short body; every octet "
      "string of up to five octets (eight thorough) in arbitrary surroundings",
      "The tests sample a handful of tags and lengths; the property ranges "
      "over all inputs, including multi-octet lengths and tags that end "
      "exactly at the window's edge.",
      ["snmp/ber.py", "snmp/utils.py"],
      [("tag and length codec", "snmp/ber.py: Tag, decode_length, "
        "encode_length, decode, encode"),
       ("window arithmetic", "snmp/utils.py: subbytes")],
      "bounded: bodies of the listed sizes, tag numbers below 2^31, inputs of "
      "up to 5 (8) octets; the indefinite length octet is unspecified"),
    P("P02", "Scalar SMI values: range, minimal encoding, faithful decoding",
      "Each integer type accepts exactly the values of its SMI range, encodes "
      "them in the shortest two's-complement form under its own tag, and "
      "decodes every encoding to the value it denotes or refuses it with the "
      "parse error. Octet strings, opaque values and IPv4 addresses survive "
      "encoding and decoding octet for octet, overlong strings and addresses "
      "that are not four octets are refused, and values of differently tagged "
      "types never compare equal or decode as one another.",
      ["inputs"], "every integer in +-2^66 for six types, every content of up "
      "to 9 octets, strings at the boundary lengths, every dotted quad",
      "Tests check boundary samples of each type; an error confined to one "
      "sign/size combination or one content length is outside any sample.",
      ["snmp/asn1.py", "snmp/smi.py"],
      [("range check", "snmp/smi.py: BoundedInteger"),
       ("integer codec", "snmp/asn1.py: INTEGER"),
       ("string codec", "snmp/asn1.py: OCTET_STRING; snmp/smi.py: "
        "OctetString, IpAddress, Opaque")],
      "bounded: integers within 2^66, contents up to 9 (17) octets, strings of "
      "the listed lengths; an INTEGER without content octets is unspecified"),
    P("P03", "Object identifiers: legal set, encoding, decoding",
      "An object identifier can be made of exactly the documented "
      "sub-identifiers (first 0-2, second 0-39, the rest 32-bit unsigned, at "
      "most 128 of them), and every one of them survives encoding and "
      "decoding. Every encoding decodes to the identifier it denotes, and a "
      "malformed, truncated or out-of-range one is refused with the parse "
      "error.",
      ["inputs"], "all identifiers of up to 4 arbitrary sub-identifiers (128 "
      "with three arbitrary), all contents of up to 7 octets",
      "The base-128 arithmetic has a branch per size of each sub-identifier; "
      "tests use well-known OIDs such as 1.3.6.1, where several errors are "
      "invisible.",
      ["snmp/asn1.py", "snmp/smi.py"],
      [("OID codec", "snmp/asn1.py: OBJECT_IDENTIFIER.serialize, "
        "serializeSubIdentifier, deserialize"),
       ("limits", "snmp/asn1.py, snmp/smi.py: OID.__init__")],
      "bounded: up to 4 (5) arbitrary sub-identifiers, contents up to 7 (9) "
      "octets"),
    P("P04", "Table indices encode and decode inversely",
      "Appending index values to an object identifier follows RFC 2578 section "
      "7.7, and decoding the result with the same types gives the same values. "
      "Decoding any identifier with any types either returns values that "
      "encode back to exactly that identifier, or raises one of the two "
      "documented errors: bad prefix exactly when the prefix differs, and "
      "index decode error otherwise.",
      ["inputs"], "one to three fields of every index type, implied or not, "
      "with arbitrary values; every identifier with up to 5 (7) numbers after "
      "its prefix",
      "Combinations of types, lengths, implied fields and short or overlong "
      "indices multiply; tests cover single well-formed examples per type.",
      ["snmp/asn1.py", "snmp/smi.py"],
      [("index encoding", "snmp/asn1.py: withIndex, asOID"),
       ("index decoding", "snmp/asn1.py: decodeIndex, decodeIndexField, "
        "fromOID; snmp/smi.py: getIndex")],
      "bounded: up to 3 fields, strings and OIDs of up to 3 elements"),
    P("P05", "Object identifier algebra",
      "Object identifiers are ordered lexicographically and totally, equality "
      "agrees with ordering and hashing, and the prefix test is true exactly "
      "for prefixes. Extending, indexing, and printing then parsing preserve "
      "the sub-identifiers. Parsing reads every legal dotted form, and raises "
      "the documented error when a number is missing or out of range.",
      ["inputs"], "every pair of identifiers of up to 4 sub-identifiers; every "
      "extension by up to 3",
      "A walk over a table relies on the order for all pairs of identifiers; "
      "tests compare a few fixed ones.",
      ["snmp/asn1.py"],
      [("order and prefixes", "snmp/asn1.py: OBJECT_IDENTIFIER.__lt__, "
        "__eq__, startswith"),
       ("text", "snmp/asn1.py: OBJECT_IDENTIFIER.parse, __str__")],
      "bounded: identifiers of up to 4 sub-identifiers; text made of decimal "
      "numbers"),
    P("P06", "Variable bindings and PDUs round trip and are validated",
      "Every PDU of every type, with every kind of variable value, encodes to "
      "its RFC 3416 form and decodes to an equal PDU of the same type. Any "
      "corruption of a PDU is decoded to exactly the fields it denotes or "
      "refused with the documented error; an error index that designates no "
      "variable, an unknown error status, negative bulk parameters and unknown "
      "value types are refused. An error designates exactly the variable at "
      "its index, or the whole request for index zero.",
      ["inputs"], "all eight PDU types with arbitrary 32-bit fields and up to "
      "two bindings; well-formed PDUs with arbitrary octets at every offset, "
      "cut at every offset, or extended",
      "Decoding must hold for every malformed input; the tests have a few "
      "hand-written malformed examples.",
      ["snmp/pdu.py", "snmp/asn1.py", "snmp/smi.py"],
      [("PDU codec", "snmp/pdu.py: PDU, BulkPDU, VarBind, VarBindList"),
       ("error mapping", "snmp/pdu.py: ErrorResponse")],
      "bounded: one or two (three) arbitrary octets at a time in five "
      "templates; up to two variable bindings"),
    P("P07", "SNMPv1/v2c messages round trip and are validated",
      "A community message encodes its version, community and PDU in the RFC "
      "1901 form and decodes to an equal message. A corrupted message is "
      "decoded to exactly the fields it denotes or refused with an "
      "incoming-message error; other protocol versions and PDU types that were "
      "not asked for are always refused.",
      ["inputs"], "communities of 0-130 arbitrary octets, arbitrary request "
      "IDs; a message with arbitrary octets at every offset, cut or extended",
      "Only a solver or an exhaustive search can cover every corruption at "
      "every offset; the tests have single examples.",
      ["snmp/message/core.py", "snmp/message/version.py", "snmp/pdu.py"],
      [("message codec", "snmp/message/core.py: Message")],
      "bounded: one (three) arbitrary octets at a time in one template"),
    P("P08", "Byte windows behave like the bytes they show",
      "A window into a buffer is equal in length, contents, indexing, slicing, "
      "comparison and iteration to the bytes it shows, for every start and "
      "stop including negative, missing and out-of-range ones and for windows "
      "into windows. Indexing outside it is an IndexError, it never shows an "
      "octet of the underlying buffer that lies outside it, and replacing it "
      "in its buffer changes exactly the octets it covers.",
      ["inputs"], "every buffer of up to 4 (6) octets, every start, stop and "
      "index, one level of nesting, slice steps from -3 to 3",
      "The index arithmetic has many sign and overlap cases; tests sample "
      "some of them, and an error shows octets of another field.",
      ["snmp/utils.py"],
      [("windows", "snmp/utils.py: subbytes")],
      "bounded: buffers of up to 4 (6) octets, slice steps up to 3"),
    P("P09", "Number generator, security levels and weak references",
      "The number generator yields every number of its range except zero "
      "exactly once per period, from whatever random start, signed or "
      "unsigned. Security levels are totally ordered from no authentication to "
      "privacy, levels with privacy but without authentication cannot exist, "
      "and comparable weak references order exactly as their keys.",
      ["inputs", "histories"], "whole periods for 1-4 (6) bits, the first "
      "numbers of 31 and 32 bits, every random start; all pairs of levels; all "
      "key orders",
      "A repeated or zero identifier appears only near particular starts and "
      "wrap-around; the start is random.",
      ["snmp/utils.py", "snmp/security/levels.py"],
      [("number sequence", "snmp/utils.py: NumberGenerator"),
       ("levels", "snmp/security/levels.py: SecurityLevel"),
       ("ordering", "snmp/utils.py: ComparableWeakRef")],
      "bounded: periods of up to 6 bits; 4 (6) numbers of 31 and 32 bits"),
    P("P10", "SNMPv3 message format",
      "Every SNMPv3 message, header, flags octet and scoped PDU encodes to its "
      "RFC 3412 form and decodes to an equal object. Corrupted messages decode "
      "to exactly the fields they denote or are refused with an "
      "incoming-message error; messages that claim privacy without "
      "authentication, a negative message ID or a maximum size below 484 are "
      "refused.",
      ["inputs"], "every flags octet, message ID, size, level; well-formed "
      "messages with arbitrary octets at every offset, cut or extended",
      "Every corruption at every offset must be handled; tests have a few "
      "hand-written malformed messages.",
      ["snmp/message/v3.py", "snmp/security/levels.py"],
      [("message codec", "snmp/message/v3.py: MessageFlags, HeaderData, "
        "ScopedPDU, SNMPv3Message")],
      "bounded: strings of the listed lengths; one (three) arbitrary octets at "
      "a time in two templates"),
    P("P11", "User-based security parameters format",
      "The security parameters encode to their RFC 3414 form and decode to "
      "equal values, the position reported for the authentication code is "
      "exactly that of its octets within the whole message, and corrupted, "
      "negative or out-of-range parameters are refused with an "
      "incoming-message error.",
      ["inputs"], "every boots and time value, engine IDs and names of up to "
      "32 octets; parameters with arbitrary octets at every offset",
      "The position of the code depends on the form of every length before "
      "it; a wrong position voids authentication for the messages affected.",
      ["snmp/security/usm/parameters.py", "snmp/message/v3.py"],
      [("codec", "snmp/security/usm/parameters.py: UsmSecurityParameters"),
       ("position", "snmp/security/usm/parameters.py: findSignature")],
      "bounded: strings of the listed lengths; one (three) arbitrary octets"),
    P("P12", "Community responses reach exactly their own request",
      "A v1 or v2c response is handed to a request only if it carries the "
      "request ID and community of that request and the request is still "
      "outstanding; then it always is. Requests outstanding at the same time "
      "have different, non-zero 32-bit IDs, retransmissions are identical, and "
      "messages that fit no request are refused without disturbing others.",
      ["inputs", "histories"], "two requests with arbitrary communities and "
      "random ID starts; one message with any ID, community and PDU type; "
      "finished and forgotten requests; ID allocation around wrap-around",
      "The match must be exact for every ID and community, and identifiers "
      "collide only after particular histories of a random sequence.",
      ["snmp/message/v1.py", "snmp/message/v2c.py", "snmp/utils.py"],
      [("matching", "snmp/message/v1.py and v2c.py: prepareDataElements, "
        "retrieve"), ("allocation", "cache, uncache")],
      "bounded: two outstanding requests, communities of 1-2 octets; sequences "
      "of 4 (6) requests with 2- and 3-bit IDs",
      [("outstanding requests", "request ID to weak handle and community",
        "snmp/message/v1.py, v2c.py")]),
    P("P13", "SNMPv3 responses reach exactly their own request",
      "An SNMPv3 message is handed to a request only if it carries a message "
      "ID of that outstanding request, the same user and context name, and, "
      "unless it is a report, the same engines and at least the security level "
      "of the request; then it always is. Every transmission has its own "
      "positive message ID, and outgoing messages carry exactly the level, "
      "engine, user, context and reportable flag they should.",
      ["inputs", "histories"], "two requests with arbitrary engine IDs, names "
      "and contexts of all levels; one message with arbitrary identifiers and "
      "level; ID allocation around wrap-around",
      "A response of a lower level or for another user must be refused for "
      "every combination of fields; tests sample single mismatches.",
      ["snmp/message/v3.py"],
      [("matching", "snmp/message/v3.py: SNMPv3MessageProcessor"
        ".prepareDataElements"),
       ("outgoing", "snmp/message/v3.py: prepareOutgoingMessage")],
      "bounded: two outstanding requests, names of one octet; the security "
      "module is replaced by an ideal one that hands over arbitrary results",
      [("outstanding messages", "message ID to weak handle and parameters",
        "snmp/message/v3.py: SNMPv3MessageProcessor")]),
    P("P14", "Timeliness",
      "For every engine the time keeper follows RFC 3414: only authentic "
      "messages, once there has been one, move its notion of boots and time, "
      "which never runs backwards and stays within 31 bits; a message is "
      "timely exactly if its boots match, are not exhausted, and its time is "
      "at most 150 seconds old. A message accepted once is refused when it is "
      "replayed more than 150 seconds later, whatever happened in between.",
      ["histories", "inputs"], "histories of up to 3 (5) events of two engines "
      "with arbitrary boots, times and instants",
      "The window depends on the order and times of all earlier messages; "
      "tests follow a few fixed histories with round numbers.",
      ["snmp/security/usm/timekeeper.py"],
      [("notion of time", "snmp/security/usm/timekeeper.py: EngineTime"),
       ("window", "snmp/security/usm/timekeeper.py: TimeKeeper")],
      "bounded: 3 (5) events; clock modelled by real numbers",
      [("engine times", "boots, offset and whether authenticated, per engine",
        "snmp/security/usm/timekeeper.py: TimeKeeper.table")]),
    P("P15", "Incoming SNMPv3 messages are authentic, timely and decrypted",
      "A message that claims authentication is accepted exactly if its user "
      "has that level, its engine is known, its code equals the user's "
      "localized authentication of the whole message with the code zeroed, and "
      "it is timely; payloads are decrypted only after that, with the key, "
      "boots, time and salt of the message. Anything else is refused with an "
      "incoming-message error, discloses no payload and changes no clock.",
      ["inputs", "histories"], "messages of every level and user with "
      "arbitrary engine, boots, time, code and salt octets, long and short "
      "length forms, before and after synchronization, with any payload octet "
      "altered",
      "Forgeries must be refused for all contents, not for the few broken "
      "codes in the tests.",
      ["snmp/security/usm/implementation.py", "snmp/security/usm/parameters.py",
       "snmp/security/usm/timekeeper.py", "snmp/message/v3.py"],
      [("acceptance", "snmp/security/usm/implementation.py: "
        "UserBasedSecurityModule.processIncoming"),
       ("signature position", "snmp/security/usm/parameters.py: "
        "findSignature")],
      "bounded: one message after at most one authentic message; the "
      "authentication code is an uninterpreted function with 4 octets"),
    P("P16", "Outgoing SNMPv3 messages carry the requested protection",
      "A message is sent with exactly the requested security level or not at "
      "all: it is encrypted under the user's localized privacy key, carries "
      "the estimated boots and time of the engine, and its code authenticates "
      "the whole message as sent. Unknown users, unknown engines and levels "
      "the user does not have are refused with an error before anything is "
      "sent.",
      ["inputs"], "every level and user, arbitrary engine ID octet, clock, "
      "request and message ID, cipher text and salt",
      "A downgrade or a code over other octets would be accepted by the tests' "
      "loopback; it must be excluded for every combination of user and level.",
      ["snmp/security/usm/implementation.py", "snmp/message/v3.py"],
      [("outgoing", "snmp/security/usm/implementation.py: "
        "UserBasedSecurityModule.prepareOutgoing")],
      "bounded: one message with an empty GetRequest; authentication and "
      "encryption are uninterpreted functions"),
    P("P17", "Authentication keys and codes",
      "For each of the six authentication protocols, the key of a password is "
      "the digest of its first megabyte of repetitions, the key for an engine "
      "is the digest of key, engine ID and key, and the code of a message is "
      "the HMAC of all its octets under that key, cut to the length the RFC "
      "gives. The result depends on nothing else, such as earlier messages.",
      ["inputs"], "passwords of several lengths, every key, engine ID and "
      "message",
      "The test vectors fix one password; the repetition and the cut must be "
      "right for every length.",
      ["snmp/security/usm/auth.py"],
      [("keys and codes", "snmp/security/usm/auth.py: HmacAuthProtocol")],
      "bounded: lengths as listed; the digest functions of hashlib and hmac "
      "are uninterpreted functions"),
    P("P18", "Privacy: correct ciphers and fresh initialization vectors",
      "With either encryption library, every message of every length is "
      "encrypted with the cipher, the key and the initialization vector that "
      "the RFCs define, and decrypts to itself under the same key, boots, time "
      "and salt. Successive messages never share a salt, the first one is "
      "random, and malformed cipher texts or salts and short keys are refused "
      "with a documented error.",
      ["inputs", "histories"], "messages of 0-17 (34) octets, every key, "
      "boots, time, random start and salt; sequences of 3 (6) messages",
      "Padding, buffer bounds and salt carries fail at particular lengths or "
      "starts only; tests use a handful.",
      ["snmp/security/usm/priv/openssl", "snmp/security/usm/priv/pycryptodome"],
      [("AES", "snmp/security/usm/priv/*/aes.py: AesCfb128"),
       ("DES", "snmp/security/usm/priv/*/des.py: DesCbc"),
       ("buffers", "snmp/security/usm/priv/openssl/__init__.py: Envelope")],
      "bounded: lengths as listed; the block ciphers are uninterpreted "
      "permutations, the C libraries are replaced by a model of their API"),
    P("P19", "Users, namespaces and keys of remote engines",
      "A user has exactly the keys and levels it was added with, in its "
      "namespace only; adding it again with different settings, or with a "
      "default level above its own, is refused with ValueError and changes "
      "nothing. The first user is the default until another is made so, and an "
      "engine belongs to one namespace until everyone who claimed it has "
      "released it.",
      ["histories", "inputs", "configurations"], "sequences of 2-4 (5) "
      "operations with arbitrary names, engine IDs, secrets and levels in two "
      "namespaces",
      "Refusals and releases depend on everything that happened before; tests "
      "check single steps.",
      ["snmp/security/usm/users.py", "snmp/security/usm/credentials.py",
       "snmp/security/usm/implementation.py"],
      [("registry", "snmp/security/usm/users.py: UserRegistry"),
       ("keys", "snmp/security/usm/credentials.py: Credentials")],
      "bounded: sequences as listed; key derivation is an uninterpreted "
      "function",
      [("users", "credentials and levels per namespace and name",
        "snmp/security/usm/users.py: UserRegistry"),
       ("engines", "namespace and number of claims per engine",
        "snmp/security/usm/users.py: UserRegistry")]),
    P("P20", "SNMPv1 and SNMPv2c requests return their own response",
      "A request is sent once, with the community, version, kind, parameters "
      "and variables asked for, and its result is exactly the variables of the "
      "first response with that version, community and request ID, or an "
      "ErrorResponse with its status and the variable it points to. No other "
      "message has any effect, and none disturbs the receiving thread; a "
      "response in time is never lost, however late the caller asks for it.",
      ["inputs", "histories"], "every method, community, error status, index "
      "and value, with arbitrary unrelated messages before the response and "
      "duplicates after it",
      "The managers have no tests; matching and error conversion must be right "
      "for every response.",
      ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/message/v1.py",
       "snmp/message/v2c.py", "snmp/dispatcher.py"],
      [("results", "snmp/manager/v1.py, v2c.py: Request.wait"),
       ("receipt", "snmp/dispatcher.py: Dispatcher.hear")],
      "bounded: one request with up to 2 (3) variables, one other message; "
      "transport replaced by a recorder",
      [("outstanding requests", "request ID to handle",
        "snmp/message/v1.py, v2c.py")]),
    P("P21", "SNMPv1 and SNMPv2c retransmission and timeouts",
      "An unanswered request is sent again once per refresh period for as long "
      "as any caller waits on its manager, whichever request that is; it is "
      "never sent early, twice for one period, after its answer, or after its "
      "deadline. Waiting ends with the response or, not before the deadline, "
      "with Timeout; it neither blocks past a deadline nor spins, at every "
      "interleaving with the receiving thread. Afterwards the request ID is "
      "available again.",
      ["schedules", "histories"], "up to 2 (3) requests with different "
      "periods and timeouts, responses and wake-ups at arbitrary instants, "
      "arbitrary clock advance at every reading",
      "Overdue wake-ups, equal instants and responses at the wrong moment are "
      "schedules that no test produces.",
      ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/utils.py"],
      [("schedule", "snmp/manager/v1.py, v2c.py: Request.refresh"),
       ("queue", "snmp/manager/v1.py, v2c.py: refresh of the manager")],
      "bounded: up to 2 (3) requests and wake-ups; clock modelled by real "
      "numbers; the other thread acts at clock readings and lock operations",
      [("active requests", "requests ordered by next transmission",
        "snmp/manager/v1.py, v2c.py: active")]),
    P("P22", "Only adequately protected messages settle an SNMPv3 request",
      "The result of a request is a response from its engine for its user with "
      "at least its security level, or an authenticated report; an "
      "unauthenticated report never ends a request before its deadline, where "
      "it is raised instead of a timeout. Responses to discovery messages, and "
      "messages of lower level, other users or other engines, change nothing, "
      "and none disturbs the receiving thread.",
      ["histories", "inputs"], "a request of each level; up to 2 (3) messages "
      "of 11 kinds in reply to any message sent, at arbitrary instants",
      "An attacker chooses which messages to send when; tests contain no "
      "manager at all.",
      ["snmp/manager/v3.py", "snmp/message/v3.py", "snmp/dispatcher.py"],
      [("acceptance", "snmp/manager/v3.py: Request.processResponse"),
       ("reports", "snmp/manager/v3.py: RequestMessage.push")],
      "bounded: messages as listed; the security module is an ideal one in "
      "which a message is what it claims to be",
      [("request", "response or exception, and whether it is final",
        "snmp/manager/v3.py: Request")]),
    P("P23", "SNMPv3 discovery and time synchronization",
      "Without a known engine the first request starts discovery and others "
      "wait for it; a report of the engine ID makes the request go out at "
      "once, to that engine and with its own user and level, and the waiting "
      "ones too as soon as the engine is trusted; what arrives without "
      "authentication does not take later requests away from a trusted "
      "engine. A report that the time is "
      "wrong makes the request go out again at once, once per "
      "synchronization; every request gets sent before its deadline if there "
      "is nothing left to wait for.",
      ["histories", "schedules"], "one to three requests of every level, with "
      "and without a given engine ID, up to 2 reports and responses in reply "
      "to any message sent, at arbitrary instants",
      "Which state the manager is in depends on the order of reports, forged "
      "ones included.",
      ["snmp/manager/v3.py", "snmp/message/v3.py"],
      [("states", "snmp/manager/v3.py: State and its subclasses"),
       ("reports", "snmp/manager/v3.py: SNMPv3UsmManager.onReport")],
      "bounded: messages as listed; ideal security module",
      [("state of discovery", "engine ID, whether trusted, waiting requests",
        "snmp/manager/v3.py: SNMPv3UsmManager")]),
    P("P24", "SNMPv3 retransmission and timeouts",
      "A request on its way is sent again once per refresh period for as long "
      "as any caller waits on its manager, always to its engine; never early, "
      "after its answer, or after its deadline. Waiting ends with the outcome "
      "or, not before the deadline, with Timeout or the report received; it "
      "neither blocks past a deadline nor spins, at every interleaving with "
      "the receiving thread.",
      ["schedules", "histories"], "one or two requests with different periods "
      "and timeouts; messages and wake-ups at arbitrary instants, a message at "
      "any clock reading or lock operation of the waiting thread",
      "Retransmission after resynchronization, overdue wake-ups and messages "
      "at the wrong moment are schedules that no test produces.",
      ["snmp/manager/v3.py", "snmp/utils.py"],
      [("schedule", "snmp/manager/v3.py: Request.refresh"),
       ("queue", "snmp/manager/v3.py: SNMPv3UsmManager.refresh")],
      "bounded: one or two requests, 2 (3) wake-ups; clock modelled by real "
      "numbers; the other thread acts at clock readings and lock operations",
      [("active requests", "requests ordered by next transmission",
        "snmp/manager/v3.py: SNMPv3UsmManager.active")]),
    P("P25", "Finished SNMPv3 requests leave nothing behind",
      "Once a request has been answered, has expired, or has been given up by "
      "its caller, messages in reply to it are refused, it is not sent again, "
      "its message IDs are available "
      "again (once: never those of another request), and the claims on engines "
      "it made are released; when the manager is "
      "dropped, its own is too. No engine is released more often than claimed, "
      "and no message is protected for an engine that is not claimed.",
      ["histories"], "one or two requests that are answered, expire, are "
      "dropped or interrupted, with 1 or 2 messages of 6 kinds",
      "A claim that is left over blocks an engine for other namespaces for "
      "ever, one released too early lets keys be mixed up; both depend on the "
      "whole history.",
      ["snmp/manager/v3.py", "snmp/message/v3.py"],
      [("closing", "snmp/manager/v3.py: Request.close"),
       ("claims", "snmp/manager/v3.py: engineID of requests and managers")],
      "bounded: messages as listed; ideal security module that counts claims",
      [("claims", "engine to number of claims",
        "snmp/security/usm/users.py: UserRegistry")]),
    P("P26", "Conversations with SNMPv3 agents",
      "With an agent that follows RFC 3414, whatever its boots and time, a "
      "request of any level returns the agent's value after at most one "
      "discovery and one synchronization; later requests need neither, unless "
      "the agent has restarted, when one more synchronization is enough. An "
      "answer with any one field altered, or an old answer, has no effect.",
      ["inputs", "histories"], "all levels; arbitrary boots, time, values, "
      "delays, clock differences and restart of the agent; any one field of "
      "the answer altered arbitrarily, earlier answers replayed",
      "Only the parts have tests; that they fit together for every clock and "
      "restart has none.",
      ["snmp/engine.py", "snmp/manager/v3.py", "snmp/message/v3.py",
       "snmp/security/usm", "snmp/dispatcher.py"],
      [("exchange", "snmp/manager/v3.py: SNMPv3UsmManager"),
       ("security", "snmp/security/usm/implementation.py: "
        "UserBasedSecurityModule")],
      "bounded: two requests, one attack; authentication, key derivation and "
      "encryption are uninterpreted functions, codes cannot be forged",
      [("engine times", "boots and time of the agent as believed",
        "snmp/security/usm/timekeeper.py: TimeKeeper")]),
    P("P27", "Managers act as configured",
      "A manager sends from the given local address to the given peer and "
      "port, with the version, community, user, security level, engine ID and "
      "namespace of the call or else the defaults of its engine, and waits or "
      "not as the call, the manager or the engine says. Unknown versions and "
      "domains, bad addresses and missing users are refused with ValueError or "
      "NoDefaultUser. Managers that share a socket get only their own answers; "
      "closing the engine closes everything.",
      ["configurations", "inputs"], "every combination of defaults and "
      "arguments, arbitrary communities, ports and identifiers; two managers "
      "answered in either order",
      "The engine has no tests, and the combinations of defaults and arguments "
      "are too many to sample.",
      ["snmp/engine.py", "snmp/dispatcher.py", "snmp/manager",
       "snmp/transport/udp.py"],
      [("managers", "snmp/engine.py: Engine.Manager"),
       ("closing", "snmp/engine.py: Engine.shutdown")],
      "bounded: two managers, communities of one octet; sockets and threads "
      "are models",
      [("transports", "local address to socket",
        "snmp/engine.py: Engine.transports")]),
    P("P28", "UDP addresses",
      "An address that is given with or without a port is turned into that "
      "host and that port, or the default port of its use; no address, or an "
      "empty one for sending, becomes the wildcard address of the family. "
      "Hosts that are no addresses of the family, ports outside 0-65535, and "
      "port 0 or an empty host for listening are refused with ValueError, hosts "
      "that are no strings with TypeError.",
      ["inputs"], "both families, every use, every port from -2^20 to 2^20, "
      "hosts of every kind",
      "Tests try one bad port and one bad host.",
      ["snmp/transport/udp.py"],
      [("normalization", "snmp/transport/udp.py: UdpSocket.normalizeAddress")],
      "bounded: a list of 17 hosts; inet_pton is the one of the platform"),
    P("P29", "Everything received is passed on, until listening is stopped",
      "Each datagram is passed on exactly once, in order, with its contents, "
      "sender and transport, and reaches the message processor of its version; "
      "whatever it contains, however processing fails, and when a socket turns "
      "out to have nothing to read, the receiving thread goes on. It ends "
      "exactly when it is told to. While transports are added there is one "
      "thread for all of them and nothing is lost; shutting down ends it and "
      "closes everything.",
      ["inputs", "schedules", "fault_sequences"], "up to 2 (3) sockets and "
      "datagrams of arbitrary octets, any order of events, spurious wake-ups, "
      "failing processors, both multiplexors",
      "Tests deliver single datagrams; an exception or a missed wake-up at the "
      "wrong moment silences every manager.",
      ["snmp/transport/posix/udp.py", "snmp/transport/generic/udp.py",
       "snmp/transport/udp.py", "snmp/dispatcher.py"],
      [("loops", "snmp/transport/*/udp.py: listen"),
       ("dispatch", "snmp/dispatcher.py: Dispatcher.hear"),
       ("threads", "snmp/dispatcher.py: Dispatcher.connectTransport")],
      "bounded: as listed; poll, select, pipes, sockets and threads are "
      "models, the thread runs when it is joined",
      [("transports", "sockets that are listened to",
        "snmp/transport/*/udp.py: sockets")]),
    P("P30", "Threads that share an engine do not disturb each other",
      "Managers may be used in several threads at once, while another thread "
      "receives: wherever they are preempted, every request gets its own "
      "response or times out no earlier than it should, no two outstanding "
      "messages have the same ID, and no two messages under one key the same "
      "salt. Users, claims of engines, discovered keys and times end up as if "
      "the operations had taken place one after the other. A message that "
      "arrives just when a request ends leaves nothing behind: no error, no "
      "further transmission and no claim.",
      ["inputs", "schedules"], "two or three threads with one request each, "
      "preempted once (twice) before any statement or call that matters, and "
      "resumed when any other thread stops; arbitrary times",
      "A race needs a thread switch between two particular instructions, "
      "which a test cannot bring about.",
      ["snmp/security/usm", "snmp/message", "snmp/manager",
       "snmp/dispatcher.py", "snmp/security/usm/priv"],
      [("users and times", "snmp/security/usm/implementation.py: userLock, "
        "timeLock"),
       ("message IDs", "snmp/message/*.py: cacheLock"),
       ("salts", "snmp/security/usm/priv/*/*.py: saltLock"),
       ("ending", "snmp/manager/v3.py: Request.close, reallySend")],
      "bounded: as listed; threads switch between statements of the "
      "implementation's stateful modules, the network and the peer are models"),
    P("P31", "SNMPv3 requests ask what was asked and return what was answered",
      "A request of an SNMPv3 manager asks its agent for exactly the kind, "
      "parameters, variables and values of the call, with the user and "
      "security level of the call or else of the manager, once. Its result is "
      "exactly the variables of the first acceptable response, or an "
      "ErrorResponse with its status and the variable it points to. A "
      "duplicate changes nothing, and a response in time is never lost, however "
      "late the caller asks for it.",
      ["inputs", "histories"], "every method, level, error status, index and "
      "value, bulk parameters, with and without a known engine",
      "The manager has no tests; requests and error conversion must be right "
      "for every call and response.",
      ["snmp/manager/v3.py", "snmp/pdu.py", "snmp/message/v3.py",
       "snmp/dispatcher.py"],
      [("requests", "snmp/manager/v3.py: get, getBulk, getNext, set, "
        "sendRequest"), ("results", "snmp/manager/v3.py: Request.wait")],
      "bounded: one request and response with up to 3 variables; the security "
      "module is an ideal one",
      [("request", "response and event", "snmp/manager/v3.py: Request")]),
    P("P32", "What is printed denotes the value",
      "The representation of a value, variable, PDU, message, security parameters, "
      "security level, tag or byte window evaluates, as a Python expression, to an equal value of the same type, "
      "whether it was constructed or received. The text of a PDU or message "
      "shows its type, each field and, one to a line and in order, each variable "
      "as its dotted name and the value. An ErrorResponse shows its status and, "
      "when its index points to a variable of the request, that variable's name.",
      ["inputs"], "all types and fields, up to 3 variables; texts are evaluated "
      "with symbolic numbers and strings in them",
      "Tests print a few values; what is printed is how an operator reads "
      "results, and must be right for every one.",
      ["snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message",
       "snmp/ber.py", "snmp/utils.py"],
      [("text", "snmp/pdu.py: toString, __repr__"),
       ("messages", "snmp/message/*.py: toString, __repr__")],
      "bounded: as listed; numbers and strings stay symbolic inside the text, "
      "their decimal and bytes literals are Python's own"),
    P("P33", "Equality and lists of variables",
      "Two SNMP values are equal exactly when they have the same tag and the "
      "same number, octets or sub-identifiers; two variables, lists, PDUs, "
      "messages, headers, flags or security parameters exactly when they are of "
      "the same type and all their fields are equal. No value equals an object "
      "that is not an SNMP value; equal tags have equal hashes. A list of "
      "variables consists of its arguments in order, an identifier or text "
      "standing for a variable with that name and Null, and has the length, "
      "items and slices of the corresponding tuple.",
      ["inputs"], "every two of 16 value types over their whole ranges; every "
      "two PDUs, messages and headers with arbitrary fields",
      "Tests compare a few equal and unequal pairs; a field that is left out of "
      "a comparison shows only when nothing else differs.",
      ["snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message",
       "snmp/ber.py", "snmp/security/usm/parameters.py"],
      [("values", "snmp/asn1.py: __eq__"),
       ("containers", "snmp/asn1.py: Constructed.__eq__"),
       ("lists", "snmp/pdu.py: VarBindList")],
      "bounded: strings of up to 4 octets, lists of up to 3 variables"),
    P("P34", "A damaged datagram does no harm",
      "A datagram that arrives altered, cut short or extended while a request is "
      "outstanding is either still a well-formed message with the version, "
      "community or user, and IDs of that request, which then settles as that "
      "message says, or is discarded: nothing is raised, sent or settled, the "
      "genuine response that follows still settles the request, and later "
      "requests work. With authentication an altered datagram never settles a "
      "request.",
      ["inputs", "histories"], "one (thorough two) arbitrary octets anywhere in a "
      "response, at every version and security level",
      "Tests feed decoders a few malformed strings, never a whole engine; a "
      "poller that one bad datagram stops is a denial of service.",
      ["snmp/engine.py", "snmp/dispatcher.py", "snmp/message",
       "snmp/manager", "snmp/security/usm"],
      [("community", "snmp/manager/v1.py, snmp/manager/v2c.py: hear"),
       ("SNMPv3", "snmp/manager/v3.py: hear"),
       ("dispatch", "snmp/dispatcher.py: hear")],
      "bounded: as listed; encodings on which BER leaves a receiver freedom "
      "(such as lengths with leading zeros) may be taken or refused; "
      "authentication codes cannot be guessed"),
]

NOT_APPLICABLE = []
