#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

MSG, DD, NET, ACC = "src/message.rs", "src/data_dictionary.rs", "src/network.rs", "src/io/acceptor.rs"
SID, SET, SCH, SES = ("src/session/session_id.rs", "src/session/session_settings.rs",
                      "src/session/session_schedule.rs", "src/session/session_and_state.rs")
LIB = "crate is a binary: src/lib.rs re-exports it under cfg(fixrs_verif)"
FOUR = "The unit tests parse four hand-written, accepted messages against one dictionary; no rejected or hostile input is tried."

prop("C01", "Parsing any text terminates with a message or a reject, within bounded memory",
 "For every input text and every loaded dictionary, parsing returns either a message or a session-level reject: it never panics, never runs forever, and never allocates more than a small multiple of the input's own size, whatever repeating-group counts the text declares.",
 ["inputs", "configurations"], "every UTF-8 text, of any shape and length, against every dictionary",
 FOUR, [MSG], [("from_str tokeniser", "src/message.rs Message::from_str"), ("header/body/trailer/group parsers", "src/message.rs parse_header..parse_trailer, parse_group")],
 observe=["Message::from_str result, panics, thread CPU time, bytes allocated"], hook=LIB)

prop("C02", "An accepted message loses, invents and alters nothing on the way out again",
 "Whenever a text is accepted, the serialised message carries exactly the same tag=value fields as the text (each exactly once, values byte for byte, repeating-group counts as numbers), group instances keep their order, and, when every field stands where the dictionary defines it (group tags being distinct from the tags around the group), parsing the serialised text again gives the same header, body, trailer and groups.",
 ["inputs", "configurations"], "every accepted text, every dictionary",
 "The tests never serialise a parsed message and look up only a few fields of four samples.", [MSG],
 [("Message::from_str", "src/message.rs"), ("Display for Message / FieldMapIter", "src/message.rs FieldMapIter::fieldmap_to_vec")],
 observe=["Message::to_string, FieldMap::iter, Message::from_str"], hook=LIB)

prop("C03", "Each field of a conforming message lands in its section and group instance",
 "For every message that conforms to the loaded dictionary, with header, body and trailer fields in any order within their section and repeating groups nested to any depth, parsing succeeds; every field is then readable in its own section or group instance, at its own index, with exactly its wire value, every group has exactly its declared number of instances, and no field is readable anywhere else.",
 ["inputs", "configurations"], "every dictionary and every conforming message over it, all message types and nesting depths",
 FOUR, [MSG, DD],
 [("parse_group recursion with the group's own dictionary", "src/message.rs parse_group"), ("is_msg_group / get_msg_group / is_msg_field", DD)],
 observe=["Message::header/body/trailer, FieldMap::get_field, get_group, Group index/size"], hook=LIB)

prop("C04", "A syntactically broken field is rejected wherever it stands",
 "A text in which any SOH-separated field has no '=', or a tag that is not a plain decimal number fitting 32 bits (no sign, no leading zero), is rejected as InvalidTag, and one in which a field's value is empty is rejected as TagSpecifiedWithoutValue; the first broken field decides. A value is everything after the first '=', so values containing '=' or any other non-SOH character are accepted unchanged.",
 ["inputs"], "every otherwise conforming message, every position, every kind of broken field",
 "No unit test feeds a broken field.", [MSG], [("tokeniser: split_terminator, split_once, parse::<u32>", "src/message.rs Message::from_str")],
 observe=["reject reason (Display of the error), get_field"], hook=LIB)

prop("C05", "Header, body and trailer are told apart and must come in that order",
 "A text is rejected as TagSpecifiedOutOfOrder when its first three fields are not BeginString, BodyLength and MsgType in that order, when a header field follows the first body or trailer field, or when a non-trailer field follows the first trailer field; conforming texts that respect these rules are never rejected for order.",
 ["inputs", "configurations"], "every message and every way of moving, removing or inserting a section field, for every dictionary's header and trailer definition",
 "The tests contain only correctly ordered messages.", [MSG], [("parse_header, parse_body, parse_trailer", MSG)],
 observe=["reject reason of Message::from_str"], hook=LIB)

prop("C06", "Malformed repeating groups are rejected with the right reason, at any depth",
 "In a repeating group at any nesting depth, a count that is not a number is rejected as IncorrectDataFormatForValue, more or fewer instances than declared as IncorrectNumInGroupCountForRepeatingGroup, an instance field before the first delimiter as RequiredTagMissing, and plain instance fields out of dictionary order as RepeatingGroupsOutOfOrder. The first field that is not part of the group ends it and belongs to the enclosing level.",
 ["inputs", "configurations"], "every group of every message type of every dictionary, every instance and field position, every such defect",
 "The tests contain only well-formed groups, one nested, with fields in order.", [MSG, DD],
 [("parse_group count, delimiter and order checks", "src/message.rs parse_group"), ("group field order", "src/data_dictionary.rs get_ordered_fields")],
 observe=["reject reason of Message::from_str"], hook=LIB)

prop("C07", "A tag given twice in one section or group instance is rejected",
 "A text in which the same tag occurs twice in the header, in the body outside groups, in the trailer, or in one group instance (the repetition being its first defect) is rejected as TagAppearsMoreThanOnce instead of silently keeping one of the two values; the same tag in different sections' groups or in different group instances is accepted.",
 ["inputs", "configurations"], "every conforming message, every field duplicated at every later position of its own scope, at every nesting depth",
 "No unit test repeats a tag.", [MSG], [("duplicate check before FieldMap::set_field", "src/message.rs parse_header, parse_body, parse_trailer, parse_group")],
 observe=["reject reason of Message::from_str"], hook=LIB)

prop("C08", "BodyLength is the exact byte count between BodyLength and CheckSum",
 "After the body length of any message has been set, its BodyLength value equals the number of bytes in the serialised text from the end of the BodyLength field up to the start of the CheckSum field, including header, body, trailer and every nested group field, counted in bytes and not characters, and is not changed by setting it again.",
 ["inputs", "histories"], "every message built through the API or parsed, with groups at any depth and multi-byte values",
 "No unit test sets or checks a body length.", [MSG], [("calc_body_len / set_body_len", MSG)], observe=["serialised text"], hook=LIB)

prop("C09", "CheckSum is the byte sum modulo 256 as three digits",
 "After the checksum of any message has been set, the CheckSum field is exactly three decimal digits equal to the sum, modulo 256, of all bytes of the serialised text before the CheckSum field, SOH characters and all groups included; setting it again, or having had a wrong CheckSum before, does not change the result.",
 ["inputs", "histories"], "every message built through the API or parsed, whatever checksum it carried before",
 "No unit test sets or checks a checksum; sample messages carry arbitrary ones.", [MSG], [("calc_checksum / set_checksum", MSG)], observe=["serialised text"], hook=LIB)

prop("C10", "Serialised messages follow the FIX layout rules",
 "The serialised text of every message starts with BeginString, BodyLength, MsgType in that order (those that are set), puts header before body before trailer and CheckSum last; each repeating group appears as its count field followed directly by its instances in order, each instance starting with the group's delimiter when it is set, and an instance or map with a given field order lists its fields in that order. Every field is written tag=value followed by SOH, exactly as iteration yields it.",
 ["inputs", "histories"], "every message built by any sequence of API calls, or parsed from any accepted text",
 "No unit test serialises a message.", [MSG], [("field order in FieldMap / FieldMapIter", MSG), ("set_group", MSG)], observe=["Message::to_string, FieldMap::iter"], hook=LIB)

prop("C11", "Messages and groups store fields like independent maps",
 "After any sequence of field and group operations, reading a tag returns the value last set for that tag in that section or group instance (converted to the requested type, or an error if it does not convert), a tag never set is an error, operations on one section, group or instance never affect another, and setting a group gives it exactly the requested number of fresh instances and the matching count field even if it was set before.",
 ["histories", "inputs"], "every sequence of set/get/group operations over every tag and nesting depth",
 "No unit test sets a field or a group through the API.", [MSG], [("FieldMap::set_field/get_field/set_group/get_group", MSG), ("Group index, add_group, size", MSG)],
 observe=["get_field, get_group, size, index, iter"], hook=LIB)

prop("C12", "Time stamps and engine-made logons are valid at every instant",
 "At every instant, stamping a message sets SendingTime in its header to the UTC time as YYYYMMDD-HH:MM:SS.mmm (milliseconds truncated), and the logon the engine sends is accepted by its own parser, is of type A, and carries a correct BodyLength, CheckSum and SendingTime.",
 ["inputs"], "every clock value the system can report",
 "The clock cannot be chosen in the unit tests and nothing tests these functions.", [MSG], [("set_sending_time", MSG), ("test_logon", MSG)], observe=["header field 52; serialised logon"], hook=LIB)

prop("C13", "Session identity read from raw text matches the message's header",
 "For every message text, the extracted session identity has exactly the BeginString, SenderCompID/SubID/LocationID and TargetCompID/SubID/LocationID of its header fields (absent optional parts are absent, values may contain any non-SOH character including '='), and the reverse identity is the same with sender and target parts swapped. Extraction never panics, whatever the text, even truncated or without any of the fields.",
 ["inputs"], "every text: conforming messages with every subset and order of the identity fields, and arbitrary text",
 "No unit test calls the extraction.", [MSG, SID], [("extract_field_value", MSG), ("get_session_id / get_reverse_session_id", MSG)], observe=["SessionId getters, panics"], hook=LIB)

prop("C14", "The dictionary knows every declared field's type and allowed values",
 "For every well-formed dictionary, each declared field is known with its declared type (unrecognised type names map to UNKNOWN) and with exactly its declared allowed values (none reported when none are declared), and no undeclared tag has a type or values.",
 ["configurations"], "every well-formed dictionary document, including the shipped FIX 4.3 one",
 "Tests compare the shipped file with itself through the same XML lookups, and mini dictionaries hold one field list.", [DD], [("add_fields_and_values, FixType::from_str", DD)], observe=["get_field_type, get_field_values"], hook=LIB)

prop("C15", "Message, header and trailer membership and required flags match the dictionary",
 "For every well-formed dictionary, the fields of each message, of the header and of the trailer are exactly the fields, group count fields and component fields it lists, components expanded recursively; a field is required exactly if it is declared required and, when it stands in a component, the component reference directly holding it is required too. Nothing leaks from one message, group or component use to another, and all membership queries agree.",
 ["configurations"], "every well-formed dictionary: any mix and nesting of fields, groups and components, shared between messages",
 "Fourteen hand-written mini dictionaries cover single combinations; the shipped file is checked for direct fields only.", [DD],
 [("add_xml_message, add_xml_component, set_field_for", DD)], observe=["get_msg_fields, get_msg_required_field, is_msg_field, is_msg_req_field, is_header_field, is_trailer_field"], hook=LIB)

prop("C16", "Each repeating group has its own fields, order, delimiter and required flags",
 "For every well-formed dictionary, every repeating group at any depth is known under its message (or header) with exactly its own fields in declaration order with components expanded, its first field as delimiter, its subgroups nested inside it only, and a field required exactly if declared so and the group's own declaration (or the component reference directly holding it) is required too.",
 ["configurations"], "every well-formed dictionary and every group in it, at any depth, including groups reached through components and groups starting with a component or a subgroup",
 "Only a few fixed nestings, depth two, are tested.", [DD], [("add_xml_group", DD)], observe=["get_msg_group, is_msg_group, GroupInfo::delimiter/data_dictionary, get_ordered_fields"], hook=LIB)

prop("C17", "A defective dictionary is refused with an error and never crashes the loader",
 "Loading a document that is not well-formed XML, lacks one of the fields, components, header, trailer or messages sections or a needed attribute, declares a field number, field name, message name, message type or allowed value twice, lists a field twice in one message or group, refers to an undefined field or component, contains an unknown element, has a non-numeric field number, or has components that contain themselves, returns the matching error; it never panics, overflows the stack or yields a dictionary.",
 ["configurations", "inputs"], "every well-formed dictionary with any one such defect injected anywhere, and arbitrary text",
 "Tests try eight fixed defects on fixed documents, none nested in components or groups.", [DD, "src/quickfix_errors.rs"], [("get_attribute, lookup_node, lookup_field_num_with_name, set_field_for", DD)], observe=["DataDictionary::from_str result"], hook=LIB)

prop("C18", "Generated field types carry the tag number the dictionary gives them",
 "For every dictionary the build is given, the generated source contains exactly one type per declared field, whose tag number is the field's number and whose constructor takes the primitive type matching the field's declared type; the types compiled into the engine agree with the shipped dictionary.",
 ["configurations"], "every dictionary with valid field names, and the shipped FIX 4.3 dictionary in full",
 "The generator runs only on the one shipped file and only three of 635 generated types are used.", ["build/code_generator.rs", "build/templates.rs", "build/main.rs"], [("get_fix_spec, generate_fields, FIELD_STRUCT", "build/")], observe=["generated fields.rs parsed as Rust; fields::X::field()"], hook=LIB)

prop("C19", "Settings lookups follow session-then-default precedence, consistently",
 "For every valid configuration text, each [Session] section with its own identity gives exactly one session whose identity takes each part from the section or else from [Default]; a setting looked up with fallback returns the section's value if present, else the default's, else nothing, a lookup without fallback never sees the default's value, values are what the text says after trimming blanks and quotes, and all lookup functions agree.",
 ["configurations"], "every configuration text: any number of sections, any subset of settings in section and default, any layout, spacing and quoting",
 "Tests that should cover defaults and overrides have empty bodies.", [SET, SID], [("Properties::from_str, parse_table", SET), ("SessionId::from_map", SID), ("get_property, get_optional_config, get_config, get_or_default_config, get_default_config", SET)], observe=["lookup results, session_ids"], hook=LIB)

prop("C20", "Invalid configurations are refused at load and valid ones accepted",
 "Loading a configuration refuses (by panicking at load time, before any session exists) one without a [Default] section, with two, with a session section before it, without a valid connection type, or with a session lacking a port (acceptor), a connect host or port (initiator), a supported begin string or a comp id, either in its section or by default, or with an unparsable port; every other configuration loads.",
 ["configurations"], "every valid configuration with any one such defect injected, for both connection types and any number of sessions, plus all valid ones",
 "Two fixed defects are tested; the tests for mandatory fields are empty.", [SET], [("Properties::from_str and check", SET), ("SessionId::from_map", SID)], observe=["panic or value from Properties::from_str"], hook=LIB)

prop("C21", "Session identities are values: equality, hashing and naming are consistent",
 "Two session identities built from the same parts are equal, hash alike and print alike; identities differing in any part are unequal and are separate keys in maps; sub and location ids that are empty count as absent; the printed form is BEGIN:SENDER[/SUB][/LOC]->TARGET[/SUB][/LOC].",
 ["inputs"], "every combination of identity parts, including empty and special characters",
 "No unit test builds a session identity.", [SID], [("SessionIdBuilder::build, set_session_id, Hash, PartialEq", SID)], observe=["==, hash, Display, getters"], hook=LIB)

prop("C22", "A session is created with exactly its configured settings",
 "A session created from a valid configuration has the requested identity and the dictionary loaded from its configured file (section, then default, then the shipped FIX 4.3 file), and heartbeat interval 30 and all three reset flags true unless configured otherwise for it or by default; an unparsable setting is refused, and setting one session's values never affects another session.",
 ["configurations"], "every valid configuration, any number of sessions, any subset of the settings in section or default",
 "No unit test creates a session.", [SES, SET], [("Session::with_settings", SES)], observe=["Session::session_id, data_dictionary, Debug output of the setting fields"], hook=LIB)

prop("C23", "A session is active exactly within its schedule, in its time zone",
 "At every instant, a schedule reports active exactly if it is non-stop or the local time in its zone is within the window, ends included: from start time to end time every day, or, with weekdays, from start day and time to end day and time each week; a window whose end is before its start wraps around midnight or the end of the week. It answers without panicking at every instant in every zone, including daylight-saving changes.",
 ["inputs", "configurations"], "every instant, time zone, pair of times and pair of weekdays (both or neither given)",
 "The outcome depends on the wall clock; the repository's own two schedule tests depend on the time of day and assert almost nothing.", [SCH], [("SessionSchedule::is_session_time", SCH)], observe=["is_session_time under a controlled clock"], hook=LIB)

prop("C24", "Schedules built from settings mean what the settings say",
 "A schedule created from a valid configuration behaves exactly as the window its start/end time, start/end day and time zone settings (section over default, UTC if unset) describe; without times it is non-stop and always active; one time without the other, one day without the other, or days without times are refused.",
 ["configurations", "inputs"], "every subset and value of the five settings in section and default, evaluated at every instant",
 "No unit test creates a schedule from settings.", [SCH, SET], [("SessionSchedule::create_schedule", SCH)], observe=["is_session_time of the created schedule, panics"], hook=LIB)

prop("C25", "The byte stream is cut into messages the same way however it arrives",
 "Whatever way a connection's bytes are split into reads, the messages handed to the application side are exactly the successive messages sent, each ending with its CheckSum field, complete, in order, byte for byte (for UTF-8 text), each once, independently for every concurrent connection; '10=' inside other tags or values does not end a message.",
 ["schedules", "inputs"], "every sequence of messages, every segmentation and pacing of the bytes, several connections at once",
 "No unit test opens a connection.", [ACC], [("read_message", ACC), ("start_socket_listener_task", ACC)], observe=["receiver end of the channel given to IoAcceptor::create"], hook="IoAcceptor re-exported in src/lib.rs under cfg(fixrs_verif)")

prop("C26", "Each valid inbound message reaches the application once, for its own session",
 "With any set of configured sessions on any ports, every parsable message whose reversed identity names a configured session is handed to the application exactly once, under that session's identity, parsed with that session's dictionary, in the order it was sent on its connection; messages that do not parse or name no configured session are not handed over.",
 ["histories", "schedules", "configurations"], "every set of sessions and dictionaries, every interleaving of valid, invalid and unknown-session messages over several connections",
 "network.rs and io/ have no tests.", [NET, ACC, SES], [("start_receiver_task", NET), ("start_accepting_connections", NET), ("create_sessions", NET)], observe=["Application::from_app calls"], hook=LIB)

prop("C27", "No traffic from one peer stops the engine from serving the others",
 "After any inbound traffic (malformed or truncated messages, arbitrary bytes, unknown sessions, huge group counts, abrupt disconnects and resets, peers that vanish before their reply), the engine keeps running: no engine thread dies, and a following valid message on a new or another connection is still delivered to the application and its reply sent.",
 ["fault_sequences", "histories", "inputs"], "every sequence of hostile traffic and connection faults, followed by a valid exchange",
 "network.rs and io/ have no tests.", [NET, ACC, MSG, SES], [("start_receiver_task, sync_send_to_target", NET), ("socket tasks", ACC)], observe=["delivery of a probe message and its reply afterwards; panics of the engine's receiver thread"], hook=LIB)

prop("C28", "Outbound messages reach their session's peer complete, once and in order",
 "Messages sent to a session arrive at the connection of its peer exactly once, complete and in sending order, for every peer connected on that session's port; they never arrive at connections on other ports. (Known findings: sessions sharing a port see each other's messages, and more than 32 pending messages are dropped.)",
 ["histories", "schedules"], "every sequence of sends to any sessions over several ports and connections, with message sizes from tiny to larger than socket buffers",
 "network.rs and io/ have no tests.", [NET, ACC, SES], [("sync_send_to_target", SES), ("start_app_listner_task", ACC), ("set_session_responder", NET)], observe=["bytes read by test clients"], hook=LIB)

prop("C29", "The engine keeps accepting connections and releases closed ones",
 "On every configured port the engine accepts any sequence of connections, simultaneous, reconnecting or arriving in a burst, never refusing or resetting one because another was just accepted; when a peer closes, the engine stops reading that connection, closes its own side, releases what it held for it and consumes no processor time for it, nor for connections that wait because it cannot accept them yet.",
 ["histories", "schedules", "fault_sequences"], "every sequence of connects, bursts, half-sent messages, closes and resets",
 "network.rs and io/ have no tests.", [ACC, NET], [("IoAcceptor::start accept loop", ACC), ("start_socket_listener_task", ACC)], observe=["connect/write success, delivery, alive task count, process CPU time while idle"], hook="IoAcceptor re-exported in src/lib.rs under cfg(fixrs_verif)")

prop("C30", "Sending by session identity uses exactly that session's current channel",
 "After any sequence of registering sessions, replacing them and changing their outgoing channels, a message sent by session identity appears exactly once, serialised unchanged, on the channel last set for exactly that identity and on no other; looking a session up returns the one last registered under that identity, and sending to a session whose peers are all gone does not panic.",
 ["histories"], "every sequence of insert, replace, set-channel, drop-receiver, send and lookup operations over identities differing in any part",
 "No unit test touches the session map.", [NET, SES, SID], [("SessionMap", NET), ("Session::sync_send_to_target", SES)], observe=["broadcast receivers, SessionMap::get_session"], hook=LIB)

MAIN = "src/main.rs"; APPL = "src/application.rs"
prop("C31", "The shipped program serves its configuration and answers with logons",
 "Started in a directory with a valid acceptor configuration in src/FixConfig.toml and its dictionaries (resources/FIX43.xml unless configured otherwise), the program listens on every configured port of the loopback address and on nothing else, on any number of processors, answers every valid message of a configured session with exactly one well-formed logon stamped with the present time on the connections of that session's port, answers nothing else, and runs on whatever arrives and however connections end; with an invalid configuration, setting or dictionary it ends with a failure.",
 ["inputs", "histories"], "every valid or invalid acceptor configuration with its dictionaries and every history of connections and messages",
 "No test runs the program or its default application.", [MAIN, APPL, NET], [("main", MAIN), ("DefaultApplication::from_app", APPL), ("start_accepting_connections", NET)], observe=["bytes read by test clients, exit status, stderr and sockets of the process"], hook="none: the executable is built without the guard")

prop("C32", "The engine's memory does not grow with its history",
 "However many messages (valid, malformed, of unknown or configured sessions), replies and connections the engine has handled, and however they arrived and ended, the memory it holds once they are over exceeds what it held earlier by no more than a constant that does not depend on how many there were.",
 ["histories", "fault_sequences"], "every history of messages, replies and connections, repeated any number of times",
 "Nothing in the tests runs the engine, let alone long enough to see it grow.", [NET, ACC, SES, MSG], [("start_receiver_task, SessionMap", NET), ("start_socket_listener_task, start_app_listner_task", ACC)], observe=["bytes allocated and not freed by the engine's threads, after repetitions of the same history"], hook=LIB)

prop("C33", "A dictionary or settings file means what its text means, or is refused",
 "Loading a dictionary or a configuration from a file succeeds exactly if loading the file's text does and then answers every query as that text; a missing or unreadable file, a directory, and a file that is not UTF-8 are refused; loading never changes the file.",
 ["inputs", "fault_sequences"], "every file: valid in any layout, defective, empty, cut at any byte, with bytes that are not UTF-8, missing, a directory or a symbolic link, under any name",
 "The tests load only the shipped, valid files.", [DD, SET], [("DataDictionary::from_xml", DD), ("Properties::new", SET)], observe=["result or panic of the loading functions, every query of the loaded object, bytes of the file afterwards"], hook=LIB)

prop("C34", "Parsing depends on nothing but the text and the dictionary",
 "Parsing a text with a dictionary, extracting the identities of a text and querying a dictionary give the same result in a fresh process and after any other use: of other dictionaries that reuse the same message types, tags and names with other meanings, of other texts, of the same dictionary loaded again, and concurrently on several threads.",
 ["histories", "schedules", "inputs"], "every history of parses, loads and queries over several related dictionaries, on one or more threads",
 "Each test parses a few texts with one dictionary on one thread.", [MSG, DD], [("Message::from_str, get_session_id, get_reverse_session_id", MSG), ("from_str and the queries of DataDictionary", DD)], observe=["trees of fields of parsed messages, reject reasons, query results"], hook=LIB)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
