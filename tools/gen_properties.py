#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

M54 = "rfc5424/machine.go"; M31 = "rfc3164/machine.go"

prop("C01", "RFC 5424 strict parsing accepts exactly the RFC 5424 grammar",
 "Without best effort, parsing a byte string as RFC 5424 succeeds (message, nil error) if and only if the bytes form <PRI>VERSION SP TIMESTAMP SP HOSTNAME SP APP-NAME SP PROCID SP MSGID SP STRUCTURED-DATA [SP MSG] with PRI 0 or 1-191 without leading zeros, VERSION 1-999, an RFC 3339 timestamp (at most 6 fraction digits, an existing calendar date) or '-', printable-ASCII header fields of at most 255/48/128/32 bytes, and '-' or SD-ELEMENTs with pairwise distinct SD-IDs, names of 1-32 allowed bytes and UTF-8 parameter values in which '\"', '\\' and ']' appear only escaped. Any other input yields a nil message and a non-nil error.",
 ["inputs"], "for every byte string and every combination of the compliant-message option",
 "The table tests pin about 90 inputs; the automaton has over 600 states with 256 outgoing bytes each, length limits up to 255 and a UTF-8 validator, so almost every transition is unvisited.",
 [M54, "rfc5424/machine.go.rl", "common/common.rl"],
 [("generated FSM", "rfc5424/machine.go Parse"), ("calendar check by time.Parse", "set_timestamp"), ("duplicate SD-ID check", "set_id")],
 ["rfc5424.NewMachine().Parse", "rfc5424.NewParser().Parse"])

prop("C02", "RFC 5424 accepted messages carry every field verbatim",
 "For every accepted RFC 5424 input, priority, version, hostname, app-name, procid, msgid and message equal the corresponding bytes of the input, a '-' field (and an empty message) is nil, facility and severity are priority/8 and priority%8, and the timestamp denotes the written date, time, fraction and offset. Structured data contains exactly the written SD-IDs and parameter names, each parameter (the last one when a name is repeated) mapped to the written value with precisely the escaping backslashes removed; '-' gives nil structured data.",
 ["inputs"], "for every conforming byte string",
 "Tests compare a few dozen messages; which byte is lost, shifted or unescaped depends on lengths, escape positions, multi-byte characters and the combination of parts.",
 [M54, "rfc5424/syslog_message.go", "common/functions.go"],
 [("mark/text slices", "rfc5424/machine.go"), ("RemoveBytes", "common/functions.go"), ("export", "rfc5424/syslog_message.go")],
 ["fields of *rfc5424.SyslogMessage"])

prop("C03", "RFC 5424 errors name the failing part at the first offending byte",
 "When RFC 5424 parsing fails, the error consists of the documented text of the part being parsed (priority value, PRI, version, timestamp, hostname, app-name, procid, msgid, structured data, SD-ID, duplicate SD-ID, SD parameter, escape, message, or generic parsing error; for a date that does not exist, the time package's message) followed by ' [col N]', where N is the number of bytes before the first byte that makes the input unacceptable (the input length when the input ends too early; for a date that does not exist or an SD-ID used twice, the first byte after that timestamp or SD-ID). Strict and best effort mode report the same error for the same input.",
 ["inputs"], "for every rejected byte string, in strict and best effort mode",
 "Only the inputs in the test table have their error text checked; error kind and column are produced by hundreds of distinct generated transitions and by end-of-input handling per state.",
 [M54, "rfc5424/machine.go.rl"], [("error actions", "err_* actions and the _testEof switch in rfc5424/machine.go")],
 ["error returned by Parse"])

prop("C04", "RFC 5424 best effort returns exactly what was complete before the error",
 "In best effort mode a failing input yields a message if and only if the priority and a version in 1-999 were recognised before the error, and that message contains every field, SD element and SD parameter completed before the error position (nothing completed is dropped or altered, nothing incomplete is invented) plus, for an error inside the free-form message, the message bytes preceding the error column. An input accepted in strict mode gives the identical message and nil error in best effort mode.",
 ["inputs"], "for every byte string, i.e. every position at which a message can be truncated or corrupted",
 "Tests check the partial value of a few dozen inputs; the set of (state, byte) pairs at which parsing can stop, each with its own registers to keep or drop, is far larger.",
 [M54, "rfc5424/syslog_message.go"], [("minimal/export", "rfc5424/syslog_message.go"), ("err_sdid/err_sdparam/err_msg clean-up", "rfc5424/machine.go.rl")],
 ["message returned together with an error"])

prop("C05", "Compliant-message mode enforces BOM-implies-UTF-8 and nothing else",
 "With WithCompliantMsg, a message part starting with the UTF-8 byte order mark is accepted if and only if everything after the BOM is valid UTF-8 (RFC 3629: no overlong forms, surrogates or code points above U+10FFFF), and a message part not starting with a BOM is accepted whatever its bytes; without the option every message part is accepted. The option changes nothing about how the header and structured data are parsed, and violations are reported with the compliant-message error text at the first offending byte.",
 ["inputs", "configurations"], "for every message byte sequence, with and without the option, strict and best effort",
 "Tests try a handful of BOM messages; UTF-8 well-formedness has many lead/continuation boundary cases and the BOM prefix itself can be cut anywhere.",
 [M54, "rfc5424/options.go", "common/common.rl"], [("select_msg_mode", "rfc5424/machine.go.rl"), ("utf8 productions", "common/common.rl")],
 ["Parse with rfc5424.WithCompliantMsg"])

prop("C06", "RFC 3164 strict parsing accepts its grammar and splits fields exactly",
 "Without best effort, RFC 3164 parsing succeeds if and only if the input is <PRI> (0 or 1-191), a timestamp, SP, a hostname of 1-255 printable bytes, SP, and a non-empty text of bytes 32-126 and 128-255, where the text may start with a prefix TAG[CONTENT]: or TAG: (tag of 1-32 printable bytes other than space, ':' and '[') followed by a space and at least one message byte (inside CONTENT any byte is allowed). Priority, facility, severity and hostname are those written; when such a prefix is present Appname is the tag, ProcID is the content up to the first ']: ' after which only such text follows and Message is everything after the prefix, otherwise Appname and ProcID are nil and Message is the whole text (a hostname, tag or content consisting of '-' and an empty content give nil).",
 ["inputs"], "for every byte string and option combination",
 "The repository has eight valid RFC 3164 inputs and none that is invalid or that only resembles a tag prefix.",
 [M31, "rfc3164/machine.go.rl", "rfc3164/syslog_message.go"], [("generated FSM", "rfc3164/machine.go Parse"), ("export", "rfc3164/syslog_message.go")],
 ["rfc3164.NewMachine().Parse", "rfc3164.NewParser().Parse"])

prop("C07", "RFC 3164 timestamps denote the written time under year and zone options",
 "A Stamp timestamp (Mmm dd hh:mm:ss, blank-padded day) denotes that month, day and time in the year chosen by WithYear (year 0 by default; 29 February counts as 1 March in a year without it), in the zone of WithLocaleTimezone when given and UTC otherwise, and WithTimezone re-expresses the same instant in the given zone. With WithRFC3339 (and only then) an RFC 3339 timestamp is accepted as well and denotes exactly the written date, time and offset whatever the year and zone options; Stamp timestamps keep working.",
 ["inputs", "configurations"], "for every month, day, time, year, zone and offset and every combination of the four options",
 "Examples pin four option combinations with one date each; day-of-month validity, leap days, zone offsets and option interaction are untested.",
 [M31, "rfc3164/options.go", "rfc3164/year.go"], [("set_timestamp", "rfc3164/machine.go.rl"), ("set_rfc3339", "rfc3164/machine.go.rl"), ("YearOperation", "rfc3164/year.go")],
 ["Timestamp of *rfc3164.SyslogMessage"])

prop("C08", "RFC 3164 rejections are reported at the offending byte; partials are exact",
 "Every input RFC 3164 parsing does not accept yields a non-nil error that names the failing part (or is the generic 'parsing error') and ends in '[col N]', N being the number of bytes before the first unacceptable byte (the input length at premature end); strict mode then returns a nil message. Best effort returns the same error and, if and only if the priority was recognised up to its '>', a message holding exactly the fields completed before that byte (never the free text); accepted inputs give the same message in both modes.",
 ["inputs"], "for every rejected byte string, strict and best effort",
 "No RFC 3164 test contains an invalid input or exercises best effort on one.",
 [M31, "rfc3164/machine.go.rl"], [("err_* actions, end-of-input switch", "rfc3164/machine.go")],
 ["error and message returned by Parse"])

prop("C09", "Parsing is total: no panic, never a silent failure, results self-consistent",
 "For any bytes and any options, RFC 5424 and RFC 3164 parsing terminate without panicking and never return both a nil message and a nil error; strict mode returns exactly one of the two, and a message accompanied by an error appears only in best effort mode. Every returned message is Valid(), has facility = priority/8 and severity = priority%8 with 0 <= priority <= 191, and the parser built by NewParser gives the same outcome as the machine built by NewMachine.",
 ["inputs", "configurations"], "for every byte string (including empty, binary and very long ones) and option set",
 "A crash or silent drop on one byte sequence is invisible to a fixed table; tests never feed arbitrary binary data.",
 [M54, M31, "rfc5424/parser.go", "rfc3164/parser.go", "syslog.go"], [("final-state test at the end of Parse", "rfc5424/machine.go, rfc3164/machine.go"), ("parser wrappers", "rfc5424/parser.go, rfc3164/parser.go")],
 ["return values of Parse"])

prop("C10", "Parsers keep no memory between calls and results never change afterwards",
 "The outcome of a Parse call depends only on its input and the options, not on which inputs the same parser or machine was given before (accepted, rejected, truncated or otherwise). A message returned earlier is unaffected by later Parse calls and by overwriting the input buffer, and Parse never modifies the caller's buffer.",
 ["histories"], "for every sequence of Parse calls on one instance, with buffers reused and overwritten by the caller",
 "Tests use a fresh machine per input; state left in registers (marks, escape positions, current element, partial output) only shows for particular sequences.",
 [M54, M31, "common/functions.go"], [("register reset at the start of Parse", "rfc5424/machine.go, rfc3164/machine.go"), ("string copies", "set_* actions")],
 ["results of consecutive Parse calls on one instance"],
 [{"name": "machine registers", "meaning": "marks, err, currentelem, currentparam, msgat, backslashat", "where": "type machine struct"}])

prop("C11", "A shared parser is linearizable and separate parsers do not interfere",
 "When any number of goroutines call Parse on one parser obtained from NewParser (RFC 5424 or RFC 3164), every call returns exactly what it would return alone, with no data race. Independent machines, parsers and stream parsers used concurrently likewise never influence each other.",
 ["schedules"], "for every interleaving of concurrent Parse calls",
 "Tests run one interleaving per run and never share a parser between goroutines under the race detector.",
 ["rfc5424/parser.go", "rfc3164/parser.go", M54, M31], [("embedded sync.Mutex", "rfc5424/parser.go, rfc3164/parser.go Parse")],
 ["concurrent Parse calls"],
 [{"name": "lock", "meaning": "serialises use of the single machine", "where": "type parser struct"}])

prop("C12", "Builder setters accept exactly the grammar and ignore anything else",
 "Each header setter of the RFC 5424 builder (priority, version, timestamp, hostname, app-name, procid, msgid, message) stores the given value if it conforms to the RFC 5424 grammar of that field, and leaves the whole message unchanged if it does not; '-' never overwrites a stored text field and an empty message is ignored. A setter touches no field other than its own (priority also sets facility and severity), so after any sequence of calls each field holds the last valid value given to it.",
 ["inputs", "histories"], "for every sequence of setter calls with arbitrary values",
 "Builder tests check single values per setter; limits, character classes and leaking between setters depend on the value and call history.",
 ["rfc5424/builder.go", "rfc5424/builder.go.rl"], [("builder FSM entry points", "rfc5424/builder.go set")],
 ["fields after setter calls"])

prop("C13", "Serialising a valid message and parsing it back gives the same message",
 "For every message that a sequence of builder calls or a successful parse can produce, String() returns an error exactly when the message is not Valid(), and otherwise a string that strict RFC 5424 parsing accepts and that parses to a message with the same priority, version, header fields, timestamp instant (to the microsecond, with its offset), structured data and message text. The string is independent of the order in which elements and parameters were added.",
 ["inputs", "histories"], "for every reachable message value, including escapes, non-ASCII values, empty values and elements without parameters",
 "Tests compare a few fixed strings; escaping, unescaping and ordering interact with arbitrary values, and the round trip is never executed.",
 ["rfc5424/builder.go", "common/functions.go", M54], [("String", "rfc5424/builder.go"), ("EscapeBytes/RemoveBytes", "common/functions.go")],
 ["String() and re-parsing its output"])

prop("C14", "Builders used concurrently on different messages do not interfere",
 "Building different messages in different goroutines (any setters, String included) gives each message exactly the content its own calls describe, with no data race.",
 ["schedules"], "for every interleaving of builder calls on distinct messages",
 "No test runs two builders concurrently; interference through shared package state needs a particular interleaving.",
 ["rfc5424/builder.go", "rfc5424/builder.go.rl"], [("set", "rfc5424/builder.go")], ["messages after concurrent building"])

prop("C15", "Builder structured data: elements and parameters are added once, correctly",
 "SetElementID adds an empty element for a valid SD-ID that is not present yet and does nothing otherwise; SetParameter creates the element if needed and, for a valid new parameter name, stores the value with its escapes removed when the value is valid, or an empty value when it is not. A call naming an existing parameter is discarded, a call with an invalid SD-ID changes nothing, and no call affects any other element, parameter or header field.",
 ["inputs", "histories"], "for every sequence of SetElementID/SetParameter calls with arbitrary ids, names and values",
 "Tests make at most three calls with one element; the discard/create rules concern histories of calls.",
 ["rfc5424/builder.go", "rfc5424/builder.go.rl", "common/functions.go"], [("SetParameter", "rfc5424/builder.go"), ("sdid/sdpn/sdpv entry points", "rfc5424/builder.go.rl")],
 ["StructuredData after setter calls"])

prop("C16", "Octet counting: every complete frame is delivered once, in order, byte-exact",
 "For a stream that is a concatenation of MSGLEN SP SYSLOG-MSG frames (MSGLEN without leading zeros, within the maximum, each message starting with '<'), the listener is called exactly once per frame, in stream order, each time with the outcome of parsing exactly the MSGLEN bytes of that frame, and parsing ends silently after the last frame. In strict mode the first frame that does not parse is reported as an error without message and is the last report.",
 ["inputs"], "for every sequence of frames with every payload length and content (NUL bytes, spaces and digits included)",
 "Tests cover about 15 short streams; lengths, payload bytes that look like framing and frame counts are unbounded.",
 ["octetcounting/parser.go", "octetcounting/scanner.go"], [("scanner tokens", "octetcounting/scanner.go"), ("run loop", "octetcounting/parser.go run")],
 ["listener calls"])

prop("C17", "Octet counting: a framing error is reported once and ends the stream",
 "When the stream deviates from the framing (no MSGLEN where one is required, no space after it, payload not starting with '<', payload shorter than MSGLEN), every frame before the deviation is delivered and then exactly one error result is delivered (describing what was found and what was expected; in best effort mode, for a payload that is short or does not start with '<', the outcome of parsing what was found there), and nothing after it; the parser never resynchronises in the middle of a frame and never loses the deviation silently. The only silent end is the end of the stream directly after a frame.",
 ["inputs", "fault_sequences"], "for every byte stream and every truncation point",
 "Tests contain a dozen malformed streams; any byte at any position of a frame may be wrong.",
 ["octetcounting/parser.go", "octetcounting/scanner.go", "octetcounting/tokens.go"], [("run loop error branches", "octetcounting/parser.go run")],
 ["listener calls"])

prop("C18", "Octet counting: no frame above the maximum length is ever accepted",
 "A frame whose MSGLEN exceeds the configured maximum (8192 by default, WithMaxMessageLength otherwise), however many digits it is written with, is reported once as too long, with the declared size and the maximum, and ends the stream; a frame of at most the maximum is never rejected for its length, including one of exactly the maximum.",
 ["inputs", "configurations"], "for every MSGLEN (including values beyond machine integers) and every configured maximum that memory can hold a buffer for",
 "Tests try two lengths with one maximum.",
 ["octetcounting/parser.go", "octetcounting/scanner.go", "options.go"], [("length check", "octetcounting/parser.go run"), ("buffer size", "octetcounting/scanner.go NewScanner")],
 ["listener calls"])

prop("C19", "Octet counting best effort continues over bad messages and parses a short tail",
 "In best effort mode a frame whose message is malformed is delivered with its error (and the partial message when one exists) and the following frames are still delivered; when the stream ends inside a frame's message the available bytes are parsed and delivered as the last result, with the parse error or, if they parse, the framing error. Best effort never changes which frames are recognised.",
 ["inputs", "fault_sequences"], "for every sequence of good and bad frames and every truncation point",
 "Tests cover three best effort streams.",
 ["octetcounting/parser.go"], [("underflow branch", "octetcounting/parser.go run")], ["listener calls"])

prop("C20", "Stream parsing does not depend on how the reader delivers the bytes",
 "For both stream parsers the sequence of results is a function of the byte stream alone: it is the same whether the reader returns the bytes in one call, byte by byte, in arbitrary pieces, with empty reads in between or with the final bytes accompanying io.EOF. A reader failing with another error after some bytes never causes a panic, an invented, duplicated or reordered result, or the loss of a message already complete before the failure.",
 ["schedules", "fault_sequences"], "for every way of splitting a stream into reads and every failure point",
 "All tests read from strings.Reader/bytes.Reader, i.e. a single chunking.",
 ["octetcounting/scanner.go", "nontransparent/parser.go"], [("bufio.Reader", "octetcounting/scanner.go"), ("delimited reader", "nontransparent/parser.go Parse")],
 ["listener calls for the same bytes under different readers"])

prop("C21", "Non-transparent framing splits at trailer + '<' and delivers each frame once",
 "For a stream of frames each starting with '<' and ended by the configured trailer (LF by default, or NUL), the listener is called exactly once per frame, in order, with the outcome of parsing exactly the frame's bytes without its trailer; a trailer not followed by '<' does not end the frame but belongs to it, and the other trailer byte has no special meaning. Good and bad frames are both reported and a bad one never affects its neighbours.",
 ["inputs", "configurations"], "for every sequence of frames, both trailers, strict and best effort",
 "Tests cover ten streams of at most three short messages.",
 ["nontransparent/parser.go", "nontransparent/parser.go.rl"], [("candidate accumulation", "nontransparent/parser.go Exec"), ("process", "nontransparent/parser.go")],
 ["listener calls"])

prop("C22", "Non-transparent streams: an unterminated tail is reported as incomplete, once",
 "When the stream ends (or its reader fails) in the middle of a frame, all frames completed before are delivered first, and the bytes after the last trailer are then parsed and delivered exactly once with a non-nil error (the parse error, or the reader's error / unexpected EOF when they parse). A stream ending right after a trailer produces no such extra result.",
 ["inputs", "fault_sequences"], "for every truncation point and reader failure point",
 "Tests have three streams without final trailer and none whose reader fails.",
 ["nontransparent/parser.go"], [("OnErr/OnCompletion", "nontransparent/parser.go")], ["listener calls"])

prop("C23", "Stream parsers can be reused and honour their options and listener",
 "Parsing a stream with a stream parser that has already been used gives exactly the results a new parser with the same options would give. That includes parsers whose last use was ended early by a panic of the listener or the reader. Options take effect whatever their order, HasBestEffort reports the chosen mode, results go only to the configured listener (none configured: no panic), synchronously and from within Parse, and results delivered earlier are never modified by later parsing.",
 ["histories", "configurations"], "for every sequence of streams given to one parser and every option list",
 "Tests create a new parser per stream.",
 ["nontransparent/parser.go", "octetcounting/parser.go", "options.go"], [("Parse resets", "octetcounting/parser.go Parse, nontransparent/parser.go Parse")],
 ["listener calls over several Parse calls"],
 [{"name": "candidate, lastChunk, readError, stepback, msglen", "meaning": "per-stream state kept in the parser", "where": "nontransparent/parser.go, octetcounting/parser.go"}])

prop("C24", "Facility and severity accessors agree with RFC 5424/5427 for every priority",
 "For every priority 0-191 (set by parsing either format or by the builder) facility and severity are priority/8 and priority%8, and the facility message/level and severity message/level/short level accessors return the standard name of that code (facility 13 goes by RFC 5427's keyword audit or by the BSD one, security); they return nil when no priority was set. A program that assigns the Facility or Severity field itself gets the names of the code it assigned (nil for nil). Writing through a returned pointer changes no later answer. Valid() holds for a message exactly when its priority is 0-191 and, for RFC 5424, its version is 1-999.",
 ["inputs"], "for every priority, version and message type",
 "Tests look at a few priorities and never at all table entries or out-of-range values.",
 ["syslog.go", "common/facility.go", "common/severity.go", "common/functions.go"], [("ComputeFromPriority and accessors", "syslog.go"), ("tables", "common/facility.go, common/severity.go")],
 ["accessor methods"])

prop("C25", "Trailer types convert to and from text consistently",
 "The trailer types LF and NUL have bytes 10 and 0 and marshal to text that unmarshals (text or TOML, any letter case, optionally in matching single or double quotes) to the same type; every other text and every other value is rejected with an error and does not turn a receiver into LF or NUL, and giving an unknown trailer as an option leaves the parser's trailer unchanged.",
 ["inputs"], "for every text and every integer value",
 "Tests try about ten strings.",
 ["nontransparent/trailer_type.go", "nontransparent/parser.go"], [("TrailerTypeFromString, MarshalText, Value", "nontransparent/trailer_type.go"), ("WithTrailer", "nontransparent/parser.go")],
 ["TrailerType methods"])

prop("C26", "Message parser options compose in any order and the object reports them",
 "A RFC 5424 or RFC 3164 parser or machine behaves according to exactly the options it was given: their order and repetition do not matter, of several years or zones the last one counts, options that were not given keep their defaults, and an option value may be used for any number of parsers without connecting them. Best effort switched on later works from the next Parse on and changes nothing else; HasBestEffort always reports the mode and Err the error of the latest Parse.",
 ["configurations", "histories"], "for every sequence of options, every interleaving of uses of several objects and every input",
 "Tests give one or two options in one order to parsers used once.",
 ["rfc5424/options.go", "rfc3164/options.go", "rfc5424/parser.go", "rfc3164/parser.go", "rfc3164/year.go", M54, M31], [("option setters", "rfc5424/options.go, rfc3164/options.go"), ("WithBestEffort, HasBestEffort, Err", "machine.go and parser.go of both formats")],
 ["Parse", "HasBestEffort", "Err"],
 [{"name": "bestEffort, compliantMsg, rfc3339, yyyy, loc, timezone", "meaning": "options of a machine", "where": "rfc5424/machine.go, rfc3164/machine.go"}])

prop("C27", "The octet counting scanner splits every stream into the right tokens",
 "Scan returns MSGLEN for a maximal run of digits beginning with a nonzero one, WS for a space, and SYSLOGMSG with exactly as many octets as the latest unused MSGLEN says for a '<' after it and a space; any other byte is ILLEGAL and carries that byte. When the stream is over, or less of the message is left than announced, it returns EOF and goes on doing so. Messages up to the scanner's maximum are never refused, nothing is skipped or read twice, and the tokens do not depend on how the reader delivers the bytes; token types print by name, unknown ones as TokenType(n).",
 ["inputs", "schedules"], "for every byte stream, maximum length and way of reading",
 "Tests look at single well-formed frames; boundaries depend on numbers of digits, buffer sizes and where reads end.",
 ["octetcounting/scanner.go", "octetcounting/tokens.go"], [("Scan, scanMsgLen, scanSyslogMsg", "octetcounting/scanner.go"), ("String", "octetcounting/tokens.go")],
 ["NewScanner(r, n).Scan().String()"],
 [{"name": "msglen, ready", "meaning": "pending length, space seen", "where": "octetcounting/scanner.go"}])

prop("C28", "Stream results are delivered as soon as the bytes read settle them",
 "Octet counting calls the listener with each result, message or error, before it asks the reader for any byte beyond those that settle it (the last octet of the frame, or the byte that breaks the framing), and does not ask for more after the result that ends the stream: a peer that waits for the effect of one frame before it sends the next never waits in vain. With non-transparent framing a frame is delivered at the latest when the line that follows it is complete: before the reader is asked for more after the next trailer has been read.",
 ["schedules", "inputs"], "for every byte stream and every way, and every delay, in which the reader delivers it",
 "Tests read whole streams from memory, so results that are held back until the end look the same.",
 ["octetcounting/parser.go", "octetcounting/scanner.go", "nontransparent/parser.go"], [("run", "octetcounting/parser.go"), ("Scan, scanSyslogMsg (Peek)", "octetcounting/scanner.go"), ("Exec, process", "nontransparent/parser.go")],
 ["listener calls between calls of Read"])

prop("C29", "Stream parser options compose in any order and count from the next Parse on",
 "An octet counting or non-transparent parser behaves according to exactly the options it was given, when it was made or later (by applying an option or calling the method of the same name): order and repetition do not matter, of several maxima, listeners or trailers the last one counts, options not given keep their defaults (strict, 8192 octets, LF, no listener), a trailer type that does not exist changes nothing, the maximum does not concern non-transparent framing, and an option value may be used for any number of parsers without connecting them. What is given later works from the next Parse on, exactly as if the parser had been made with it; HasBestEffort always reports the mode.",
 ["configurations", "histories"], "for every sequence of options, every point at which they are given, every interleaving of uses of several parsers and every stream",
 "Tests give options once, in one order, to parsers used once.",
 ["options.go", "octetcounting/parser.go", "nontransparent/parser.go"], [("WithListener, WithBestEffort, WithMaxMessageLength", "options.go"), ("NewParser and the setters", "octetcounting/parser.go, nontransparent/parser.go"), ("WithTrailer", "nontransparent/parser.go")],
 ["listener calls", "HasBestEffort"],
 [{"name": "bestEffort, internal, maxMessageLength, trailer, trailertyp, emit", "meaning": "options of a stream parser", "where": "octetcounting/parser.go, nontransparent/parser.go"}])

prop("C30", "Exported helpers escape, cut, decode and range-check every value exactly",
 "The exported functions of package common do what their names say for every value: EscapeBytes puts one backslash before each \\, ] and \" and changes nothing else, byte for byte, also in text that is not valid UTF-8, so that removing those backslashes gives the value back and no two values escape to the same text; RemoveBytes returns what is left of the data without exactly the bytes at the given (ascending) positions, counted from the given offset, changing neither the data nor the positions and sharing no memory with them; UnsafeUTF8DecimalCodePointsToInt returns the number a text of up to 18 digits denotes, leading zeros or not, 0 for none; InBetween includes both ends; ValidPriority accepts exactly 0 to 191 and ValidVersion exactly 1 to 999.",
 ["inputs"], "for every value, every list of positions and offset, every number",
 "The tests convert four digit strings and call no other helper directly.",
 ["common/functions.go"], [("EscapeBytes", "common/functions.go"), ("RemoveBytes", "common/functions.go"), ("UnsafeUTF8DecimalCodePointsToInt", "common/functions.go"), ("InBetween, ValidPriority, ValidVersion", "common/functions.go")],
 ["return values", "the arguments afterwards"])

prop("C31", "Messages that nobody changes can be read by any number of goroutines",
 "Asking a message only reads it: any number of goroutines may at once call Valid, the facility and severity accessors, String and read the fields of one message (parsed from either format, whole or partial, or built), without a data race, and each gets exactly the answer a single reader would get at that moment, the same however often it asks, for as long as nobody changes the message.",
 ["inputs", "schedules"], "for every message, number of readers, questions and interleaving",
 "The tests read a message from one goroutine only; a remembered answer or a shared scratch area shows under concurrent readers only.",
 ["syslog.go", "rfc5424/builder.go", "rfc5424/syslog_message.go", "rfc3164/syslog_message.go", "common/facility.go", "common/severity.go"],
 [("Base.FacilityMessage ... SeverityShortLevel, Valid", "syslog.go"), ("SyslogMessage.String", "rfc5424/builder.go")],
 ["answers of the accessors", "text and error of String", "fields", "race detector reports"])

prop("C32", "Messages share nothing but what a program lets them share",
 "RFC 5424 messages are ordinary Go values, whatever their parts come from (a parse, setters, assignments by the program, a copy of the struct, a pointer taken from another message): a setter, ComputeFromPriority included, lets its field point to a new value and never writes to the value it pointed to, so that copies made and pointers taken before keep what they show; only structured data maps, which Go copies share, are added to in place. Reading a message, String included, changes nothing. Valid and String depend only on what the fields show: a message whose assigned parts RFC 5424 can express serialises to a text that parses back to the same message (an empty or nil StructuredData map, an empty message and '-' count as absent, a nil inner map as an element without parameters), and no setter panics on parts a program assigned.",
 ["inputs", "histories"], "for every sequence of parsing, setting, copying, assigning and reading messages",
 "The tests never copy a message, assign a field or look at an earlier message again; overwriting in place shows only through a second holder of the pointer.",
 ["rfc5424/builder.go", "rfc5424/builder.go.rl", "rfc5424/syslog_message.go", "syslog.go"],
 [("builder actions set_*", "rfc5424/builder.go set"), ("String", "rfc5424/builder.go"), ("ComputeFromPriority", "syslog.go")],
 ["fields of every message", "values behind pointers taken earlier", "String() and re-parsing its output"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
