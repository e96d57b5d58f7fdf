"""technique and level_note of every check, for MANIFEST.json"""
PARSE = "TLA+ specification model-checked with TLC; its exported transition table replayed against the real parser (every transition, random walks) and recorded parses judged by TLC"
PARSE_NOTE = ("The byte-level machine of %s is model-checked against an independently written declarative grammar over all inputs built from a bounded "
              "alphabet and shrunken field limits; the real parser is then compared with the machine (real limits, all 256 byte values, every control state) "
              "on every transition and hundreds of thousands of generated inputs, and a sample of recorded parses is judged by TLC directly. Inputs outside "
              "those generated are not covered; the Go toolchain, TLC and the small harness interpreter (whose mismatches TLC must confirm) are trusted.")
TECHNIQUE, NOTE = {}, {}
for p in ("C01", "C02", "C03", "C04", "C05"):
    TECHNIQUE[p], NOTE[p] = PARSE, PARSE_NOTE % "RFC 5424 parsing (spec/Rfc5424.tla)"
for p in ("C06", "C07", "C08"):
    TECHNIQUE[p], NOTE[p] = PARSE, PARSE_NOTE % "RFC 3164 parsing (spec/Rfc3164.tla)"
TECHNIQUE["C09"], NOTE["C09"] = PARSE, PARSE_NOTE % "both formats (spec/Rfc5424.tla, spec/Rfc3164.tla)"
for p in ("C12", "C13", "C15"):
    TECHNIQUE[p] = ("TLA+ specification of the builder's operations and serialisation model-checked with TLC; its transitions replayed against the real builder "
                    "(every control state of every field x every byte, random call histories) and recorded call histories judged by TLC")
    NOTE[p] = ("The operations of spec/Builder5424.tla are checked against the independent declarative grammar for all histories up to a bounded length over a "
               "small alphabet; the real builder is compared with them, at the real field limits and with all 256 byte values, after every call of hundreds of "
               "thousands of generated histories, and a sample of histories is judged by TLC itself. Histories outside those generated are not covered; the Go "
               "toolchain, TLC and the harness interpreter (whose mismatches TLC must confirm) are trusted.")
for p in ("C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"):
    TECHNIQUE[p] = ("TLA+ specification of the stream framing (byte automaton, registers, listener) model-checked with TLC against a declarative definition of "
                    "frames under every reader schedule; its transitions replayed against the real stream parsers with many readers, and recorded runs judged by TLC")
    NOTE[p] = ("All streams up to a bounded length over a small alphabet, every way of cutting them into reads and every end are model-checked on the specification; "
               "the real parsers are compared with it on hundreds of thousands of streams (every control state x all 256 bytes, all short streams, length boundaries, "
               "random ones) with different readers, failures and reused parsers, and a sample of recorded runs is judged by TLC. The outcome of parsing one message "
               "is taken from the real message parser (its own properties are C01-C09). Streams and schedules outside those generated are not covered; the Go toolchain, "
               "TLC and the harness interpreter (whose mismatches TLC must confirm) are trusted.")

OBJ_NOTE = ("The object (registers, mutex, buffers, results) is model-checked at byte granularity with the machines of the format specifications for up to %s; designs without "
            "%s are shown to violate the invariant. The real objects are then driven through %s and every outcome is compared with the outcome of the same "
            "input alone, recorded in a process of its own; TLC judges the deviating and a sample of the other histories. %sThe Go toolchain and TLC are trusted.")
TECHNIQUE["C10"] = "TLA+ specification of a parser object with registers, buffers and results model-checked with TLC; histories recorded on real parsers judged by TLC against it"
NOTE["C10"] = OBJ_NOTE % ("4 calls of short inputs", "register reset or without copies", "every pair (way to leave a parser in any control state of the specification, probe input) and random histories, with "
                          "one reused, overwritten buffer", "Histories outside those generated are not covered. ")
TECHNIQUE["C11"] = ("TLA+ specification of parser objects used by several goroutines model-checked with TLC (all interleavings of bytes); concurrent histories of real shared and separate "
                    "parsers, also under the race detector, judged by TLC")
NOTE["C11"] = OBJ_NOTE % ("3 goroutines", "the mutex", "hundreds of thousands of concurrent calls on shared and separate parsers, machines and stream parsers",
                          "The real schedules are those the Go scheduler produced; the race detector generalises over the timing of each run, but not over its order of calls. ")
TECHNIQUE["C14"] = ("TLA+ specification of builder calls with their own registers model-checked with TLC (all interleavings of bytes); concurrent builder histories on the real "
                    "messages, also under the race detector, judged by TLC")
NOTE["C14"] = OBJ_NOTE % ("3 goroutines", "registers per call", "tens of thousands of concurrent builder histories on distinct messages",
                          "The real schedules are those the Go scheduler produced; the race detector generalises over the timing of each run, but not over its order of calls. ")
TECHNIQUE["C24"] = "TLA+ specification of priority, version and accessors model-checked with TLC; recorded histories over every priority, version and message type judged by TLC"
NOTE["C24"] = ("All 256 priorities, versions 0-1100 and selected larger ones, all message types and ways to set a priority are recorded from the real code and judged by TLC itself, together with random "
               "histories, which also assign the Facility, Severity and Priority fields directly. The name tables of the specification were written down from RFC 5427 by hand.")
TECHNIQUE["C25"] = "TLA+ specification of trailer texts and options model-checked with TLC; its texts compared with the real conversions exhaustively up to 3 bytes, recorded calls judged by TLC"
NOTE["C25"] = ("The operational reading of a text is checked against the declarative set of 36 texts over all strings up to 5 or 6 bytes of the relevant alphabet; the real conversions are compared with that set on "
               "all byte strings up to 3 bytes, all strings up to 5 over the relevant bytes, one-edit variants and Unicode substitutions; integers from -1100 to 1100 and extremes. Longer unrelated texts are not covered.")
TECHNIQUE["C26"] = "TLA+ specification of options and parser objects model-checked with TLC; recorded histories of real parser objects made with sequences of options judged by TLC"
NOTE["C26"] = ("Order, repetition and late switching are model-checked on the specification for all option sequences up to 4 (thorough: 6) over two objects; real machines and parsers of both formats are made with all "
               "sequences up to 4 (RFC 5424) and 2 (RFC 3164; thorough 3) and with random longer ones, used interleaved, and every recorded parse is judged by TLC against the format specifications under the "
               "meaning of the options. Zones are fixed offsets here (C07 has others). Histories and inputs outside those generated are not covered; the Go toolchain and TLC are trusted.")
TECHNIQUE["C27"] = ("TLA+ specification of the token scanner model-checked with TLC (and shown to give, under the framing rules, the octet counting automaton); its token kinds replayed against the real scanner, recorded "
                    "scans judged by TLC")
NOTE["C27"] = ("All streams up to 5 (thorough: 7) bytes over 7 bytes and all ways of delivering them are model-checked; the real scanner is compared with the specification on every state x 256 bytes, all streams up to 6 (8) "
               "bytes over 6 bytes, lengths around every kind of maximum and hundreds of thousands of random streams with many readers. Messages longer than the maximum may be refused or delivered. Streams outside "
               "those generated are not covered; the Go toolchain, TLC and the harness interpreter (whose mismatches TLC must confirm) are trusted.")
TECHNIQUE["C28"] = ("TLA+ specification of peer, reader, parser and listener model-checked with TLC for safety and, without fairness of the peer, liveness; the events (reads, results) of real stream parsers "
                    "compared with the specification of the framing and judged by TLC")
NOTE["C28"] = ("All streams up to 6 or 7 bytes over 3 or 4 bytes with every delay of the peer are model-checked (hoarding and reading on are shown to be noticed); real parsers are driven with hundreds of thousands of streams, "
               "byte by byte and in pieces, and the order of reads and results is compared with what the bytes read so far settle. Blocking is observed as the next call of Read, not as time. Streams and schedules outside "
               "those generated are not covered; the Go toolchain, TLC and the harness interpreter (whose mismatches TLC must confirm) are trusted.")
TECHNIQUE["C30"] = "TLA+ specification of the helpers (declarative and operational readings) model-checked with TLC; recorded calls of the real helpers judged by TLC"
NOTE["C30"] = ("The two readings of each helper and the laws that connect them are model-checked for all values up to 5 (thorough: 6) bytes over 5 bytes, all lists of positions in them and digit strings up to 4; the real helpers are "
               "called with all short values over the bytes that matter, every byte next to every special one, all lists of positions, all priorities and versions, and random longer values; every call is judged by TLC. Values "
               "outside those generated, digits that are none and positions that are not ascending or not in the data are not covered; the Go toolchain and TLC are trusted.")
TECHNIQUE["C29"] = "TLA+ specification of stream parser objects and their options model-checked with TLC; recorded histories of real stream parsers given options at once and later judged by TLC"
NOTE["C29"] = ("Objects made with and later given up to 3 (thorough: 4) options in all orders are model-checked (the design in which late best effort does not reach the message parser is shown to be noticed); real parsers "
               "are given all sequences of up to 2 (3) options at every split between creation and later, and random histories of several parsers that share option values; every result is judged by TLC against the framing "
               "and format specifications. Options changed by a listener while Parse runs, and histories outside those generated, are not covered; the Go toolchain and TLC are trusted.")

TECHNIQUE["C31"] = "TLA+ specification of a message with concurrent readers, model-checked with TLC; recorded concurrent readings of real messages (also under the race detector) judged by TLC"
NOTE["C31"] = ("MessageReaders is explored for 2 readers, 3 questions and 2 changes by the owner (thorough: 3 readers, 4 questions); designs that remember answers are noticed. Messages made by the real parsers and builder from probes derived from "
               "the specification are read by 3-12 goroutines at once, with and without the race detector; TraceObject compares every answer with that of a single reader in a process of its own. Schedules are those the Go scheduler produced.")

TECHNIQUE["C32"] = "TLA+ specification of messages as structs of pointers to cells, model-checked with TLC; recorded histories of copies, shared pointers, assignments and setters on real messages judged by TLC"
NOTE["C32"] = ("All histories of 2 (thorough: 3) steps over two messages and two held pointers are model-checked (setters that overwrite in place are shown to be noticed); real messages get every setter after every way to come by "
               "and to share their parts, and random histories over three messages and three pointers; every field and held pointer is compared after each step, texts are parsed again. Sharing of inner maps other than by copying "
               "the struct or the pointer, and histories outside those generated, are not covered; the Go toolchain, TLC and the harness interpreter (whose mismatches TLC must confirm) are trusted.")
