PARSERS = ["parse/tags", "parse/values", "parse/pubkey", "parse/seckey", "parse/s2k", "parse/reader", "parse/context", "parse/result"]
EVERYBODY = "every body of every packet and subpacket type, every option combination, every session state left by earlier packets"
SPECNOTE = "all outcomes of the 64 packet types and 2x256 subpacket types are derived as symbolic item trees over the input octets and compared, case by case, with an independently written specification of the wire formats"

prop("C01", "No input makes the program panic",
 "For every packet or subpacket body, every combination of display options and every preceding history of packets, parsing ends with a result or an error and never with a run-time panic (index or slice out of range, nil dereference, failed type assertion, division by zero, impossible allocation size).",
 ["inputs", "configurations", "histories"], EVERYBODY,
 "A test runs a handful of well-formed packets; a panic needs the one length octet, algorithm or truncation point nobody wrote down.",
 ["parse/tags", "parse/values", "parse/pubkey", "parse/seckey", "parse/s2k", "parse/reader"],
 ["every read goes through a bounds-checked reader; lengths are compared with the rest before use"],
 AI + ": run-time-error obligations", "every index, slice, nil, assertion, allocation and division site reachable from a parser is discharged for all bodies of all 64 packet types and 2x256 subpacket types by relational facts over symbolic input octets")

prop("C02", "Truncated data is reported and complete data is never rejected",
 "A packet or subpacket whose body ends before a required field of its wire format is complete makes parsing fail with an error instead of yielding a partial dump, and a body in which every required field is present is never rejected. Documented tolerances are a missing length octet of ECDH key-derivation parameters or an encoded session key, and a shortened private string-to-key extension.",
 ["inputs", "configurations"], "every body of every packet and subpacket type, cut at every octet",
 "There is one truncation point per octet and field of every version and algorithm; tests sample complete packets.",
 PARSERS, ["read errors are returned up to the packet parser; optional fields are read only if octets remain"],
 AI + ": comparison of failure conditions with a wire-format specification", SPECNOTE)

prop("C03", "Failure is never reported as success",
 "Whenever the command line is wrong, the input cannot be opened, read or decoded, a packet cannot be parsed, a request fails or an internal error occurs, the program ends with a non-zero exit status, tells the error on the error output and writes nothing to the standard output, and otherwise it ends with status zero. In debug mode errors are printed to the standard output instead, which is documented behaviour.",
 ["inputs", "configurations", "fault_sequences"], "every command and flag combination with every failure of every operation it performs",
 "The tests call two commands with good arguments; each failure point needs its own fault.",
 ["gpgpdump.go", "facade", "hkp", "github"], ["errors are returned up to the root command, which maps them to the exit status; panics are recovered"],
 AI + " of the whole program for every command, flag combination and failing operation", "all paths from main to the exit for every command and every flag combination, with every library operation succeeding or failing; at each path's end the exit status, the error output and the standard output are compared with whether something failed")

prop("C04", "Octets are shown exactly when the display options ask for them",
 "The hexadecimal octets of a field are part of its dump exactly when the field always shows them or the display option for its class (multi-precision integers, literal data, marker, private packets) or debug is set, they are then exactly the octets of that field, and the display options other than UTC change nothing else in the dump.",
 ["inputs", "configurations"], "every combination of display options with every body",
 "2^8 option combinations times all packet types; tests switch on one or two at a time.",
 PARSERS, ["each field's dump is requested with a flag computed from the context's options"],
 AI + ": option dependence of every displayed field", SPECNOTE)

prop("C05", "Octets left over after the last field are reported",
 "When octets remain after the last field of a session-key, signature or key packet (or inside the counted key material of a V5 key) the dump has one further item with exactly their number and content, and there is no such item when nothing remains.",
 ["inputs"], "every body of these packet types with every number of surplus octets",
 "Left-overs depend on the exact arithmetic of all previous lengths; golden files contain none.",
 PARSERS, ["after the last field the rest of the reader is turned into an item"],
 AI + ": comparison of item trees with a wire-format specification", SPECNOTE)

prop("C06", "The dump shows every field of the wire format, in order, exactly",
 "For every body that parses, the dump lists exactly the fields that the OpenPGP wire format defines for that packet or subpacket type, version and algorithm, each once and in order, with the value the octets of the field have; nothing is missing, doubled, invented or taken from another position.",
 ["inputs", "configurations", "histories"], EVERYBODY,
 "Golden tests pin a few packets per type; versions, algorithms, usage octets and lengths multiply far beyond them.",
 PARSERS, ["one parser per packet and subpacket type reading fields in wire order"],
 AI + ": comparison of item trees with a wire-format specification", SPECNOTE)

prop("C07", "Every identifier is shown with its registered name",
 "Every packet tag, subpacket type (with or without the critical bit), algorithm, usage, flag, reason and format identifier is parsed by the parser of its type and displayed with its registered name and number, and identifiers without registration are shown as private, reserved or unknown together with their number.",
 ["inputs"], "all 256 values of every identifier octet in every position where it can occur",
 "Tests look at a few identifiers; a swapped or shadowed table entry shows only for that value.",
 ["parse/values", "parse/tags", "parse/context"], ["tables from identifier to name and to parser constructor, with fallbacks"],
 AI + ": exact tables of identifier to name", SPECNOTE)

prop("C08", "Text from the input is shown only when it is safe to print",
 "Text taken from a packet (user ids, notations, URLs, file names, reasons, formats) appears in the dump only if it is valid UTF-8 and with its control characters replaced by visible code points, and otherwise as hexadecimal octets or not at all.",
 ["inputs"], "every content of every text field",
 "An escape sequence hidden in one field of one packet type is never in a golden file.",
 ["parse/values", "parse/tags"], ["text fields go through one filter for UTF-8 validity and control characters"],
 AI + ": every displayed text term passes the filter", SPECNOTE)

prop("C09", "The same input and options always give the same dump",
 "The result of parsing depends on nothing but the octets given and the options: not on the clock, random numbers, the environment, the order of map iteration, goroutine schedules, or on what was parsed before with another parser in the same process.",
 ["inputs", "schedules", "histories"], "every input, every iteration order of maps, every earlier use of the library",
 "Map iteration order and state left by earlier runs vary between runs; a test that passes once shows nothing.",
 PARSERS + ["armtext", "parse"], ["the parsers are pure functions of a reader and a context; maps are only looked up or written to ordered results"],
 AI + " with reversed map iteration, and an effect analysis of all library functions", "every function of the library packages is scanned for reads of clock, random numbers, environment, goroutines, channels and for writes to package variables; every parser that iterates over a map is analysed a second time in the opposite order and both dumps are compared")

prop("C10", "Dates are exact and belong to their own key or signature",
 "Every date shown is the instant of its four octets, in UTC exactly when that option is set, and every expiry shows its period and the instant period-after-creation of the same signature or key without wrap-around. Creation times never carry over from one signature or key to another.",
 ["inputs", "histories", "configurations"], "every time value, period and sequence of keys and signatures",
 "Wrap-around needs extreme values and leaks need particular sequences of packets.",
 ["parse/values", "parse/tags", "parse/context"], ["creation times are kept in the parse context between a packet and its subpackets"],
 AI + ": time terms and session state after each packet", SPECNOTE)

prop("C11", "Encrypted data is described by the session-key packets before it",
 "An encrypted data packet is described by the kind of the latest preceding session-key packet (public-key or symmetric, none if there was none), that kind is used up by the encrypted data packet, and no other packet type changes it.",
 ["histories", "inputs"], "every sequence of packets",
 "It is a property of sequences of packets; tests parse packets one at a time or in two fixed orders.",
 ["parse/tags", "parse/context"], ["the parse context holds the kind of session key"],
 AI + ": session state transitions of every packet type", SPECNOTE)

prop("C12", "Compressed data is expanded with the named algorithm within a limit",
 "The contents of a compressed data packet are decompressed with the algorithm it names, an unknown algorithm is not expanded, malformed compressed data makes the dump fail, and contents larger than the limit of 1 GiB are reported as too large instead of being expanded.",
 ["inputs"], "every compressed body",
 "Decompression bombs and damaged streams are not part of the tests.",
 ["parse/tags"], ["the decompressor is chosen by the algorithm octet and its output is copied through a limit"],
 AI + ": dataflow from body through decompressor and limit to the result", "outcomes of the compressed data parser over all bodies: chosen decompressor, limit constant, treatment of each failure")

prop("C13", "Nothing outside is touched unless the command line asks for it",
 "Dumping a file or the standard input reads exactly that input; it opens no other file, sends nothing over the network, does not read the clipboard and starts no process, and only the commands for key servers, GitHub and URLs send requests. The library itself has no effect but reading its input.",
 ["configurations", "inputs"], "every command and flag combination",
 "A test cannot observe what is not done on the flag combinations it does not try.",
 ["gpgpdump.go", "facade", "hkp", "github"], ["each command opens exactly one source; the library packages only see a reader"],
 AI + " of the whole program with an effect log, and an effect analysis of all functions", "for every path of every command the log of opened files, requests and clipboard reads is compared with what its flags ask for; every function is scanned for calls with effects outside")

prop("C14", "Requests ask for exactly the key named, on every page, and can be interrupted",
 "The key-server command requests exactly the search term given from the server, port and protocol given, with reserved characters encoded; the GitHub command looks through every page of the user's keys until the key id matches or the last page was read and shows only a key that has this id; the URL command fetches the URL given. Every request carries the context of the interrupt signal.",
 ["inputs", "configurations", "histories"], "every search term, user name, key id, server, port, protocol and number of pages",
 "There is no network in a test; escaping, paging and matching depend on values nobody tried.",
 ["hkp", "github", "facade"], ["URLs are built from a server description and encoded values; pages are read until one is not full"],
 AI + " of the whole program: terms of every request sent", "method, URL, query and context of every request on every path of the three commands are derived as terms over flags and arguments and compared; the paging loop is summarised for any number of pages")

prop("C15", "Every file and response that is opened is closed",
 "Every file opened for input and every response received from the network is closed on every way out of the command, including all error returns.",
 ["fault_sequences", "configurations"], "every failure of every operation after the opening",
 "A leak shows on the error path of an operation that does not fail in tests.",
 ["facade", "hkp", "github"], ["defer right after a successful open"],
 AI + " of the whole program: typestate of opened resources", "open and close events on every path of every command")

prop("C16", "Packets come from the armor in the input, or else from the input itself",
 "If the input contains a complete ASCII-armored block (the lines from the first armor header line that does not start a signed text to the next armor tail line) that can be decoded, the packets dumped are those of its decoded content, whatever text surrounds it. Otherwise the packets are read from the whole input, from its first octet to its last, unless armor is required by option, in which case an error is reported and nothing is dumped.",
 ["inputs", "configurations"], "every text of header, tail, signed-text and other lines, with and without the armor option, for inputs of every kind",
 "The tests have one page with one block; lost first octets, a second block or a header inside other text need their own input.",
 ["armtext", "parse"], ["the armor search reads through a copy of what it consumes, so that the input can be replayed"],
 AI + ": lines by kind, and the source term of the packets on every path", "all paths of the armor search over texts of up to 4 lines of every kind (arbitrary line contents), and all paths of making a parser with the armor search and decoder each succeeding or failing; the text picked and the source of the packets are compared with the specified ones")

prop("C17", "Text and JSON show exactly the dump",
 "The text output has, for every item of the dump in order and nested as in the dump, one line with its name, value and note indented by its depth, followed by a line with its octets if it has any, and nothing else. The JSON output encodes the same items with the documented member names, and an encoding error is reported.",
 ["inputs", "configurations"], "every item tree with arbitrary names, values, notes and octets, every indent",
 "Golden outputs fix a few trees with all fields printable; a percent sign, an empty value or a deep tree is not among them.",
 ["parse/result"], ["one recursive function writes an item and its sub-items; JSON is made from struct tags"],
 AI + " on item trees with symbolic fields", "the rendering functions are interpreted on 93 tree shapes (all combinations of present and absent fields, depth up to 25, width up to 70) with symbolic strings and a symbolic indent; the resulting text terms are compared with the specified ones, and struct tags with the documented member names")

prop("C18", "The command line does what its documentation says",
 "Every documented command, alias, flag (name, shorthand, default) exists, every option flag reaches the parser as that option and no other, the input parsed is the file, clipboard, standard input or response selected, raw mode writes the input unparsed, and the output is the text or, with the JSON flag, the JSON rendering of the result with the indent given.",
 ["configurations", "inputs"], "every command and flag combination",
 "There are thousands of flag combinations and the tests try two.",
 ["gpgpdump.go", "facade", "hkp", "github"], ["flags are read by name and passed on as parse options; output goes through one renderer"],
 AI + " of the whole program: options, input and output terms of every path", "for all paths of all commands: registered flags against the documented table, the option bits given to the parser, the input stream given to the parser and the text written")

prop("C19", "Parsing always terminates",
 "Parsing of any packet or subpacket body terminates: every loop has a bound computed before it starts or consumes at least one octet of finite input per iteration.",
 ["inputs", "configurations"], "every body of every packet and subpacket type",
 "Non-termination shows only for the input that makes no progress; a test suite samples inputs that do.",
 ["parse/tags", "parse/values", "parse/reader"], ["loops over octets consume the reader; recursion is over strictly smaller areas"],
 AI + ": loop ranking", "every loop met while analysing the parsers on arbitrary bodies is given a ranking (counted loop or strictly decreasing rest)")

prop("C20", "Reading octets is exact and fails without moving",
 "Reading from the octet buffer of a packet gives exactly the requested octets at the current position and advances by exactly their number; a request beyond the end, a negative size or a position outside the buffer is refused with an error and leaves the position where it was.",
 ["inputs", "histories"], "every buffer, every position in it and every size or offset asked for",
 "The tests read a seven-octet buffer; the off-by-one cases are at the ends of other lengths.",
 ["parse/reader"], ["sizes are compared with the rest before slicing"],
 AI + ": every operation from an arbitrary position of an arbitrary buffer", "each public operation of the reader is interpreted on an arbitrary buffer at an arbitrary position with arbitrary arguments; results, failure and position afterwards are compared with the specified cases (caller slices of length 0, 1, 3, 8 and 16)")

prop("C21", "Every displayed size is exact",
 "Every number of octets or bits shown in the dump (size of a field, bits of an integer, counts, iterations, chunk sizes) equals the size the octets have, for every value including the largest.",
 ["inputs"], "every length and count encodable",
 "Overflow and off-by-one at extreme values are not sampled by tests.",
 PARSERS, ["sizes are computed from the octets read, not from constants"],
 AI + ": arithmetic terms of displayed sizes with overflow obligations", SPECNOTE)

prop("C22", "The input octets are never modified",
 "Parsing never writes into the octets of the packet it was given, so what is dumped is what was received.",
 ["inputs", "configurations"], "every body of every packet and subpacket type",
 "A test compares a rendered result with a golden file produced by the same code; an in-place change of the input shows only in later fields of unusual packets.",
 ["parse/tags", "parse/values", "parse/reader"], ["values copy or re-slice the body, none stores into it"],
 AI + ": write effects on input buffers", "every store reachable from a parser is classified by the buffer it can reach")

prop("C23", "The dump covers the whole sequence of packets, in order",
 "The dump of an input lists every packet of it once and in order, and every packet inside compressed data below its compressed data packet; an input that ends in the middle of a packet or has a packet that cannot be parsed makes the dump fail instead of ending early.",
 ["inputs", "histories"], "every sequence of packets of any length, ending cleanly or not",
 "Sequences are unbounded; tests use one to four packets.",
 ["parse", "parse/tags"], ["a loop reads the next packet until the end of the input"],
 AI + ": loop summaries compared with an iterated specification", "the packet loop and the loop over the contents of compressed data are summarised for any number of packets; the list of items at every exit is compared with one item per packet")

prop("C24", "Time and memory are proportional to the input",
 "For every input the time and the memory the dump takes are bounded by a constant multiple of the size of the input and of the expanded compressed data.",
 ["inputs"], "every input",
 "Tests use small inputs; blow-up needs large or adversarial ones.",
 ["parse"], ["buffers are read in full and dumps are built as strings"],
 None, "")
NA.append(("C24", "running time and heap use depend on library code and amortised growth; no sound static argument in reach bounds them"))
