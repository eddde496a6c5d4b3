"""Single source of properties.jsonl and MANIFEST.json (tools/genmeta.py writes both)."""
def p(id, title, statement, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []))
A = "crates/abe/src/"; B = "crates/byte-fmt/src/"; K = "crates/pkt/src/"; C = "crates/core/src/"
PROPERTIES = [
p("C01", "ABTXT printing followed by parsing is the identity on every byte string",
  "Printing any byte string as ABTXT gives printable ASCII (0x20..0x7e) that contains no unescaped '[', ']', ':', '/', newline or tab, and parsing that text gives back exactly the same bytes. Each byte prints the same way wherever it stands: itself when it is printable and not special, one of the documented two character escapes (\\0 \\f \\n \\t \\r \\: \\\\ \\/ \\[ \\]), or \\xHH in lower case.",
  ["inputs"], "every byte string of every length (the parser's size limit permitting)",
  "The one ABTXT test prints a single 9 byte string; the property ranges over all strings and all byte values in all positions.",
  [A + "abtxt.rs"], [("escape_default/ESCAPE_LOOKUP", A + "abtxt.rs"), ("as_abtxt", A + "abtxt.rs"), ("parse_abtxt, next_byte, hex_byte", A + "abtxt.rs")], ["abe::abtxt::as_abtxt", "abe::abtxt::parse_abtxt_into", "abe::abtxt::parse_abtxt_upto_max"]),
p("C02", "Parsing ABTXT accepts exactly the grammar and never writes past its destination",
  "Parsing arbitrary bytes as ABTXT terminates without panicking; it succeeds exactly when every element is a printable non-special character or a documented escape (hex digits in either case) and the decoded bytes fit in the destination or under the given maximum. On success the result is exactly the decoded bytes in order and the reported count is their number; whatever the outcome nothing outside the destination is written.",
  ["inputs"], "every byte string as text, every destination size and maximum",
  "No test feeds the parser malformed, truncated or over-long text; acceptance is a statement about all texts.",
  [A + "abtxt.rs"], [("next_byte", A + "abtxt.rs"), ("hex_byte", A + "abtxt.rs"), ("parse_abtxt", A + "abtxt.rs")], ["abe::abtxt::parse_abtxt_into", "abe::abtxt::parse_abtxt_upto_max"]),
p("C03", "ABE expressions survive printing and reparsing; brackets must balance",
  "Printing any ABE expression tree and parsing the text gives back the same tree, except that empty byte components vanish and adjacent byte components merge. The strict parser accepts a text exactly when it is printable ABTXT elements, ':' '/' delimiters and balanced brackets; the lenient parser differs only in reading bytes the strict one refuses (unprintable bytes, newlines, and a backslash that starts no escape) as themselves; an incomplete or non-hex \\x sequence stays an error. Neither parser panics on any input.",
  ["inputs"], "every expression tree and every byte string as text (nesting limited by the stack)",
  "The existing tests parse three fixed expressions; no test prints and reparses an arbitrary tree or feeds unbalanced or binary text.",
  [A + "ast.rs"], [("parse_abe_strict_b, parse_abe_with_unencoded_b, collect", A + "ast.rs"), ("Display for ABE/Expr/Ctr", A + "ast.rs")], ["abe::parse_abe_b", "abe::print_abe"]),
p("C04", "Tokenizing ABE text partitions it at its top-level delimiters",
  "Splitting a text into top-level components returns, in order, each component with the delimiter that precedes it (none for the first), so that concatenating delimiters and components gives back the text (a delimiter that ends the text adds no empty component). Delimiters inside brackets or escaped never split; delimiters in the plain set never split; delimiters in the error set, invalid escapes and unbalanced brackets give an error; a component is flagged exactly when it contains a bracketed part.",
  ["inputs"], "every text and every combination of plain and error delimiter sets",
  "One test tokenizes two fixed strings with both sets empty.",
  [A + "ast.rs", A + "abtxt.rs"], [("tokenize_abe_b", A + "ast.rs"), ("next_byte", A + "abtxt.rs")], ["abe::tokenize_abe", "abe::ast::tokenize_abe_b"]),
p("C05", "Fitting bytes into fixed sizes pads on the right side and never truncates",
  "Fitting a byte string into a fixed number of bytes succeeds exactly when it is not longer (exact fit: has exactly that length), and yields the same bytes preceded by the fill byte (left-padded forms: domains, tags, 'ab', 'abx') or followed by zeros (front-fitting forms). Stripping the padding again returns the input without its own leading (respectively trailing) fill bytes. Text and list forms of the same conversion agree with it.",
  ["inputs"], "every byte string and every target size",
  "Tests cover four hand-picked conversions of at most four bytes.",
  [A + "lib.rs", B + "lib.rs"], [("fit, fit_back, fit_front", A + "lib.rs"), ("cut_prefixeq, cut_ending_nulls2", A + "lib.rs"), ("AB::try_fit_byte_slice, ab, abx, parse_abtxt", B + "lib.rs")], ["byte_fmt::ab", "byte_fmt::abx", "byte_fmt::AB"]),
p("C06", "Endian integers mirror native integers bit for bit",
  "A stored big- or little-endian integer returns the value it was built from and has the byte layout its name says; ordering, saturating add/subtract, increment, bitwise operations, conversion to the other endianness and text conversion all agree with the native integer of that width. Big-endian integers order the same way as their bytes do lexicographically.",
  ["inputs"], "every value (pair of values) of the 16, 32, 64 and 128 bit types",
  "Tests build each type from the value 24 only.",
  [B + "endian_types.rs"], [("endian_number!, big_endian!, little_endian!", B + "endian_types.rs")], ["byte_fmt::endian_types::{U16..U128,LU16..LU128}"]),
p("C07", "Byte-string addition and subtraction are exact and saturate",
  "The expression functions '+' and '-' applied to byte strings of one common length compute the big-endian sum (difference) of their arguments in order, as a string of that length; when the exact result does not fit, they give all 0xff (all zero) instead. Arguments of different lengths are an error; no input panics.",
  ["inputs"], "every argument list of 1 to 15 byte strings of every length",
  "No test evaluates '+' or '-'.",
  [A + "scope/uint.rs"], [("carry_add_be, carry_sub_be", A + "scope/uint.rs"), ("'+' and '-' functions", A + "scope/uint.rs")], ["abe::eval::eval with abe::scope::BASIC_SCOPE"]),
p("C08", "Byte functions pad, cut, replace and slice exactly as documented",
  "The expression functions a, f, lpad, rpad, lcut, rcut, lfixed, rfixed, their '~' forms, replace, and slice are total functions of their byte arguments: padding and cutting give exactly the requested length (default 16) keeping the documented side, the strict forms refuse input on the wrong side of the limit and the '~' forms return it unchanged; replace substitutes left to right without overlap; slice selects what the same Python slice selects (a zero step selects nothing; '-0' is outside this). No argument makes them panic or loop.",
  ["inputs"], "every argument list (lengths bounded by memory)",
  "No test evaluates any of these functions.",
  [A + "scope/bytes.rs"], [("pad, cut", A + "scope/bytes.rs"), ("replace", A + "scope/bytes.rs"), ("slice", A + "scope/bytes.rs")], ["abe::eval::eval with abe::scope::BASIC_SCOPE", "abe::scope::bytes::slice"]),
p("C09", "Encoding bytes as an expression evaluates back to the same bytes",
  "Asking a scope to encode bytes with a list of encoders either reports an error, or that no encoder applies, or returns an expression that evaluates to exactly those bytes; a length option restricts an encoder to those lengths; decimal, binary, hex and base64 readers and printers are inverse on the values they accept. The encoding functions and macros ('?', '??', '???', '/?', '/~?') give that expression (without brackets, or without function name). No bytes, encoder name or options make it panic.",
  ["inputs"], "every byte string, encoder list and option list",
  "No test calls an encoder; a debug assertion in the code states the property but nothing exercises it.",
  [A + "eval.rs", A + "scope/base.rs", A + "scope/uint.rs", A + "scope/bytes.rs", A + "scope/encode.rs"], [("encode_abe", A + "eval.rs"), ("enc_bin, bin, base64", A + "scope/base.rs"), ("u8..u128, lu.. functions", A + "scope/uint.rs"), ("encode_a", A + "scope/bytes.rs")], ["abe::eval::encode", "abe::eval::eval"]),
p("C10", "Evaluation calls functions with exactly the written arguments, left to right",
  "Evaluating a bracketed expression calls each named function once, left to right, with the written arguments in order; each function after a '/' receives the previous result as its first argument, and the last result replaces the bracket. Brackets evaluate inside out, a leading ':' yields bytes without a call, text outside brackets is unchanged, and unknown names, failing functions, and more than 16 components give an error, never a panic or another result. 'eval', '/e' and '/or' (the first alternative that evaluates) follow the same rules; positional arguments give the value at that place.",
  ["inputs", "programs"], "every expression tree and every set of functions",
  "No test checks the arguments a function receives or the order of calls.",
  [A + "eval.rs"], [("match_expr, _eval, call", A + "eval.rs"), ("ABList::split_fslash, push, items, concat", A + "eval.rs"), ("EScope::try_apply_func", A + "eval.rs"), ("ArgV, ArgList", A + "scope/argv.rs"), ("LogicOps", A + "scope/logic.rs")], ["abe::eval::eval with a recording Scope"]),
p("C11", "Expression lists keep their structure; pattern replacement is exact",
  "A component list converts to an expression and back without change (an empty first component before a delimiter and a list starting with that delimiter are the same list), prints to text that reparses to the same list, and concatenating or iterating it visits every delimiter and every byte once in order. Replacing a pattern in an expression tree replaces exactly the non-overlapping leftmost occurrences, innermost lists first, never rescans what it inserted, and always terminates. The list matchers (take, exact, single, a delimited expression, ...) accept exactly the lists of their shape and give their parts.",
  ["inputs"], "every component list, every tree, pattern and replacement",
  "Two fixed trees are tested for replacement; list conversions are untested.",
  [A + "eval.rs", A + "ast.rs"], [("ABList", A + "eval.rs"), ("replace_abe", A + "ast.rs")], ["abe::eval::ABList", "abe::ast::replace_abe"]),
p("C12", "Typed values print as expressions that evaluate back to the value",
  "Every integer, fixed byte array and base64 value written as an ABE expression (as a tree or as text) evaluates, in the basic scope, to the same value, and the shape check accepts that expression. Written as plain text, it parses back to the same value; text of the wrong length or out of range is refused, not truncated.",
  ["inputs"], "every value of each integer width and of arrays of each length",
  "One test does this for the value 24 of each integer type.",
  [B + "endian_types.rs", B + "lib.rs", A + "convert.rs"], [("ToABE impls", B + "endian_types.rs"), ("ToABE for AB and B64", B + "lib.rs"), ("TypedABE::eval", A + "convert.rs")], ["abe::TypedABE", "abe::ToABE"]),
p("C13", "Base64 values parse and print as inverses; xor and integer views are exact",
  "Printing a fixed-size value as url-safe unpadded base64 and parsing it returns the value; parsing accepts only the canonical text of exactly the right length and never touches memory outside the value. Xor of two values is bytewise, and the 128, 256 and 512 bit integer views are the big-endian value of the bytes, inverse to their constructors.",
  ["inputs"], "every value and every text",
  "Tests check three xors of constant arrays; parsing is untested.",
  [B + "lib.rs", A + "scope/base.rs"], [("B64::parse_str, try_fit_bytes_or_b64", B + "lib.rs"), ("BitXor for B64", B + "lib.rs"), ("to_u256/from_u256/to_u128", B + "lib.rs")], ["byte_fmt::B64"]),
p("C14", "A stored identity opens only with its password and only to its own key",
  "Encrypting a signing key under a password and decrypting the text with that password returns the same key, and the public key is readable from the text without a password. Decrypting any text with any password either fails or returns the key whose public key the text names; malformed text is refused without panicking. A signature made for a hash verifies under that key and that hash, and hashing segments equals hashing their concatenation.",
  ["inputs"], "every key, password, cost setting, stored text, hash and segment list",
  "Tests use one key, one password and the well-formed text produced from it.",
  ["crates/argon2-identity/src/lib.rs", "crates/cryptography/src/lib.rs"], [("decode_string, pubkey, decrypt, _encrypt", "crates/argon2-identity/src/lib.rs"), ("sign_hash, validate_signature, hash_segments", "crates/cryptography/src/lib.rs")], ["linkspace_argon2_identity::{encrypt,decrypt,pubkey}", "linkspace_cryptography::{sign_hash,validate_signature,hash_segments}"]),
p("C15", "The process bus value only grows, and foreign datagrams never disturb it",
  "The value of a process bus never decreases: emitting a value not below the current one makes it the current value and wakes waiters, emitting a lower one changes nothing and returns the current value. Datagrams are applied only when they carry this bus's id, another process's origin and a well-formed value; anything else, of any length or content, is ignored without stopping the receiver. Each bus id is given a port of its own (as long as ports last), the same every time it is asked for.",
  ["schedules", "inputs", "histories"], "every interleaving of emits and received datagrams, every datagram, every history of port requests",
  "The crate has no tests; interleavings and malformed datagrams cannot be sampled by unit tests.",
  ["crates/ipcbus/src/udp_procbus.rs", "crates/ipcbus/src/udp_multicast.rs"], [("ProcBus::_emit", "crates/ipcbus/src/udp_procbus.rs"), ("ProcBus::init datagram handler", "crates/ipcbus/src/udp_procbus.rs"), ("get_port", "crates/ipcbus/src/udp_procbus.rs")], ["ipcbus::ProcBus"]),
p("C16", "Configuration lookups return the latest matching entry and survive printing",
  "Looking up a prefix in a configuration returns the most recently added entry whose leading components equal it, as an error value when that part of the entry is delimited by anything but ':' (an entry whose rest starts with '/' may be refused); the optional value of a prefix is nothing when the entry ends there, the value when exactly one ':' component follows, and an error value otherwise. Printing a configuration and reading it back keeps every entry in order (text of entries holds no blank lines, and an entry starting with ':%' is the header's).",
  ["inputs", "histories"], "every list of entries and every prefix",
  "The configuration type has no tests.",
  [A + "abconf.rs"], [("get_inner, get_checked, has_optional_value", A + "abconf.rs"), ("try_from, Display", A + "abconf.rs")], ["abe::abconf::ABConf"]),
p("C17", "Space operations agree with the space's list of segments",
  "A space is equivalent to its list of segments (at most 8, each of 1..200 bytes, at most 242 bytes in all with one length byte per segment): appending, prepending, joining, splitting, taking the first or last, parents and prefix tests all agree with the same operation on that list, and refuse exactly when the result would break a limit. A byte string is accepted as a space exactly when it encodes such a list, and no byte string makes the check panic or read out of bounds.",
  ["inputs"], "every space and every byte string",
  "The packet crate is not built by the test suite; its tests use fixed spaces.",
  [K + "space.rs"], [("Space::check_components, from_slice", K + "space.rs"), ("SpaceBuf::try_append_component, join, pop", K + "space.rs")], ["linkspace_pkt::Space"]),
p("C18", "Rooted spaces carry an exact index of their segments",
  "A rooted space built from segments yields exactly those segments by index and by iteration, its depth is their number, and its index equals the one computed from its bytes alone. Accepting one from bytes succeeds exactly when the index matches the bytes; appending and truncating keep that true.",
  ["inputs"], "every rooted space and every byte string",
  "The packet crate is not built by the test suite.",
  [K + "rooted_space.rs"], [("RootedSpace::from, try_append", K + "rooted_space.rs")], ["linkspace_pkt::RootedSpace"]),
p("C19", "A built point reads back from its bytes unchanged",
  "Serialising any datapoint, linkpoint or keypoint and reading the bytes returns the same fields, links, data, signature and hash, with sizes and padding as recorded in the header; building refuses exactly the contents that exceed the size limits, and the free space reported for a content agrees with those limits. Copies (boxed, shared, owned) are the same point. Two points with equal fields have equal bytes and hash.",
  ["inputs"], "every combination of fields within the limits",
  "The packet crate is not built by the test suite.",
  [K + "builder.rs", K + "point_parts.rs", K + "point_ptr.rs", K + "netpkt/mod.rs"], [("linkpoint, keypoint, datapoint builders", K + "builder.rs"), ("PointParts::fields", K + "point_ptr.rs")], ["linkspace_pkt::read::read_pkt"]),
p("C20", "Reading untrusted bytes never goes out of bounds and accepts only valid points",
  "Reading arbitrary bytes as a packet returns a packet, asks for more bytes, or gives an error, without panicking or reading outside the buffer. A packet is accepted only if its header sizes are consistent, its space and links are well formed, and (when checking is on) its hash matches and its signature verifies.",
  ["inputs"], "every byte string of every length and alignment",
  "The packet crate is not built by the test suite; malformed input is not sampled.",
  [K + "read.rs", K + "point.rs", K + "netpkt/partial.rs", K + "point_ptr.rs"], [("read_pkt", K + "read.rs"), ("PointHeader::check", K + "point.rs"), ("check_content", K + "point_ptr.rs")], ["linkspace_pkt::read::read_pkt"]),
p("C21", "Routing headers never affect a point's identity",
  "Changing the mutable network header (flags, hop count, stamps) of a packet leaves its hash, content and validity unchanged, each header field reads back as written, and rerouting a packet shares the same point; the receive stamp of a received packet is the one it was given. Hopping counts up, stops at the largest count and changes nothing else but the always-zero flag. A mutation sets the routing fields its rules name to their values and no other bit, wherever the header lies in memory; fields of the point cannot be named.",
  ["inputs"], "every header value and every packet",
  "The packet crate is not built by the test suite.",
  [K + "netpkt/header.rs", K + "netpkt/reroute.rs"], [("NetPktHeader", K + "netpkt/header.rs"), ("MutFieldMut", K + "netpkt/header.rs")], ["linkspace_pkt::NetPktHeader"]),
p("C22", "Tree keys order points by group, domain, depth, space, key, stamp and hash",
  "The tree key and value computed for a packet decode to the packet's own fields, and comparing packets in tree order compares group, domain, space depth, space, public key, then create stamp, then hash; packets without a space come after all others, by hash. Bytes too short for a key are refused.",
  ["inputs"], "every pair of packets",
  "The packet crate is not built by the test suite.",
  [K + "netpkt/tree_order.rs"], [("TreeEntry, TreeKey, TreeValue", K + "netpkt/tree_order.rs")], ["linkspace_pkt::tree_order"]),
p("C23", "Bit sets over space depth contain exactly the values their rules accept",
  "A bit-set predicate on a small number, made from rules, from members or as all depths from one on, accepts exactly the values (depths 0 to 8) that every rule accepts; its next member, intersection, combination (refused exactly when nothing is left) and shift agree with that set.",
  ["inputs", "histories"], "every sequence of rules over every value",
  "The core crate is not built by the test suite.",
  [C + "predicate/bitset_test.rs"], [("BitTestSet", C + "predicate/bitset_test.rs")], ["linkspace_core::predicate::bitset_test"]),
p("C24", "Integer predicates are the conjunction of the rules added to them",
  "A predicate on an integer field accepts a value exactly when the value satisfies every =, <, >, mask and inverse-mask rule added so far; adding a rule that contradicts them is refused or yields a predicate that accepts nothing, and no sequence of rules panics. The reported lower and upper bounds enclose every accepted value; the reported rules describe the same predicate; combining two bounds accepts exactly what both accept; for a predicate that accepts something, the next accepted value from a point on is exact (a membership counter that reaches the last value of its type stays there).",
  ["inputs", "histories"], "every sequence of rules, every value, every integer width",
  "The core crate is not built by the test suite; its tests use a few fixed rules.",
  [C + "predicate/value_test.rs", C + "predicate/uint.rs"], [("TestSet::try_add, test, info", C + "predicate/value_test.rs"), ("Bound, UInt", C + "predicate/uint.rs")], ["linkspace_core::predicate::value_test::TestSet"]),
p("C25", "Stamp ranges and stamp arithmetic are exact and saturate",
  "A stamp range accepts exactly the stamps between its bounds, in either direction, and prints as text that reads back as the same range. Adding to or subtracting from a stamp with a delta gives the exact microsecond result or saturates; the stamp just after the last one is the last one. No text given as a duration panics, and a duration of whole microseconds that fits a stamp prints as text that reads back as the same duration.",
  ["inputs"], "every stamp, bound and duration text",
  "The core crate is not built by the test suite.",
  [C + "stamp_range.rs", C + "stamp_fmt.rs"], [("StampRange", C + "stamp_range.rs"), ("DurationStr, parse_duration", C + "stamp_fmt.rs")], ["linkspace_core::stamp_range", "linkspace_core::stamp_fmt"]),
p("C26", "Packet predicates accept a packet exactly when each field rule does",
  "A set of packet predicates accepts a packet exactly when every rule on its group, domain, space, depth, links, sizes, stamps, key, hash and routing header holds for that packet's fields, in whichever order rules were added; a rule on a field also requires the packet to have that field. >= is equal or greater, <= is equal or less, a head or tail value fixes just those bytes; a value a field cannot have is refused. A rule set that accepts nothing may be refused; the printed form of a set reads back as one that accepts the same.",
  ["inputs", "histories"], "every predicate set and every packet",
  "The core crate is not built by the test suite.",
  [C + "predicate/pkt_predicates.rs", C + "predicate/test_pkt.rs", C + "predicate/exprs.rs", C + "predicate/builder.rs"], [("PktPredicates::add_predicate", C + "predicate/pkt_predicates.rs"), ("compile_predicates", C + "predicate/test_pkt.rs")], ["linkspace_core::predicate::pkt_predicates::PktPredicates"]),
p("C27", "A watch sees each matching new point once until its limits are reached",
  "Each point given to the matcher is offered exactly once to every registered watch, in the order of the watch ids; a watch receives it exactly when its predicates accept it and both of its counts are within the limits asked for; it ends when its limits or its receive bounds are past or when it says so, and then never receives anything again. Registering a watch replaces the one with its id and no other, closing one ends it and no other, closing by prefix ends exactly the watches whose id starts with that prefix, and every watch that ends is handed over once. (The log reader in crates/common that feeds the matcher is outside.)",
  ["histories"], "every sequence of registrations and points",
  "The core crate is not built by the test suite.",
  [C + "matcher/mod.rs", C + "query.rs"], [("Matcher::trigger, register, deregister", C + "matcher/mod.rs")], ["linkspace_core::matcher::Matcher"]),
p("C28", "A save is whole or not at all, and queries find exactly what was saved",
  "Saving a batch either saves every point of it that was not there yet, each under its own receive stamp later than all earlier ones, in order and together with its hash entry and tree position, or, when the storage fails at any step, reports the failure and leaves everything as it was; it tells which points were there already and never changes or duplicates them. A saved point is found by its hash, in receive order and, if it has one, at its tree position; snapshots taken before do not see it; and a query over the log, the hashes or the tree gives exactly the saved points its rules accept, once each, in order and within its limits.",
  ["histories", "fault_sequences"], "every history of batches and every failing storage call",
  "The core crate is not built by the test suite.",
  [C + "env/lmdb/save.rs", C + "env/lmdb/queries.rs", C + "env/lmdb/tree_iter.rs"], [("LMDBEnv::save", C + "env/lmdb/save.rs"), ("ReadTxn::query", C + "env/lmdb/queries.rs")], ["linkspace_core::env::lmdb"]),
p("C29", "Concurrent writers agree on one receive order",
  "Points saved by several processes get distinct receive stamps that increase in the order readers observe them, and readers blocked on the process bus eventually see each of them.",
  ["schedules"], "every interleaving of writer and reader processes",
  "Unit tests run one process.",
  [C + "env/lmdb/mod.rs", "crates/ipcbus/src/udp_procbus.rs"], [("save and ProcBus emit", C + "env/lmdb/mod.rs")], ["linkspace_core::env::lmdb"]),
p("C30", "Binding names and permissions in LNS resolves only to signed claims",
  "A name resolves to a claim only if the claim is live at the time asked and vouched for by enough of the parent's authorities; no unsigned, expired or foreign claim is ever returned.",
  ["histories"], "every history of claims and votes",
  "The crate is not built by the test suite.",
  ["crates/linkspace/src/conventions/lns/claim.rs"], [("lookup_claim", "crates/linkspace/src/conventions/lns")], ["linkspace::conventions::lns"]),
]
NOT_APPLICABLE = {
"C29": "A property of interleaved processes over LMDB and UDP: the storage layer cannot be compiled here and neither Kani nor the Verus subset used models several processes (the bus value's own monotonicity is C15).",
"C30": "Depends on the linkspace crate's runtime and a populated database; the crate cannot be compiled here (unavailable dependencies) and the property quantifies over signed histories through LMDB queries.",
}
PENDING = "The check for this property is not built yet."
