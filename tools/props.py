"""What decides each property: contract harnesses (kani + native), Verus units, assumptions."""
CHAIN = {"abe": ["abe"], "bytefmt": ["byte-fmt", "abe"], "cryptography": ["cryptography"], "identity": ["argon2-identity", "cryptography"],
         "ipcbus": ["ipcbus"], "pkt": ["pkt", "byte-fmt", "abe", "cryptography"], "core": ["core", "pkt", "byte-fmt", "abe", "cryptography", "argon2-identity"],
         "store": ["core", "pkt", "byte-fmt", "abe", "cryptography", "argon2-identity", "ipcbus"]}
def FEATURE_CRATES(fs):
    out = []
    for f in fs:
        for c in CHAIN[f]:
            if c not in out: out.append(c)
    return out
COMMON_TRUST = [
    "rustc, Kani 0.68/CBMC, Verus/Z3",
    "the std library as compiled by Kani's rustc (nightly-2026-08) behaves as nightly-2023-11-04's for the calls used",
    "tools/port.py rewrites (listed per run under toolchain_rewrites) change types and names only",
]
HOOKS = None
PROPS = {
"C01": dict(features=["abe"], harness=[r"abtxt::(escape_table|escape_then_parse|print_parse_any)"], kani=["abtxt::escape_table", "abtxt::escape_then_parse"], verus=["abtxt"],
    note="Unbounded: parsing, hex digits, element grammar and the print/parse round trip for byte strings of any length are proved by Verus on the extracted functions; as_abtxt is proved to produce that printed form; the printed form of each of the 256 bytes is proved by Kani on the compiled table. Assumed: std's Cursor writer, String and Iterator::all contracts; byte strings shorter than 2^56."),
"C02": dict(features=["abe"], harness=[r"abtxt::(parse_into|parse_any|print_parse_any)"], kani=[], kani_thorough=["abtxt::parse_into"], verus=["abtxt"],
    note="Unbounded: acceptance, result, count and termination of the parser for any text, destination and maximum are proved by Verus on the extracted functions against the assumed contract of std's Cursor writer; the two public entry points are executed on the unmodified code as a bounded stand-in."),
"C03": dict(features=["abe"], harness=[r"ast::(print_parse_tree|parse_text|parse_brackets|parse_deep)"], verus=["ast"], note="Unbounded: both parsers, the tree builder and Display are proved by Verus on the extracted functions: a parser accepts exactly the texts whose elements are in the (strict or lenient) grammar and whose brackets balance, returns the one normal tree that stands for the text's tokens, and the printed form of any tree parses back to it. Assumed: contracts of Peekable/from_fn/collect (their defining loop), Formatter and mem::take; texts shorter than 2^31 bytes and a stack deep enough for their nesting. Bounded: the public functions are executed."),
"C04": dict(features=["abe"], harness=[r"ast::tokens_\w+"], verus=["token"], note="Unbounded: the tokenizer's state and its step closure are proved by Verus on the extracted text to return, call by call, exactly the components of the specification for every text and every pair of delimiter sets, and the specification's components are proved to partition the text. Assumed: from_fn and try_collect call the step until it ends; texts shorter than 2^31 bytes. Bounded: the public functions are executed."),
"C05": dict(features=["bytefmt"], harness=[r"bfmt::(fit_\w+|cut_\w+|typed_bytes|typed_ints)"], kani=["bfmt::fit_1", "bfmt::fit_2", "bfmt::fit_16", "bfmt::fit_32", "bfmt::cut_8"], verus=["fit"], note="Unbounded: fit, fit_front, fit_back and the three strippers are proved by Verus on the extracted functions for every size, fill byte and input. Bounded: the compiled functions at four sizes by Kani, and the conversions built on them (AB, endian integers, text, lists) by execution."),
"C06": dict(features=["bytefmt"], harness=[r"bfmt::(be|le)\d+", r"bfmt::text"], kani=["bfmt::be16", "bfmt::be32", "bfmt::be64", "bfmt::be128", "bfmt::le16", "bfmt::le32", "bfmt::le64", "bfmt::le128"],
    note="Kani decides every operation of every width for all values on the compiled crate; text conversion is executed (bounded stand-in)."),
"C07": dict(features=["abe"], harness=[r"bytefn::(carry_\w+|add_sub)"], kani=["bytefn::carry_prims", "bytefn::carry_add", "bytefn::carry_sub"], verus=["uint"], note="Unbounded: the carry loops and both functions are proved by Verus for every argument list and length (exact sum, saturation, refusal of unequal lengths); the byte primitives they use are decided by Kani for all inputs. Bounded: the compiled loops at 16 bytes by Kani, the whole path through eval by execution."),
"C08": dict(features=["abe"], harness=[r"bytefn::(pad_cut|replace_fn|slice_fn|any_args)"], verus=["bytes"], note="Unbounded: pad, cut, replace, the number arguments of slice and its stepping closure, and the twelve table entries built on them are proved by Verus for all arguments against specifications written from the documentation (slice: Python's slice.indices). Assumed: str::parse of a length (an uninterpreted function of the text). Bounded: '~utf8', '?a' and the path through eval are executed."),
"C09": dict(features=["abe"], harness=[r"bytefn::(number_text|encode_any|encode_garbage|encode_calls)"], verus=["codec"], note="Unbounded: the readers and printers of numbers (u8 to u128, lu8 to lu128, lu, ?u, ?lu), of binary, octal and hex text, of base64 (b, bs, ?b, ?bs) and of padded text (a, ?a, ?a0), every encoder of the base tables (b2, b16, b, bs, uN, a) with its options, encode_abe with its debug assertions, the table lookup and the scope combinations are proved by Verus on the extracted functions for all inputs and options. That an encoder's text is a call of its own function whose reader gives the bytes back, that this text parses and evaluates to the bytes in any scope that answers that name with that reader, and that whatever encode_abe gives evaluates to the bytes in any scope of such encoders, are lemmas over those contracts and over the contracts of units abtxt, ast, eval, fit and bytes. Assumed: what from_utf8, str::parse and from_str_radix read, to_string, to_be_bytes, the base64 crate as a pair of inverse functions of its alphabet; encoders give the same text each time; texts shorter than 2^31 bytes. Bounded: the public path through eval and encode is executed."),
"C10": dict(features=["abe"], harness=[r"evalx::\w+"], verus=["eval"], note="Unbounded: match_expr, _eval, call, the stepping closure of split_fslash, the list builders, dump_abe_bytes and EScope::try_apply_func are proved by Verus on the extracted functions: for every tree and every scope (any function of the history of calls) the calls made, their order, their arguments, and the result or error are those of the specification, without panic. Assumed: defining loops of zip/for_each, try_collect and from_fn; Iterator::position and slice concat; a stack deep enough for the nesting. Bounded: the public eval is executed with recording scopes."),
"C11": dict(features=["abe"], harness=[r"ast::(ablist_forms|ablist_build|replace_tree|matchers)"], verus=["ablist"], note="Unbounded: the list builders, both item iterators' steps, the conversions to and from an expression, concat, both byte iterators, exact bytes, is_empty, pop_front, Display, the delimited lists and replace_abe are proved by Verus on the extracted functions, and the round trips (expression, text) are lemmas over those contracts. Assumed: defining loops of flat_map/chain/map/collect, windows/position, splice, derived Clone and equality of trees. Bounded: the public functions are executed."),
"C12": dict(features=["bytefmt"], harness=[r"bfmt::(typed_ints|typed_bytes|text)"], verus=["typed"], note="Unbounded: the shape checks, ToABE's default methods, TypedABE's constructors and evaluation, and for every width of endian integer, U8, AB and B64 of any length the writers (to_abe, write_abe, to_abe_str, lu_abe, abe_bits), the conversions to and from lists, Display and FromStr are proved by Verus on the extracted functions; that writing a value as a tree or a text and evaluating it typed gives the value back is proved as executable theorems over those contracts, in any scope that answers the functions' names as their readers do (the readers are proved in unit codec). Assumed: std's integer conversions and decimal text; base64 texts are canonical and of the documented length; decode_slice_unchecked given room; texts shorter than 2^31 bytes. Bounded: the whole path through the public scope is executed."),
"C13": dict(features=["bytefmt"], harness=[r"bfmt::(b64_text|b64_print|b64_ops|u256_view|u512_view)"], kani=["bfmt::b64_ops", "bfmt::u256_view", "bfmt::u512_view"], verus=["typed"], note="Unbounded: Display, FromStr, parse_str, the length check, try_fit_slice, try_fit_bytes_or_b64 and the conversions with lists are proved by Verus on the extracted functions for every length (the text of a value reads back; no read out of the fixed buffer). Kani decides xor and the integer views for all values. Assumed: the base64 crate prints canonical texts of the documented length and reads back what it prints. Bounded: the compiled functions are executed on texts."),
"C14": dict(features=["identity"], harness=[r"ident::\w+"], verus=["ident"], note="Unbounded: decode_string, pubkey, decrypt, _encrypt, encrypt, sign_hash, validate_signature, hash_segments, SigningKey::try_from and pubkey_bytes are proved by Verus on the extracted functions for every text, password, key and cost; that what was encrypted opens, names its key, and that a signature verifies, are lemmas over those contracts. Assumed (uninterpreted): argon2 as a function of its inputs whose encoded form is the documented text, base64 and decimal numbers read back what they print, k256 signatures of a key verify under its public key, blake3 of updates is blake3 of the concatenation; split, strip_prefix, zip, filter by their defining loops. Not claimed: that a wrong password is refused (a statement about argon2), and the memory a stored text's cost makes argon2 use. Bounded: the real primitives are executed."),
"C15": dict(schedules=["bus::hammer", "bus::concurrent"], features=["ipcbus"], harness=[r"bus::\w+"], verus=["bus"], note="Unbounded: _emit, emit, the datagram handler and get_port are proved by Verus on the extracted functions. Every step on the shared value is an atomic step whose result the environment chooses, so the proof holds under any interleaving: a thread writes only by replacing a value not above the new one, and any history of such writes never decreases (a lemma). The handler emits exactly what a well formed datagram of another process on this bus brings; get_port keeps every port given before. Assumed: the contracts of AtomicU64 (sequentially consistent on one location), Event, the socket, the lock file and the file system; native byte order is a bijection; emit may retry for ever (no termination claim). Bounded: real threads, sockets and files are executed; thread schedules are the machine's."),
"C16": dict(features=["abe"], harness=[r"conf::\w+"], verus=["conf"], note="Unbounded: the lookup predicate, get_inner, get_checked, get, has_optional_value, push, extend, new, parse_ablist_b, try_from and Display are proved by Verus on the extracted functions for every list of entries, prefix and text; reading a printed configuration gives back its entries as a lemma over those contracts. Assumed: defining loops of rev/filter/map/zip/take/all; split, strip_prefix and reverse; the parser, list and Display contracts proved in units ast and ablist; texts shorter than 2^31 bytes. Bounded: the public functions are executed."),
"C17": dict(features=["pkt"], harness=[r"space::(build|edit|view|raw)"], verus=["space"], note="Unbounded: both segment iterators, check_components, from_slice, try_from_inner, try_push, try_push_front, extend_from_iter, try_from_iter, try_append, try_prepend, try_join, truncate_last, components, head, tail, parent, pop, split_first, split_last, split_at, first, starts_with, strip_prefix, to_array, the track and scan_space's step are proved by Verus on the extracted functions against the list of segments, for every byte string, list and position (acceptance exactly within the limits, no panic, no read out of range). Assumed: the pointer casts between a byte slice and the transparent structs keep its bytes; get, split_first, starts_with and splice of std; count, last, advance_by, collect by their defining loops (verified). The public functions are also executed on the packet crate as it stands (stand-ins only for crates that cannot be fetched)."),
"C18": dict(features=["pkt"], harness=[r"space::(rooted|rooted_raw)"], verus=["rspace"], note="Unbounded: check_components, from, fields, depth, components, comp (its table of functions included), comps_bytes, iter, range, last, pre_idx_comp, try_append_component, extend_from_iter, try_from_iter, try_join and Space::try_into_rooted are proved by Verus on the extracted functions: bytes are accepted exactly when the index is that of the segments, every constructor gives exactly that index, and the pointer arithmetic (from_raw_parts, unchecked u8 operations) stays in range. Assumed: pointer casts keep the bytes; from_raw_parts in range is the sub-slice; first, transpose of std. The public functions are also executed on the packet crate."),
"C19": dict(features=["pkt"], harness=[r"point::(build|limits|copies|segments)"], verus=["builder"], note="Unbounded: linkp and every builder (datapoint, linkpoint, keypoint, point, errorpoint and their try forms), PointHeader::new_*, PointParts' segments, padding, fields and hash, NetPktParts::byte_segments, ByteSegments (from_array, push_front, next, write_segments_unchecked), netpktbox_layout, as_netbox, as_netarc, from_header_and_copy and calc_free_space are proved by Verus on the extracted functions: contents are refused exactly above the limits, the bytes written are exactly those of the fields with the offsets, size and padding in the header, writes stay within the memory asked for and fill it, every copy has the same bytes and passes its check; that what starts with these bytes is accepted by the reader (contract of unit point), that any point with these bytes has the same fields, and that equal fields give equal bytes and hash, are lemmas over those contracts. Struct sizes are checked by rustc. Assumed: blake3 and k256 (uninterpreted; a signature made with a key verifies under it), pointer casts of repr(C) structs to their bytes, alloc, Box::from_raw and triomphe's Arc with the layout asked for; contents below 2^62 bytes. Bounded: building, copying and reading are executed on the packet crate."),
"C20": dict(features=["pkt"], harness=[r"point::(read|read_raw)", r"pktk::header"], kani=["pktk::header"], verus=["point"], note="Unbounded: PointHeader's sizes, padding and check, read_pkt, compute_hash, check_signature, internal_consitent_length, parts, data, tail, padding, fixed, signed, links, pkt_segments, Signed::validate, netpktbox_layout and NetPktPtr's check, size and as_netpkt_bytes are proved by Verus on the extracted functions: for every buffer, reading accepts exactly the bytes of a well formed packet (with the exact missing length otherwise), the hash is that of the point bytes, a signature is accepted iff it verifies, every field lies within the packet at its place, and every pointer read stays in range and aligned. The struct layouts used are checked by rustc. Assumed: blake3 and k256 (uninterpreted), the pointer casts between a packet's bytes and its transparent structs. Kani decides the acceptance and size of every point header on the ported crate. Bounded: reading whole packets is executed (random and mangled packets in buffers that end at unreadable memory, against a reference reader)."),
"C21": dict(features=["core"], verus=["route"], harness=[r"point::route", r"pktk::routing", r"mutate::\w+"], kani=["pktk::routing", "mutate::apply"] + ["mutate::rule_" + f for f in ("flags", "hop", "stamp", "ubits0", "ubits1", "ubits2", "ubits3")], note="Kani decides on the ported crates, for every header, flag set, mutation and value: that a header is its bytes and its fields the documented layout, hop, flag changes, options, field selection, that applying a mutation changes exactly the bits it names, and that adding a rule to any mutation gives the field its value and changes no other (by induction over the rules, any sequence). Assumed there: errors are formatted and traced by std (stubs). Unbounded: ReroutePkt, RecvPkt, ShareArcPkt, references and NetPktPtr::reroute are proved by Verus on the extracted functions to stand for the same hash and point bytes with the routing header (or receive stamp) they were given, through byte_segments, as_netbox and as_netarc, nested in any way; that validity and hash do not depend on the routing header is a lemma over the contracts of unit point. Assumed there: std's OnceCell, and the casts named under C19. Bounded: the same is executed on random packets."),
"C22": dict(features=["pkt"], harness=[r"point::tree"], verus=["tree"], note="Proved for every packet (unit tree): the entry computed has exactly the packet's group, domain, depth, space and key as its key and stamp, hash, log place, link count and data size as its value, exactly the points with a space have one, every accessor of key and value gives that field back, a key too short is refused, and comparing packets is comparing group, domain, depth, space, key, stamp (as a number) and hash, in that order, those without a space last by hash - lemmas: the order of concatenated bytes is the order of the parts, spaces of one depth never being prefixes of each other. Assumed: derived comparisons of std, structs of bytes read by pointer are their bytes, what the accessors of a packet give (units point, builder, route), two packets with one hash are one packet. The same contracts are executed on generated packets."),
"C23": dict(features=["core"], harness=[r"pred::(bits|small)", r"predk::bits.*"], kani=["predk::bits", "predk::bits_combine", "predk::bits_rules"], note="Kani decides for every 32 bit set, depth and predicate (any bound, any mask that does not contradict itself): membership, next and smallest member, intersection, combining, shifting, the constant sets, and that the set made from a predicate contains exactly the depths it accepts (which it does exactly when every rule accepts it: C24). Assumed: std's backtrace capture (stub). Bounded: sets made from lists of members are executed. Known finding: depth 8 is not in the set of all depths."),
"C24": dict(features=["core"], harness=[r"pred::(small|wide|uint_ops)", r"predk::(step|next|whole|test|refuse|combine|walk|enumerate|uint_).*"], kani=["predk::" + h for h in ("step8", "step16", "step32", "step64", "step128", "next8", "next32", "next64", "next128", "whole8", "whole16", "whole32", "whole64", "whole128", "test8", "test64", "test128", "refuse8", "refuse64", "combine64", "walk8", "walk64", "enumerate8", "enumerate64", "uint_ab", "uint_b64")], note="Kani decides over every state of a predicate, not only reachable ones: adding a rule keeps exactly what was accepted and what the rule accepts (8 to 128 bit integers; with the empty predicate accepting everything this is the induction over any sequence of rules), the next value of a mask, emptiness, smallest value, membership and next value, test through the reported rules, refusal, combining, one step of each iterator, and every primitive of the 128 bit and 256 bit byte forms against exact arithmetic (shifts of the 256 bit form excepted). The code is generic in those primitives; predicates over the byte forms and 256 bit integers are executed. Assumed: std's error formatting and backtrace capture (stubs). Known findings: masks that contradict each other fail a debug assertion; a second bound below the first is not refused (it accepts nothing)."),
"C25": dict(features=["core"], verus=["dur"], harness=[r"stamps::\w+", r"stampk::\w+"], kani=["stampk::range", "stampk::arith"], note="Kani decides ranges (membership, direction, order, bounds) for every pair of bounds and every stamp, and stamp arithmetic for every stamp and every number of microseconds (std's Duration::as_micros is a stub that gives it). Proved for every text (unit dur): which texts are durations and what they stand for (units in order, each at most once, counts below 2^32; nothing overflows or panics), what a duration prints as, that a duration of whole microseconds within the stamps prints as text that reads back as it, which texts are stamps and ranges (relative to now too), that every printed range reads back whatever now is, that adding and subtracting saturates or is refused exactly when it should be (the unchecked conversions fit), and what every chain of arguments makes of a stamp in the scope functions us, now, epoch. Assumed: std's Duration by its documentation (a number of nanoseconds), numbers as std prints and reads them, the time crate's dates. The same contracts are executed on generated texts."),
"C26": dict(features=["core"], verus=["preds"], harness=[r"preds::\w+", r"ptest::\w+"], kani=["ptest::" + h for h in ("compile8", "compile32", "compile64", "compile128", "places")],
    note="Proved for every predicate set, rule, value and packet (unit preds, on the extracted functions): adding a rule (PktPredicates::and for every field, receive stamp, space prefix and limit, with require, check_space, prefix) keeps exactly the packets that were accepted and meet it, and refuses it only when no packet does both; >=, <=, head and tail masks (try_iter, exact_value, fixed_size, add_one, sub_one, add_ext_predicate) are at least, at most, first and last bytes; the builders (group, domain, key, space, prefix, create_before, from_gd, from_gdp) accept exactly the named packets and the latter two never panic; compile_predicates and the test loops accept exactly what the set accepts; the order of rules makes no difference (lemma). Kani decides for every satisfiable predicate of a field (8 to 128 bits) and every packet value that the test made from it accepts exactly what the rules accept, and that each field read is its documented place in the packet. Assumed in the unit: integer predicates by what they accept (decided by Kani, C24), spaces by their segments (units space, rspace), values read by their types (unit typed), boxed tests and iterators as lists. Limits on the number of results are outside the unit (C27). Bounded: printing and reading back, and whole rule sets executed against an independent oracle."),
"C27": dict(features=["core"], verus=["watch"], harness=[r"watch::\w+"],
    note="Proved for every list of watches, point and behaviour of the callbacks (unit watch, on the extracted functions of matcher/mod.rs): each point given to the matcher is offered once to every watch, in the order of their ids; a watch receives it exactly when its stamp and fields are those asked for and its number among the fitting points is within both limits; it leaves when it says stop, when its limits or its time are past (lemma: it would receive nothing of what follows), and every other watch stays as it was; registering puts a watch in its place, replaces the one of that id and no other, or refuses one whose time is over; closing ends exactly the watch of that id, or exactly those whose id starts with the given prefix, each handed over once; gc drops exactly those whose time is over and gives the least remaining end. Counters stay at their last value rather than starting over. Assumed in the unit: tests by what they accept (unit preds), limits by what they accept (C24), binary search, starts_with; drain, take_while, extract_if and retain are written as the loops they are (declared substitutions). Bounded: whole histories executed against an independent oracle. Outside: the runtime in crates/common that reads the log and calls the matcher (not compiled here)."),
"C28": dict(features=["store"], verus=["save", "scan"], harness=[r"store::\w+"],
    note="Proved for every batch, every content of the tables and every failure of the storage (unit save, on the extracted body of LMDBEnv::save): nothing is ever committed but tables that agree with each other (each log record has its hash entry and, if it has a place, its tree entry; there is nothing else in either) and that only grew, by points under stamps later than all there were; a successful save has written exactly the points of the batch that were not there, each under its own stamp of the returned range, in order, and the states say which; a save that has nothing to write commits nothing. ASSUMED: LMDB's transactions (a write transaction sees the committed tables and its own changes; commit makes all appear at once or fails; a dropped one leaves nothing), its put, append and last operations, and that stamps are far from the end of the range. The raw copy of a point's bytes into the reserved record (unsafe) is a contract here and is exercised in the native histories. Proved for every ordered tree table and every request (unit scan, on the extracted bodies of ReadTxn::scope_iter, the functions of TreeKeysIter, IterDup's steps, TreeKeys::lower_bound, compile_tree_keys and StampRange's comparisons): the first position and every next one are the first from there on whose group, domain, depth, space, key and create stamp the rules accept, no jump skips one or goes back (so the iteration ends), without panic; a theorem over those contracts: going on gives exactly the positions the rules accept, once each, in the order of the tree, oldest or newest first under each key. ASSUMED there: LMDB's cursor operations; the next value of a predicate is exact and its bounds enclose what it accepts (C23, C24); the accessors of an entry (unit tree); no point has a public key of all ones. The rest of reading back - the log and hash tables, rules off the tree, limits - is BOUNDED, by native histories over the real core crate with an in-memory stand-in of LMDB that can fail at any call: after each save, by old snapshots, refreshed ones and new ones, the log, hash table and tree hold exactly what was saved; and every query over log, hash table (ascending) or tree, with drawn rules and limits, gives exactly the points an independent oracle accepts, in order.")
}
