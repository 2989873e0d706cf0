import json
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    return d
BS=["llvm-bitstream/src/parser.rs","llvm-bitstream/src/abbrev.rs","llvm-bitstream/src/lib.rs","llvm-bitcursor/src/lib.rs"]
MP=["llvm-mapper/src/unroll.rs","llvm-mapper/src/map.rs","llvm-mapper/src/block/mod.rs","llvm-mapper/src/block/module.rs","llvm-mapper/src/block/type_table.rs","llvm-mapper/src/block/attributes.rs","llvm-mapper/src/block/function/mod.rs","llvm-mapper/src/block/identification.rs","llvm-mapper/src/block/strtab.rs","llvm-mapper/src/block/symtab.rs","llvm-mapper/src/record/function.rs","llvm-mapper/src/record/alias.rs","llvm-mapper/src/record/comdat.rs"]
L=[]
L.append(P("C01","Damaged storage never crashes the bitstream decoder",
 "Decoding a bitstream held in storage that was torn, bit-rotted, overwritten, reordered, slipped by some bits, or that changes underneath the reader, always ends in ordinary values: entries, errors, or the end of the stream. It never panics, overflows (arithmetic or stack), aborts the process or reads outside the storage, whether or not debug logging is on and also when the caller keeps asking for entries after errors.",
 ["fault_sequences","inputs","crash_points"],"every byte sequence reached by damaging a written stream at any place, including damage between two reads of one decode, raw or wrapped container, any log level",
 "The tests parse a few well-formed byte strings; none damages a stream, so no failing branch of the abbreviation, VBR, blob or block-entry code is run.",
 BS,[("bounds-checked block loads and short reads","llvm-bitcursor/src/lib.rs: load_current_block, read, read_vbr, align32"),("every malformed item is an error","llvm-bitstream/src/parser.rs: enter_block, exit_block, parse_unabbrev, parse_with_abbrev; llvm-bitstream/src/abbrev.rs")],
 [("scopes","open block scopes with their abbreviation width and abbreviations","llvm-bitstream/src/parser.rs"),("blockinfo","abbreviations registered for later blocks","llvm-bitstream/src/parser.rs"),("current_block/bit_index","unread part of the last loaded word","llvm-bitcursor/src/lib.rs")],
 ["Bitstream::{from,from_raw,from_wrapped,advance,next}"]))
L.append(P("C02","Damaged bitcode never crashes the module mapper",
 "Mapping a bitcode file into modules always ends in modules or in an error, however the stored bytes or the block and record structure were damaged: lost, repeated, reordered, shortened or altered blocks, records and fields, and nesting of any depth, in blocks and in types. It never panics, overflows (arithmetic or stack) or aborts the process.",
 ["fault_sequences","inputs"],"every file obtained from a written multi-module bitcode file by any combination of byte-level damage and of loss, duplication, reordering or alteration of blocks, records and fields",
 "The tests map no bitcode file at all: only single helper functions are sampled, so the interplay of records, tables and references under loss is never run.",
 MP,[("every mapping step returns an error for missing or malformed parts","llvm-mapper/src/block/*.rs, llvm-mapper/src/record/*.rs"),("bounded recursion","llvm-mapper/src/unroll.rs: enter_block; llvm-mapper/src/block/type_table.rs")],
 [("PartialMapCtx","tables gathered while mapping a module","llvm-mapper/src/map.rs")],["Bitcode::try_from"]))
L.append(P("C03","Decoding a damaged stream ends in a bounded number of steps",
 "From any stored bytes, with any damage, a caller that keeps asking for the next entry, past every error, sees the end of the stream within a number of requests proportional to the number of stored bits, and mapping the file to modules ends too. Every request, also one that fails, does bounded work: the number of storage reads of a whole decode is proportional to the stored size, and no claimed length or count makes it wait or spin.",
 ["fault_sequences","inputs"],"every damaged stream, and every caller that retries after errors; bound: a fixed linear function of the stored size",
 "Progress is a liveness statement over all damaged streams and retry histories; the tests decode a handful of intact strings and stop at the first error.",
 BS+["llvm-mapper/src/unroll.rs"],[("every item consumes at least its abbreviation ID, reads stop at the end","llvm-bitstream/src/parser.rs: advance; llvm-bitcursor/src/lib.rs: load_current_block")],None,["Bitstream::advance","reads of the storage object handed to the decoder"]))
L.append(P("C04","Claimed lengths and counts never decide how much memory is used",
 "The memory a decode or mapping holds at any moment is bounded by a fixed multiple of the bytes actually stored plus the record fields actually decoded from them, whatever the length, count, size and width fields found in a damaged file claim. A few altered bytes cannot make the process allocate more than that.",
 ["fault_sequences","inputs"],"every written file in which any subset of length, count, width and size fields was replaced by any value, or which was damaged at the byte level",
 "The worst claims are 64-bit values in any of thousands of fields; the tests never put a false length into a stream, nor observe memory.",
 ["llvm-bitstream/src/parser.rs","llvm-bitstream/src/abbrev.rs","llvm-mapper/src/block/type_table.rs","llvm-mapper/src/unroll.rs","llvm-mapper/src/block/strtab.rs"],
 [("vectors grow with what was read, not with what was claimed","llvm-bitstream/src/parser.rs: parse_unabbrev; llvm-bitstream/src/abbrev.rs: array, blob; llvm-mapper/src/block/type_table.rs")],None,["the process's allocator"]))
L.append(P("C05","A torn stream decodes to an exact prefix of what was written",
 "When only the first bytes of a written bitstream survive, decoding yields exactly the entries (blocks, block ends, records with code, abbreviation and every field) that were completely stored, in order, equal to what was written, and nothing else. Decoding then ends cleanly if the tear falls between two items and with an error if it falls inside one; a tear that leaves a length which is no multiple of four bytes may be refused as a whole.",
 ["crash_points","inputs","histories"],"every well-formed stream a writer can emit (all abbreviation encodings, block information, nesting, widths, alignments) and every byte position at which its storage can be torn, including no tear",
 "Every combination of encodings, bit alignment against 64-bit loads, and tear position matters; the tests parse one fixed string of a few records, untorn.",
 BS,[("short reads are errors, never partial values","llvm-bitcursor/src/lib.rs: read, load_current_block"),("records are delivered only when complete","llvm-bitstream/src/parser.rs, llvm-bitstream/src/abbrev.rs")],
 [("abbrevs","abbreviations in force in the current block","llvm-bitstream/src/parser.rs"),("blockinfo","abbreviations registered for later blocks","llvm-bitstream/src/parser.rs")],["entries returned by Bitstream::advance / next"]))
L.append(P("C06","A torn bitcode file yields only whole modules, exactly as written",
 "Mapping an intact file returns every module that was written with its producer, epoch, target triple, inline assembly, dependent libraries, string table and symbol table equal to what was written. Mapping a file of which only a prefix survived returns either exactly the modules whose parts all survived, with the same contents, or an error, and the outcome depends only on which top-level blocks survived completely; it is an error whenever the tear leaves a module without a part it needs or falls inside a block (other than a block-information block).",
 ["crash_points","inputs"],"every multi-module file a writer can emit (any encoding of its records) and every tear position",
 "No test maps a file. The statement ranges over all module contents, all encodings and all crash points.",
 MP+BS,[("blocks are unrolled only up to their end","llvm-mapper/src/unroll.rs: enter_block"),("modules are built only from complete parts","llvm-mapper/src/unroll.rs: PartialBitcodeModule::reify")],None,["Bitcode::try_from, BitcodeModule's public fields"]))
L.append(P("C07","Blocks stay balanced through damage and error recovery",
 "In every sequence of entries a decoder hands out, also when the caller continues after errors, a block end is delivered only for a block whose beginning was delivered and not yet ended, innermost first, and records are delivered only while at least one delivered block is open. The parser's own structures (abbreviation definitions and the block-information block) are never delivered as entries.",
 ["fault_sequences","histories"],"every damaged stream and every history of requests that continues past errors to the end of the stream",
 "It must hold across arbitrary error recoveries; the tests never continue after an error.",
 ["llvm-bitstream/src/parser.rs"],[("scope stack with a synthetic bottom scope that is never popped","llvm-bitstream/src/parser.rs: enter_block, exit_block"),("records are refused outside blocks","llvm-bitstream/src/parser.rs: parse_unabbrev, get_abbrev")],
 [("scopes","open scopes","llvm-bitstream/src/parser.rs")],["entries returned by Bitstream::advance"]))
L.append(P("C08","The bit cursor behaves as a plain array of bits in every history",
 "For every interleaving of reads of any width, typed reads, fixed- and variable-width integer reads, alignments, seeks by bit and by byte (from start, end or current position) and position queries, over any buffer and any declared length up to it, each result equals that of a trivial model: an array of bits, least significant bit of the first byte first, and a position. An operation that fails returns an error (never a wrong value) and leaves a usable position inside the stream, from which later operations again agree with the model; a failed byte seek leaves the position unchanged.",
 ["histories","inputs","crash_points"],"every buffer, declared length and operation history, including operations that hit the end of the data in the middle",
 "State (a half-consumed 64-bit word) couples operations, so errors appear only for particular orders of operations and offsets; the tests try single operations from fresh cursors.",
 ["llvm-bitcursor/src/lib.rs"],[("load/refill of a 64-bit word and its invalidation on seeks","llvm-bitcursor/src/lib.rs: load_current_block, clear_block_state, seek_bit, align32, Seek")],
 [("byte_pos","next byte to load","llvm-bitcursor/src/lib.rs"),("current_block, bit_index","loaded bits not yet consumed","llvm-bitcursor/src/lib.rs")],["BitCursor's public methods and its io::Seek implementation"]))
L.append(P("C09","Interleaved, cancelled and concurrent decodes do not affect each other",
 "The outcome of decoding or mapping an input is a function of that input alone: it is the same alone in a fresh process, after any number of other decodes, after decodes abandoned halfway or torn down by a panic in the storage, interleaved step by step with others in one thread, and concurrently with others in several threads under every schedule. It does not depend on hash seeds, memory addresses or the log level.",
 ["schedules","histories","crash_points"],"every set of inputs and every schedule of their steps (entry requests and storage reads), including cancellation of any of them at any step",
 "The tests run each parse alone; isolation is about all interleavings and cancellation points.",
 ["llvm-bitstream/src/parser.rs","llvm-bitstream/src/lib.rs","llvm-mapper/src/unroll.rs","llvm-mapper/src/map.rs","llvm-bitcursor/src/lib.rs"],
 [("all parse state is owned by the parser value; mapping context is created per module","llvm-bitstream/src/parser.rs: StreamParser; llvm-mapper/src/unroll.rs: PartialMapCtx::default()")],None,["Bitstream::advance","Bitcode::try_from"]))
L.append(P("C10","Bytes outside the declared window never influence a decode",
 "When a bitstream is embedded in a larger buffer, by the wrapper's offset and size fields or by the length given to a cursor, its decode equals that of the same window alone, at every four-byte-aligned offset past the header. No byte before the window's start (other than the header itself), or at or after its end, can change any entry, value, error or position, or be handed out; a window that does not fit into the stored bytes is refused.",
 ["fault_sequences","inputs"],"every embedded stream, offset, size, padding contents, trailing garbage, header fields (version, CPU type) and truncation of the container",
 "The tests contain no wrapped stream with a body, and cursors with a shortened length are only constructed, not read to their end.",
 ["llvm-bitstream/src/lib.rs","llvm-bitcursor/src/lib.rs"],[("declared length bounds every load","llvm-bitcursor/src/lib.rs: new_with_len, load_current_block, align32"),("offset + size end the window","llvm-bitstream/src/lib.rs: from_wrapped")],None,["Bitstream::from, from_wrapped","BitCursor::new_with_len"]))
L.append(P("C11","Modules get the right companions when top-level blocks move or vanish",
 "However top-level blocks of a multi-module file are lost, repeated or reordered, every module returned carries the identification that immediately opens its group, its own module block, and the first string table and first symbol table (if any) that follow its group and were not preceded by one for it. Sequences that cannot be paired this way (a module block without an identification or with two modules for one, an identification without a module block or without a string table, an unknown top-level block) are refused as a whole.",
 ["fault_sequences","histories"],"every sequence of complete top-level blocks obtained by losing, repeating and reordering those of written files, with distinguishable contents",
 "The pairing is a small protocol over sequences of blocks; the tests contain no multi-module stream.",
 ["llvm-mapper/src/unroll.rs"],[("partial modules, filled from the last identification; tables assigned backwards to modules lacking one","llvm-mapper/src/unroll.rs: Bitcode::try_from")],
 [("partial_modules","modules under construction, in order","llvm-mapper/src/unroll.rs")],["Bitcode::try_from"]))
L.append(P("C12","Entries accepted from a damaged stream mean what the format says",
 "For a stream damaged in any way, every entry delivered before the first error is exactly what the bitstream format assigns to those bits (block ids, lengths, record codes, abbreviation ids, all 64-bit fields), with none missing and none invented, and the first item that the format makes meaningless or that cannot be represented is reported as an error, not skipped or guessed. Abbreviations of a block-information block apply to the blocks entered after it until the next block-information block, which replaces it, as in LLVM. An abbreviation operand of width zero is a literal zero, as in LLVM. Where the format leaves a construct undefined (such as array elements of width zero, nested blocks or abbreviated block selections in a block-information block) nothing is demanded from that point on.",
 ["fault_sequences","inputs"],"every damaged or hostile stream, compared item by item with an independent decoder written from the format's documentation",
 "Silent misreading appears only for unusual widths, values, positions and definition orders reached through damage; the tests use one intact stream.",
 BS+["llvm-support/src/bitcodes.rs"],[("item decoding","llvm-bitstream/src/parser.rs, llvm-bitstream/src/abbrev.rs"),("bit reads","llvm-bitcursor/src/lib.rs: read, read_vbr, align32")],None,["entries and errors returned by Bitstream::advance"]))
L.append(P("C13","Modules with lost, duplicated or dangling parts are refused",
 "A module that lost a required part (version, type table, value symbol table, string table, identification, producer, epoch), has two of a part that must be unique, whose type table's announced size does not match its entries, or in which a reference (to a type, attribute group, string table range, section or collector name) points at something that is not there, or which lost a field that a record needs, in which a string, width, alignment or enumeration field has no meaning, whose type table builds a type from types it cannot be built from, or has an opaque type that lost its name, is refused with an error. A module that only lost optional records, or gained ones that readers are to ignore, is still accepted, with the values of its surviving records.",
 ["fault_sequences","inputs"],"every written module and every set of losses, duplications, reorderings and field alterations of its blocks and records",
 "The tests map no module; the statement is about every combination of losses across interdependent tables.",
 MP,[("uniqueness and presence checks","llvm-mapper/src/unroll.rs: exactly_one, one_or_none; llvm-mapper/src/block/module.rs"),("reference checks","llvm-mapper/src/block/type_table.rs, attributes.rs, llvm-mapper/src/record/function.rs, alias.rs, comdat.rs")],None,["Bitcode::try_from"]))
L.append(P("C14","String table lookups are exact or refused, for every reference",
 "For every string table recovered from an intact, damaged or truncated file and every reference (offset and non-zero size), a lookup returns exactly the referenced bytes of the stored blob as text if they lie inside it and are valid UTF-8, and otherwise reports their absence or an error. It never panics, wraps around, clips a reference or returns text of neighbouring symbols.",
 ["inputs","fault_sequences"],"every stored table, damage to it, and every pair of offset and size including extreme ones, in any order of lookups",
 "The tests look up a few fixed references in one fixed table.",
 ["llvm-mapper/src/block/strtab.rs"],[("range-checked slice, UTF-8 check","llvm-mapper/src/block/strtab.rs: get, try_get")],None,["Strtab::get, Strtab::try_get, AsRef<[u8]>"]))
NA="The tests sample a handful of values of a large input space."
L.append(P("C15","Datalayout strings are mapped faithfully or refused",
 "Every datalayout specification string is either mapped to exactly the endianness, mangling, alignments, address spaces and integer widths it states, with unmentioned ones at their defaults, or refused.",
 ["inputs"],"every string",NA,["llvm-mapper/src/record/datalayout.rs"],[("FromStr","llvm-mapper/src/record/datalayout.rs")]))
L.append(P("C16","Alignment values and their conversions are exact",
 "Alignments are powers of two within the documented range, and conversions between encodings, bit and byte sizes, and the per-type alignment tables, are exact or refused.",
 ["inputs"],"every alignment, shift and table operation",NA,["llvm-support/src/align.rs"],[("constructors and spec tables","llvm-support/src/align.rs")]))
L.append(P("C17","Type constructors admit exactly the valid types",
 "Constructing a pointer, array, vector, struct, function or integer type succeeds exactly when the language reference permits its components and sizes.",
 ["inputs"],"every combination of component types and sizes",NA,["llvm-support/src/ty.rs"],[("new constructors and is_* predicates","llvm-support/src/ty.rs")]))
L.append(P("C18","Numeric codes are classified as the format defines them",
 "Every numeric code for linkage, visibility, calling convention, attribute, opcode, cast, block and record maps to the one meaning the format gives it, and unassigned codes are refused.",
 ["inputs"],"every 64-bit code",NA,["llvm-support/src/bitcodes.rs","llvm-support/src/opcode.rs","llvm-support/src/attribute.rs","llvm-support/src/lib.rs","llvm-constants/src/enums.rs"],[("TryFromPrimitive tables","llvm-support/src/*.rs")]))
L.append(P("C19","What mapping makes of a module's records is what they say",
 "When mapping accepts a module, from an intact file or from one whose stored records were altered, lost or repeated, everything it maps the module's records to equals what the surviving records say: version, data layout (endianness, mangling, alignments of types, pointers and functions, address spaces, integer widths, with LLVM's defaults for whatever is not mentioned), every type of the type table with all its components, attribute groups and lists with all their attributes, values and positions, section and collector names, comdats, and every function and alias with its name, type, calling convention, linkage, attributes, alignment, section, visibility, collector and the other properties its record states, with the documented defaults for fields that are absent. Nothing is shifted to a neighbour, dropped, invented or left over from another record or module. It is observed through what mapping reports of each module (the mapped context, the functions and the aliases) to the log facade at debug level.",
 ["inputs","fault_sequences"],"every written module and every alteration, loss and repetition of its records and of the bytes they are stored in",
 "The tests map no module; each value depends on several tables that refer to each other, and on which optional records and fields survived.",
 ["llvm-mapper/src/block/module.rs","llvm-mapper/src/block/type_table.rs","llvm-mapper/src/block/attributes.rs","llvm-mapper/src/record","llvm-mapper/src/map.rs","llvm-support/src"],[("mapped context, functions, aliases","llvm-mapper/src/block/module.rs, llvm-mapper/src/map.rs: PartialMapCtx"),("record mapping","llvm-mapper/src/record/function.rs, alias.rs, comdat.rs, datalayout.rs; llvm-mapper/src/block/type_table.rs, attributes.rs"),("meanings of codes and alignments","llvm-support/src/lib.rs, attribute.rs, align.rs, ty.rs")],None,["Bitcode::try_from","log facade, debug level"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in L))
