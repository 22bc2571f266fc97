#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after an edit; not part of any check)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ENC="pkg/abi/encode.go"; DEC="pkg/abi/decode.go"; CENC="pkg/chain/encoding.go"; ABI="pkg/chain/abi.go"
CH="pkg/chain/"

p("C01","Encoding emits exactly the EOSIO binary layout",
  "For every value of every supported built-in and chain type (bool, fixed-width and variable-length integers, floats, strings, byte blobs, names, symbols, assets, checksums, 128-bit numbers, keys, signatures, timestamps, permission levels, actions, transactions and ABI definitions) encoding emits exactly the canonical EOSIO bytes: little-endian fixed widths, LEB128 varuint32 and zig-zag varint32 over the full 32-bit range, and length-prefixed strings, blobs and lists in declaration order. Integers outside the 32-bit varint range are refused with an error. The bytes are the same whether the value is passed directly or through a pointer, and whether the chain-aware or the plain generic encoder is used.",
  ["inputs"],"all values of all supported types, all value/pointer and encoder combinations",
  "The tests encode one to three literals per type, all with single-byte length prefixes and small varints; boundary widths (2^7, 2^14, 2^21, 2^28, 2^32-1), long payloads and most of the encoder combinations are never reached.",
  [ENC,CENC]+[CH+f for f in ("name.go","asset.go","symbol.go","checksum.go","numbers.go","time.go","public_key.go","signature.go","action.go","transaction.go","bytes.go","blob.go")],
  [("typed writers","pkg/abi/encode.go Write*"),("fast-path dispatch","pkg/chain/encoding.go chainEncoder"),("MarshalABI methods","pkg/chain/*.go")],
  ["bytes passed to the io.Writer given to chain.NewEncoder / abi.NewEncoder","error returned by Encode"])

p("C02","Binary round trip is lossless and consumes exactly the encoding",
  "Decoding the encoding of any value of any supported built-in or chain type yields an equal value and consumes exactly the bytes that were written, leaving any following data in the stream unread. Re-encoding a value decoded from canonical bytes reproduces those bytes.",
  ["inputs"],"all values of all supported types; any data following the value in the stream",
  "Tests round-trip a handful of literals and never look at what is left in the reader.",
  [DEC,ENC,CENC]+[CH+f for f in ("public_key.go","signature.go","action.go","transaction.go","numbers.go")],
  [("typed readers","pkg/abi/decode.go Read*"),("UnmarshalABI methods","pkg/chain/*.go")],
  ["value after Decode","bytes left in the reader","bytes from re-encoding"])

p("C03","User-defined Go types encode and decode by their declared structure",
  "Any Go type built from supported types with structs, slices, fixed arrays, maps, pointers, optional, variant and extension field tags is written as the EOSIO layout of that structure: fields in order, varuint32 counts for slices and maps, bare elements for arrays, a presence byte for optionals, an alternative index for variants. Decoding those bytes into a fresh value of the type yields an equal value and consumes exactly those bytes. A nil pointer in a non-optional position is refused with an error instead of panicking, and so is decoding into a struct, list or map that was not passed as a non-nil pointer.",
  ["programs","inputs"],"all user type shapes composed from the supported constructors, all values of each",
  "Tests use about ten fixed struct types; nesting combinations of tags, pointers and containers form an unbounded type space.",
  [ENC,DEC],[("reflection encoder","pkg/abi/encode.go EncodeValue"),("reflection decoder","pkg/abi/decode.go DecodeValue, DecodeVariant, indirect")],
  ["bytes written for generated types","decoded value"])

p("C04","ABI-driven encoding and decoding follow the schema exactly",
  "For every well-formed ABI (type aliases, structs with inherited fields, empty structs, variants, optional, array and trailing binary-extension modifiers, names of any length) and every conforming value, ABI-driven encoding produces the EOSIO bytes of that schema, with base-struct fields first. ABI-driven decoding of those bytes returns an equal value in the library's dynamic representation (maps, lists, [type name, value] pairs for variants, native and chain types for builtins), and that result can be encoded again to the same bytes. Encoding or decoding by action name gives the same result as using the type declared for that action, and looking up an action, table, struct, alias or variant by name returns its definition or nothing, all according to what the definition says at the time of the call, also after it was edited.",
  ["programs","inputs"],"all well-formed ABIs, all conforming values",
  "One ABI with one value is tested; aliases, optionals, extensions, multi-level inheritance, nested arrays, empty structs and most builtin types are never exercised.",
  [ABI,CH+"action.go"],[("type resolution","pkg/chain/abi.go resolver.resolve, allFields"),("dynamic encoder/decoder","pkg/chain/abi.go encodeType/encodeInner, decodeType/decodeInner")],
  ["bytes from Abi.Encode/EncodeAction","values from Abi.Decode/DecodeAction/Action.Decode"])

p("C05","Decoding hostile bytes is safe and bounded",
  "Decoding any byte string whatsoever into any supported target (built-in and chain types, user-defined types including recursive ones, or a well-formed ABI type) returns a value or an error: it never panics, crashes the process or runs forever. The memory it allocates is bounded by a constant plus a constant factor of the bytes actually supplied, never by lengths or counts merely claimed in the data. A value that was decoded successfully can be rendered as text and JSON without panicking.",
  ["inputs"],"all byte strings, all decode targets",
  "No test feeds malformed, oversized-length or deeply nested data to any binary decoder.",
  [DEC,ABI]+[CH+f for f in ("transaction.go","action.go","public_key.go","signature.go","asset.go","symbol.go")],
  [("length handling","pkg/abi/decode.go ReadBytes, ReadVaruint, DecodeValue"),("count handling","pkg/chain/transaction.go, action.go, abi.go decodeType")],
  ["panics","process exit","bytes allocated during the call","reads issued after end of data"])

p("C06","Malformed ABI definitions fail cleanly",
  "For any ABI definition at all, including ones with cyclic aliases, cyclic inheritance, self-containing structs, dangling or empty type names and odd modifier suffixes, ABI-driven encoding and decoding of any type name and any data return a result or an error. They never panic, overflow the stack or recurse forever, and a type that cannot be resolved is always reported as an error.",
  ["programs","inputs"],"all ABI definitions, type names, byte strings and values",
  "The single tested ABI is well formed.",
  [ABI],[("type resolution","pkg/chain/abi.go resolver.resolve"),("cycle handling","pkg/chain/abi.go allFields, decodeType, encodeType")],
  ["panics and process exit","error returned"])

p("C07","Truncated data is never accepted",
  "For every encoding of every supported type, decoding any strict prefix of it, or the same data with a length or count that claims more than is there, reports an error, whether through typed, user-defined or ABI-driven decoding. The only exception is data that ends exactly where a trailing binary extension would begin, which decodes with that extension absent; data that ends inside an extension is an error.",
  ["inputs"],"all values, all cut positions",
  "No test decodes truncated data, and the extension rule is only exercised with complete data.",
  [DEC,ABI,CH+"action.go",CH+"public_key.go",CH+"signature.go",CH+"transaction.go"],
  [("io.ReadFull","pkg/abi/decode.go ReadBytes"),("extension handling","pkg/abi/decode.go DecodeValue, pkg/chain/abi.go decodeType")],
  ["error returned for each prefix"])

p("C08","Results do not depend on how the stream delivers or follows bytes",
  "Decoding gives the same value or failure for every way a reader may fragment the same bytes (single bytes, arbitrary short reads, empty reads, the last bytes delivered together with end-of-file). The decoder never reads past the value it decodes, so values written back to back on one stream decode back to back, with one decoder or a new one for each value. Encoding several values to one writer yields the concatenation of their encodings.",
  ["inputs","schedules"],"all values and value sequences, all reader fragmentations",
  "All tests use one in-memory reader holding exactly one value.",
  [DEC,ENC,ABI],[("exact reads","pkg/abi/decode.go ReadBytes via io.ReadFull")],
  ["Read calls and sizes at the reader","bytes consumed per value","decoded values"])

p("C09","I/O failures always surface as errors",
  "If the underlying writer fails at any point while a value is being encoded, or the underlying reader fails at any point while a value is being decoded, the call returns a non-nil error, even when the failure is transient and later operations on the same stream succeed. This holds for typed, user-defined and ABI-driven encoding and decoding. A writer or reader that does not fail never causes an error for a valid value, and a failed call leaves nothing behind: later calls on the same encoder or decoder work as on a new one.",
  ["fault_sequences","inputs"],"every write call and every read position of every encode/decode, transient and permanent faults",
  "Tests only use in-memory buffers that cannot fail.",
  [ENC,DEC,ABI,CH+"action.go",CH+"transaction.go"],[("error returns","every Write*/Read* call site")],
  ["faults injected at the io.Writer/io.Reader","error returned by the top-level call"])

p("C10","Decoding into a used value equals decoding into a fresh one",
  "Decoding into a variable that already holds any earlier value of its type gives the same result as decoding into a zero value, for chain types and user-defined types alike. Nothing of the earlier value survives: list entries, map entries, optionals, variant alternatives, extensions and authorizations are all replaced.",
  ["histories"],"all sequences of decodes into one variable, all types",
  "One struct type is reused three times; chain composites, variants, extensions and nested containers are not.",
  [DEC,CH+"action.go",CH+"transaction.go",CH+"public_key.go",CH+"signature.go"],
  [("slice/map/optional reset","pkg/abi/decode.go DecodeValue, DecodeVariant"),("UnmarshalABI resets","pkg/chain/*.go")],
  ["value after each decode in a history"])

p("C11","Caller data is neither modified nor aliased",
  "Encoding, decoding, text conversion and hashing never modify the data handed to them: values being encoded, input buffers, text and JSON being parsed, and messages being hashed are byte-for-byte unchanged afterwards. Results never share memory with an input buffer or with another result: overwriting the input, or decoding into another variable, parsing or encoding something else afterwards, does not change a value obtained earlier (for chain types other than ABI definitions also when the earlier value was copied out and the same variable is decoded into again).",
  ["inputs","histories"],"all operations, all inputs, all later operations",
  "Tests never look at inputs after a call, nor at earlier results after later calls.",
  [DEC,CH+"blob.go",CH+"bytes.go","pkg/base58/base58check.go","pkg/ripemd160/ripemd160.go"],
  [("fresh buffers","pkg/abi/decode.go ReadBytes"),("copies on parse","pkg/chain/blob.go UnmarshalText, pkg/base58/base58check.go")],
  ["snapshots of inputs and of earlier results"])

p("C12","Encoding and digests are deterministic functions of the value",
  "Encoding equal values always yields identical bytes, in every call and every process; map entries are written in ascending key order (arrays and structs as keys element by element, field by field). An action's digest is the SHA-256 of its canonical encoding, so equal actions have equal digests and any difference in account, name, authorization or data changes the digest.",
  ["inputs","histories"],"all values including maps of any size, repeated calls",
  "Map encoding is only tested through a decode that ignores order; digests are not tested at all.",
  [ENC,CH+"action.go"],[("map traversal","pkg/abi/encode.go EncodeValue"),("digest","pkg/chain/action.go Digest")],
  ["bytes of repeated encodings","digests"])

p("C13","Concurrent use is race-free and equals sequential use",
  "Any number of goroutines may encode, decode, parse, format and hash at the same time, each with its own stream, while sharing ABI definitions and the values being encoded. No data race occurs, and every call returns exactly what it returns when run alone.",
  ["schedules"],"all interleavings of calls on shared ABI definitions and shared read-only values",
  "No test starts a second goroutine.",
  [ABI,CENC,DEC,ENC,"pkg/base58/base58.go","pkg/ripemd160/ripemd160.go"],
  [("no shared mutable state","per-call resolver in pkg/chain/abi.go; read-only tables in pkg/base58, pkg/ripemd160, pkg/chain/name.go")],
  ["race detector reports","results compared with a sequential run"],
  [("bigRadix, bigRadix10","shared big integers used as read-only operands","pkg/base58/base58.go")])

p("C14","Names convert losslessly between text and 64-bit form",
  "Every 64-bit name value has exactly one text form, using only a-z, 1-5 and dots with at most 13 characters and no trailing dot, and parsing that text gives the same 64-bit value back. Every valid name text (up to 12 characters from a-z, 1-5 and dot, plus an optional 13th limited to a-j, 1-5 and dot, not ending in a dot) converts to the EOSIO name encoding and back to itself, and numeric order of names equals the EOSIO base-32 order of their texts. JSON and text marshalling use the same form.",
  ["inputs"],"all 2^64 values, all valid name strings",
  "The tests check six strings; the fuzz target only checks the output alphabet, not the value.",
  [CH+"name.go"],[("base-32 conversion","pkg/chain/name.go stringToName, nameToString")],
  ["Name values and their text"])

p("C15","Asset and symbol text is exact",
  "Every asset (any 64-bit amount including the minimum, precision 0-18, symbol of one to seven capital letters) prints as the exact decimal amount with exactly precision fractional digits and the symbol, and parsing that text returns the same amount and symbol; JSON and float views agree with it. Asset and symbol texts that are malformed, exceed 64 bits, have more than 18 decimals, or contain invalid symbol characters are rejected with an error. Symbols and symbol codes convert between text and their packed 64-bit form without loss.",
  ["inputs"],"all amounts, precisions and symbols; all texts",
  "About ten literals are tested; extremes of amount and precision are not, and the fuzz target compares floats only.",
  [CH+"asset.go",CH+"symbol.go"],[("decimal formatting","pkg/chain/asset.go String, NewAssetFromString"),("symbol packing","pkg/chain/symbol.go rawSymbolValue, Name")],
  ["strings, packed values, errors"])

p("C16","Key and signature text is checksummed, typed and interoperable",
  "Every public key and signature (K1, R1 and WebAuthn) prints as the standard PUB_/SIG_ text with the type-bound checksum, and parsing that text returns the same type and data; K1 public keys, and no others, also print and parse in the legacy prefixed form used by EOSIO chains. A text whose payload, checksum, type or length has been altered is rejected with an error rather than yielding a different key or signature, and binary data of an unknown key type is refused likewise. JSON marshalling uses the same text for values and pointers alike.",
  ["inputs"],"all keys and signatures of all types; all corruptions of their text",
  "Two keys and two signatures are round-tripped; no corrupted, legacy or R1 text is tested.",
  [CH+"public_key.go",CH+"signature.go",CH+"key_type.go","pkg/base58/base58check.go"],
  [("checksum","pkg/base58/base58check.go checksumEosio"),("type dispatch","pkg/chain/key_type.go, public_key.go, signature.go")],
  ["text produced","values and errors from parsing"])

p("C17","Large-number conversions are exact and range-checked",
  "128-bit signed and unsigned integers convert exactly between decimal text, big integers, halves and byte forms over their entire range, and decimal texts outside the range or not integers are rejected with an error. 64-bit and block-number JSON uses a plain number up to 32 bits and a quoted decimal above, parses back from either form to the same value, and rejects out-of-range input.",
  ["inputs"],"all 128-bit, 64-bit and 32-bit values; all numeric texts",
  "Ten literals are tested; the signed minimum, range edges and invalid texts are not.",
  [CH+"numbers.go"],[("two's complement conversion","pkg/chain/numbers.go NewInt128, BigInt"),("JSON helpers","pkg/chain/numbers.go readUintJSON, writeUintJSON")],
  ["values, text, JSON, errors"])

p("C18","Timestamps convert exactly, in UTC, whatever the local zone",
  "Microsecond time points, second time points and half-second block timestamps convert to and from Go times and ISO text exactly at their own resolution (block timestamps round to the nearest half second since 2000-01-01T00:00:00Z), with or without a trailing Z in parsed text. Text is always UTC: results do not depend on the process time zone or on the location of the Go time supplied. Text that is malformed, or that denotes an instant a 32-bit type cannot represent, is rejected with an error.",
  ["inputs","configurations"],"all representable instants, all Go time locations, all process time zones, all texts",
  "Ten literals in one time zone are tested.",
  [CH+"time.go"],[("conversion","pkg/chain/time.go New*, Time, String")],
  ["integer values, strings, errors"])

p("C19","Hex and base64 text forms are exact and reject malformed input",
  "Byte strings (hex), blobs (base64, with missing or short padding also accepted when parsing), checksums and 128-bit floats (fixed-length hex) print exactly their bytes as text and JSON and parse back to the same bytes. Malformed text - a bad character, odd hex length, or a length that does not match a fixed-size type - is always reported as an error and never yields a silently truncated, padded or empty value.",
  ["inputs"],"all byte contents; all texts",
  "One literal per type is tested and no malformed text.",
  [CH+"bytes.go",CH+"blob.go",CH+"checksum.go",CH+"numbers.go"],
  [("hex/base64 parsing","UnmarshalText methods")],["text, values, errors"])

p("C20","Parsing arbitrary text never panics",
  "Every text and JSON parser in the library (names, assets, symbols, keys, signatures, checksums, hex, base64, numbers, times, base58, actions, transactions and ABI definitions) returns a value or an error for any input bytes, including invalid UTF-8, control characters and any length. Text accepted by a parser yields a value whose own text parses back to an equal value.",
  ["inputs"],"all byte strings as text or JSON for every parser",
  "Only names and assets have a fuzz target, run on a few fixed strings in the test suite.",
  [CH+f for f in ("name.go","asset.go","symbol.go","public_key.go","signature.go","checksum.go","bytes.go","blob.go","numbers.go","time.go")]+["pkg/base58/base58.go"],
  [("input validation","New*FromString and UnmarshalText/UnmarshalJSON methods")],["panics","values and their text"])

p("C21","Base58 and base58check are exact inverses and detect corruption",
  "Base58 encoding of any bytes, including any number of leading zero bytes, gives the standard Bitcoin-alphabet text, and decoding it gives the same bytes back; text with a character outside the alphabet decodes to empty. Checked encodings append the standard four-byte checksum (double SHA-256, or RIPEMD-160 over data and suffix), checked decoding returns exactly the original data, and any altered character, truncated text or different suffix is reported as an error.",
  ["inputs"],"all byte strings, suffixes and corrupted texts",
  "A dozen vectors of at most a few dozen bytes, one wrong-suffix case, no corruption, no non-ASCII input.",
  ["pkg/base58/base58.go","pkg/base58/base58check.go","pkg/base58/alphabet.go"],
  [("chunked radix conversion","pkg/base58/base58.go Encode, Decode"),("checksums","pkg/base58/base58check.go")],
  ["text, bytes, errors"])

p("C22","Digests equal the standard hash for every message and write pattern",
  "RIPEMD-160, SHA-256 and SHA-512 checksums equal the standard digests for messages of every length. The streaming RIPEMD-160 hash gives the same digest however the message is split into writes, reading the sum does not disturb the running state, appends to the given slice, and reset returns it to the initial state.",
  ["inputs","histories"],"all messages, all sequences of Write/Sum/Reset calls",
  "Nine short vectors and one long one are hashed with one write pattern.",
  ["pkg/ripemd160/ripemd160.go","pkg/ripemd160/ripemd160block.go",CH+"checksum.go"],
  [("block buffering and padding","pkg/ripemd160/ripemd160.go Write, Sum")],["digests"])

p("C23","JSON documents round-trip and keep the EOSIO JSON shape",
  "Actions, transactions, permission levels, extended assets and ABI definitions marshal to the EOSIO JSON field names with chain types in their text form and lists as arrays, and unmarshal back to an equal value, whatever the order of the fields, white space and character escapes of the document (escaped digits of quoted numbers aside). A transaction or ABI definition taken from JSON to binary and back to JSON yields the same JSON. Values produced by ABI-driven decoding marshal with the same text forms as the corresponding typed values.",
  ["inputs"],"all documents",
  "One action, one transaction and three fixed ABIs are tested; dynamically decoded values are never marshalled.",
  [CH+"transaction.go",CH+"action.go",ABI,CH+"signature.go"],
  [("json tags and MarshalText/MarshalJSON receivers","pkg/chain/*.go")],["JSON text","values after unmarshalling"])

p("C24","Generated marshalling code equals the generic codec",
  "For every struct made of supported field kinds (built-in and chain types, slices, fixed arrays and byte strings of them, pointers to them, optional pointers), the code generator emits Go code that compiles and whose encoder and decoder produce the same bytes, values and failures as the generic codec for that struct, also when decoding into a used value. A nil in a non-optional pointer field makes the generated encoder fail instead of panicking.",
  ["programs","inputs"],"all struct types in the supported field grammar, all values and byte strings",
  "The code generator has no tests at all.",
  ["pkg/codegen/codegen.go"],[("templates","pkg/codegen/codegen.go")],
  ["compiler result","bytes and values from generated vs generic code"])

p("C25","Custom codec hooks take precedence and fall back correctly",
  "With a custom encoder or decoder, the user function is offered every value first, at every nesting level of user-defined types: when it reports the value done its result is used alone, when it returns an error that error is returned, and when it declines the value is handled exactly as without it. A function that declines everything leaves every encoding and decoding unchanged.",
  ["programs","inputs"],"all hook behaviours, all types and values",
  "Custom codecs are not tested.",
  [CENC,DEC,ENC],[("hook composition","pkg/chain/encoding.go NewCustomDecoder, NewCustomEncoder"),("dispatch","pkg/abi Encode, Decode")],
  ["sequence of values offered to the hook","bytes, values, errors"])

p("C26","ABI-driven encoding refuses values that do not conform",
  "ABI-driven encoding of a value that does not conform to the schema - a missing or nil required field, a wrong Go type at any depth, an unknown variant name, a malformed variant pair, a non-list where a list is required, an unknown action or type - returns an error. It never panics and never reports success for such a value, and decoding data with an out-of-range variant index is refused likewise.",
  ["programs","inputs"],"all ABIs, all single deviations from a conforming value",
  "No test passes a non-conforming value.",
  [ABI],[("type assertions","pkg/chain/abi.go encodeType, encodeInner")],["error returned"])

p("C27","Custom marshalers are used wherever their types occur",
  "A user type that brings its own binary format - MarshalABI on the value, UnmarshalABI on the pointer - is encoded and decoded with these methods wherever it occurs: passed directly or through a pointer, as struct field, list or array element, map key or value, optional, extension, variant or variant alternative, inside other such types, and whatever its underlying kind (struct, number, list, array, map). They are called exactly once per value, in order, on the encoder or decoder in use (so nested values still reach the custom fast path), and an error they return makes the whole operation fail with that error and without further calls. A custom fast path that claims the type takes precedence over its methods.",
  ["programs","inputs"],"all compositions of types with custom marshalers, all failing calls",
  "No test defines a type with its own marshaler outside package chain, let alone at every position.",
  [ENC,DEC],[("Marshaler and Unmarshaler dispatch","pkg/abi/encode.go Encode, pkg/abi/decode.go Decode")],
  ["bytes and values","sequence and number of method calls","errors"])

p("C28","Long-running use leaves nothing behind",
  "However many distinct values, texts, ABI definitions and failing inputs a process handles, one after another, the memory it retains once their results are dropped does not keep growing (a cache of bounded size may fill up). The same holds behind one encoder, decoder or hash that lives on. No call leaves a goroutine running.",
  ["histories","inputs"],"all long sequences of calls with distinct inputs",
  "Tests make a handful of calls and never look at what stays allocated.",
  [CH+"*.go","pkg/abi/*.go","pkg/base58/*.go","pkg/ripemd160/ripemd160.go"],
  [("no package-level state that grows; per-call resolver","pkg/chain/abi.go resolver, pkg/abi Encoder/Decoder fields")],
  ["live heap after garbage collection between phases","number of goroutines"])

p("C29","The guarantees hold alike on 32-bit platforms",
  "Encoding, decoding, ABI-driven and generated code and all text conversions give the same bytes, values, texts and refusals on platforms with 32-bit integers as on 64-bit ones. In particular 64-bit values are never cut to the size of an int (results whose type is int aside), and a count, length or variant index of 2^31 or more (up to 2^32-1 can be expressed in the data) is refused when the data is not there, never taken as negative or zero, and never causes a panic.",
  ["inputs","configurations"],"all inputs of the other properties, on 32-bit platforms",
  "The tests run on the developer's platform, which has 64-bit integers.",
  [DEC,ENC,ABI,CH+"transaction.go",CH+"action.go","pkg/codegen/codegen.go"],
  [("conversions of counts and indexes to int","pkg/abi/decode.go DecodeValue, pkg/chain/abi.go decodeModifiers, decodeInner"),("int and uint as varint32 and varuint32","pkg/abi")],
  ["bytes, values, texts and errors of a program built for a 32-bit platform"])

p("C30","User code inside an operation may call back and may panic",
  "Hooks, MarshalABI and UnmarshalABI methods, readers and writers that run inside an encoding or decoding operation may themselves use the library - other values and types, the same ABI, the same operation on another codec - and both the inner and the outer operation give the results they give on their own. When such code panics or ends its goroutine, the panic reaches the caller as it is, the bytes written until then are a beginning of the encoding, and nothing is left behind by it: the same encoder or decoder (with a fresh start of its data), the same ABI and every other operation work as before, however often this happens. No operation blocks because another one was entered or left in this way.",
  ["programs","fault_sequences","histories"],"all calls of user code within all operations, all points at which it panics, all numbers of repetitions",
  "No test runs an operation inside another or recovers from a panic of its own reader, writer, hook or method.",
  [ENC,DEC,ABI,CH+"encoding.go"],
  [("calls of the hook, the methods, the reader and the writer","pkg/abi Encode, Decode, EncodeValue, DecodeValue and the Read and Write methods"),("nesting depth restored on every way out","pkg/abi/decode.go DecodeValue")],
  ["results of inner and outer operations","recovered panic values","bytes written before and after"])

p("C31","Work grows in proportion to the data",
  "The code executed, the memory allocated and the calls made on reader, writer and hook to encode, decode, parse, print or hash something grow at most in proportion to the size of the data, whether it is flat, wide or deeply nested (up to a logarithm where map keys are sorted, up to the square for base58 and for the texts of keys, signatures and big numbers). Refusing flat data that is cut off or malformed costs no more than accepting it. ABI-driven operations obey the same bound for a given ABI, and in the size of the ABI definition (aliases, nested structs, inheritance) they grow at most with its square, never exponentially.",
  ["inputs","programs"],"all sizes of all kinds of data and ABI definitions",
  "Tests use inputs of a few bytes and look at results, not at cost.",
  [ENC,DEC,ABI,"pkg/base58/*.go","pkg/ripemd160/ripemd160.go",CH+"*.go"],
  [("loops over elements, fields and bytes; type resolution","pkg/abi/encode.go, pkg/abi/decode.go, pkg/chain/abi.go resolver")],
  ["executions of code blocks","bytes allocated","calls of reader, writer and hook"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
