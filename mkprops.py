import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["Go/sereal/"+f for f in files],mechanism=[dict(name=n,where="Go/sereal/"+w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where="Go/sereal/"+c) for a,b,c in state]
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement)
    P.append(d)
p("P01","Untyped data survives an encode/decode round trip unchanged",
 "Encoding a tree of nil, booleans, integers of every width, float32, float64, strings, byte slices, json.Numbers, slices and string-keyed maps and decoding the document into an empty interface gives the same tree back. Integers keep their exact value (a value above the int range comes back as uint), floats keep their width and every bit, text stays string and bytes stay []byte, and a json.Number keeps its exact value if it is an integer. This holds for every encoder version, PerlCompat, dedup, expected size, compression and threshold setting.",
 ["inputs","configurations"],"every value tree and every encoder configuration, with the default decoder",
 "The tests round-trip a few dozen sample values with two or three encoders; tag boundaries, varint lengths, sizes and offsets that a sample does not hit stay unexplored.",
 ["encode.go","decode.go"],[("encode: type switch and tag selection","encode.go (encode, encodeInt, encodeString, encodeBytes, encodeJsonNumber)"),("decode: tag dispatch","decode.go (decode, decodeVarint, decodeZigzag)")],["Encoder.Marshal","Decoder.Unmarshal"])
p("P02","Typed values survive an encode/decode round trip unchanged",
 "A value of a static type made of booleans, integers, floats, strings, byte slices, slices, arrays, string-keyed maps, structs, pointers to structs or maps, and interfaces, encoded and decoded into a fresh variable of the same type, compares equal to the original (nil and empty slices and maps count as equal). Struct fields travel under their sereal tag or else their name, and fields that are unexported without a tag or tagged \"-\" are neither written nor touched. The same holds for reading a document into a struct of another type: fields are matched by tag or name (or by the title-cased key), keys without a field are skipped, and fields without a key keep their values.",
 ["inputs","programs"],"every such type up to a bound, every value of it from a boundary alphabet, every encoder configuration",
 "The tests use a handful of struct types; the space of types is only reachable by making types systematically.",
 ["encode.go","decode.go","tagscache.go"],[("reflection encoder","encode.go (encodeViaReflection, encodeStruct, encodeMap)"),("reflection decoder","decode.go (decodeViaReflection, decodeHashViaReflection)"),("field names of a struct type","tagscache.go (Get)")],["Encoder.Marshal","Decoder.Unmarshal"])
p("P03","The encoder only writes documents that the specification defines",
 "Every document that an encoder returns without an error parses under the Sereal specification: right magic and version, exact lengths, offsets that lead back to the start of an earlier item, COPY only of untangled earlier items, F bits on everything that is referred to, and nothing left over. The parsed graph is the one the Go value stands for: containers, objects named after their struct types, references, Perl types and shared pointers all in their places, with references in front of containers when PerlCompat is set. User header data is encoded the same way in the header.",
 ["inputs","configurations"],"every value from value trees, typed values and Perl types, times every encoder configuration",
 "The tests check the output with the same library's decoder, which forgives what another implementation rejects.",
 ["encode.go"],[("offsets and dedup tables","encode.go (marshalState, encodeString, encodePointer)"),("header","encode.go (MarshalWithHeader)")],["Encoder.Marshal","Encoder.MarshalWithHeader"])
p("P04","The decoder understands every document that the specification allows",
 "Every valid document of versions 1 to 4, raw or compressed with snappy or zlib, decodes without an error into an empty interface, whichever tags it uses to say what it says: short or long forms, inline references, PAD, COPY, REFP, ALIAS, WEAKEN, OBJECT, OBJECTV, FREEZE, REGEXP. The decoded value is the one the document describes, in each combination of PerlCompat (Perl references, objects, weak references, undefs are kept) and DisableReferentialIntegrity (back references yield plain values). Items that a document shares by reference or alias are one Go map or slice, and items that it does not share are distinct ones.",
 ["inputs","configurations"],"every valid body up to a number of items over the whole tag set, every size and offset boundary, all versions and document types, four decoder modes",
 "The corpus has a few hundred Perl-made documents; combinations of tags, sizes and offsets are only reachable by enumerating documents.",
 ["decode.go"],[("tag dispatch","decode.go (decode)"),("tracked items","decode.go (decodeREFP_ALIAS)"),("offset base","decode.go (UnmarshalHeaderBody)")],["Decoder.Unmarshal"],[("Decoder.tracked","offset to the decoded item","decode.go")])
p("P05","No input makes decoding or merging panic, hang or allocate without bound",
 "Whatever bytes they are given, Unmarshal, UnmarshalHeader, UnmarshalHeaderBody, DecompressDocument, LooksLikeSereal and Merger.Append return a result or an error: they do not panic, do not crash the process, do not run forever, and do not allocate more than a fixed multiple of what the input (its decompressed form, with compression) can account for. This holds for untyped and typed destinations and in all decoder modes.",
 ["inputs","configurations"],"every byte string up to a length, every body of few tag-like bytes, every single-byte change, truncation, insertion and deletion of valid documents, and size claims and nestings of all magnitudes",
 "Tests replay a list of past crashers; there are always other bytes.",
 ["decode.go","merge.go","snappy.go","zlib_purego.go","zlib.go"],[("bounds checks","decode.go (decodeHash, decodeArray, decodeBinary, decodeStringish, varintdecode)"),("header and lengths","decode.go (readHeader)"),("claimed sizes","snappy.go, zlib_purego.go (decompress)"),("merger's own parser","merge.go (buildTrackTable, mergeItems)")],["Decoder.Unmarshal","Decoder.UnmarshalHeaderBody","DecompressDocument","Merger.Append"])
p("P06","Documents that break the specification are rejected with an error",
 "A body that is cut off anywhere, has an offset that points forward, to itself or at no tracked item, a COPY inside a copied item, a tag that does not exist, a hash key or class name that is no string, a length beyond the end or an endless varint makes decoding return an error, never a value. The same goes for the user data in the header and for compressed bodies that are cut off or corrupt. It holds for decoding into an interface in all decoder modes, and into typed variables.",
 ["inputs","configurations"],"every body over a tag alphabet up to a length, every proper prefix and every offset of valid documents",
 "The tests have a few corrupt samples; what must be rejected is an infinite set.",
 ["decode.go","snappy.go","zlib.go"],[("truncation and offset checks","decode.go (decode, decodeViaReflection, decodeREFP_ALIAS, decodeStringish, decodeBinary)"),("nested COPY","decode.go (copyDepth)")],["Decoder.Unmarshal"])
p("P07","Header user data and body are independent of each other",
 "From a document of version 2 or later made with header data and body, UnmarshalHeader gives the header data, Unmarshal gives the body, and UnmarshalHeaderBody gives both, each exactly as if the other were not there. The body bytes are those of the document without header data, and shared strings or pointers never connect the two. Reading the header needs no valid body and leaves the body destination alone; a document without user data leaves the header destination untouched.",
 ["inputs","configurations"],"pairs of header and body values that share strings, class names and pointers, times header lengths across varint boundaries, versions and compressions",
 "The tests use one header with one body.",
 ["encode.go","decode.go"],[("separate encoder state","encode.go (MarshalWithHeader)"),("offset bases","decode.go (UnmarshalHeaderBody)")],["Encoder.MarshalWithHeader","Decoder.UnmarshalHeader","Decoder.UnmarshalHeaderBody"])
p("P08","Compression changes the size of a document and nothing else",
 "A document that is compressed (snappy in both forms for version 1, incremental snappy for later versions, zlib at every level for version 3, zstd for version 4 in builds with the C library) decodes to the same value as the uncompressed one, and its decompressed body is that body byte for byte. A body is compressed exactly if a compressor is set and the body is at least as long as the threshold (or the threshold is 0), and the document type says so; a compressor that the version does not allow is an error. DecompressDocument turns any document into the equivalent uncompressed one, into the caller's buffer or a new one, and leaves the input alone.",
 ["inputs","configurations"],"bodies of every length around thresholds and block sizes, compressible or not, all compressors and levels, versions, header data, and buffer sizes",
 "The tests compress one or two documents per compressor.",
 ["encode.go","decode.go","snappy.go","zlib.go","zlib_purego.go"],[("threshold and doctype","encode.go (MarshalWithHeader)"),("decompressor choice","decode.go (documentDecompressor)"),("buffer reuse","decode.go (DecompressDocument)")],["Encoder.Marshal","DecompressDocument","Decoder.Unmarshal"])
p("P09","Shared and cyclic pointers keep their shape through a round trip",
 "A graph of Go structs linked by pointers, directly or through slices, arrays and maps, decodes into the same type with the same shape: pointers that were equal are equal, pointers to different things of observable identity stay different, cycles close on themselves, and nil pointers stay nil. The same holds for maps and slices reached through pointers when decoding into an empty interface, and it does not depend on the order in which the encoder meets the pointers or on addresses that happen to coincide (a struct and its first field, a slice and its prefix).",
 ["inputs","programs"],"all pointer graphs up to a number of nodes, over several node types",
 "The tests check one self reference and one shared pointer.",
 ["encode.go","decode.go"],[("pointer table","encode.go (encodePointer, getPointer)"),("tracked items","decode.go (decodeREFP_ALIAS, decodeViaReflection)")],["Encoder.Marshal","Decoder.Unmarshal"],[("marshalState.ptrTable","what a pointer refers to, and where it was written","encode.go")])
p("P10","Merging documents is the concatenation of what they contain",
 "After Append of any sequence of valid documents (of any versions and document types) Finish returns a valid document whose top-level array, or reference to an array, holds their values in order; with KeepFlat, documents whose top level is that kind of container contribute their elements instead. Append returns the number of elements it added. References, aliases, copies, objects and class names inside each document mean what they meant before, whatever was merged ahead of it, with and without DedupeStrings and compression.",
 ["inputs","histories","configurations"],"all sequences of up to three documents from an enumerated set of bodies, times merger options",
 "The tests merge a few fixed documents and mostly without references.",
 ["merge.go"],[("offset translation","merge.go (buildTrackTable, mergeItems)"),("string and class tables","merge.go (strTable, objTable)")],["Merger.Append","Merger.Finish"],[("Merger.strTable","strings already in the merged document","merge.go"),("Merger.length","top-level elements so far","merge.go")])
p("P11","A failed Append leaves no trace, and Finish ends a merge for good",
 "If Append returns an error, the merged document is in the end the same as if that call had not been made, whatever was appended before and after it and wherever the bad document goes wrong. Finish returns the same document each time it is called, a merger without documents yields an empty container, and Append after Finish fails and changes nothing.",
 ["histories","inputs","fault_sequences"],"all sequences of Append of good and bad documents and of Finish up to a length; bad documents are all truncations and corruptions of a set",
 "The tests contain no failed Append that is followed by a successful one.",
 ["merge.go"],[("rollback","merge.go (Append, forgetStrings)"),("finished flag","merge.go (Finish)")],["Merger.Append","Merger.Finish"])
p("P12","Encoders and decoders can be reused: no call affects a later one",
 "After any sequence of calls, successful or failed, on one Encoder or Decoder, the next call behaves as it would on a fresh one with the same settings. That covers encoding errors, recursion limits, panicking marshalers, corrupt documents that fail at any point, decoding into different types, headers, and registered names.",
 ["histories","fault_sequences"],"all sequences of calls up to a length from an alphabet of calls that succeed or fail in every distinct way, each compared with a fresh instance",
 "The tests use an instance for one kind of call each, and rarely after an error.",
 ["encode.go","decode.go","tagscache.go"],[("state reset","decode.go (UnmarshalHeaderBody)"),("per-call state","encode.go (marshalState)")],["Encoder.Marshal","Decoder.Unmarshal"],[("Decoder.copyDepth, pending, depth, tracked","decoding state that must not outlive a call","decode.go")])
p("P13","Inputs stay untouched, and results share no memory with them",
 "Unmarshal, DecompressDocument and Merger.Append do not change the bytes they are given, and Marshal does not change the value it is given. What decoding returns stays the same when the document's bytes are overwritten afterwards, and a document that Marshal or Finish has returned stays the same when the value, the encoder or the merged inputs are used again or changed. Two decoded values never share memory (the canonical undef of PerlCompat decoding and the text of strings apart), and neither do two results from one encoder.",
 ["inputs","histories"],"documents with every tag that carries bytes, in all decoder modes and into typed destinations; overwriting every byte afterwards",
 "The tests never overwrite an input after use.",
 ["decode.go","encode.go","merge.go","zlib_purego.go","snappy.go"],[("copies of bytes","decode.go (decodeBinary, decodeRegexp, setBinary)"),("buffer reuse","decode.go (DecompressDocument), snappy.go (compress)")],["Decoder.Unmarshal","Encoder.Marshal","Merger.Append","DecompressDocument"])
p("P14","Package-level functions may be used from many goroutines at once",
 "Concurrent calls of Marshal, Unmarshal, DecompressDocument and LooksLikeSereal, and of encoders and decoders and mergers that are each used by one goroutine, return what they would return one after the other, under every interleaving, with no data race, deadlock or crash. This includes first uses of a type, zlib compression, whose writers are pooled, and Perl's shared canonical undef. One Encoder made by a constructor may also be shared by goroutines that call Marshal.",
 ["schedules"],"all interleavings of two or three goroutines with up to two preemptions at accesses to shared state, and race detection",
 "The tests start no goroutines.",
 ["encode.go","tagscache.go","zlib_purego.go","perl.go","decode.go"],[("tag cache lock","tagscache.go (tagsCache)"),("writer pool","zlib_purego.go (zlibWriterPools)"),("default encoder","encode.go (defaultEncoder)")],["Marshal","Unmarshal"],None,"none: the check instruments a build overlay made from the working tree")
p("P15","MaxRecursionDepth bounds encoding exactly, and cycles never hang it",
 "With MaxRecursionDepth N above zero, encoding succeeds exactly if the nesting of slices, arrays, maps, structs and pointers in the value is less than N, and otherwise returns ErrMaxRecursionLimit; it never crashes, even for values that contain themselves without pointers. The limit applies to header and body separately, does not change the document of a value within it, and is the same for typed and untyped containers. Without a limit any finite nesting works.",
 ["inputs","configurations"],"all nestings of container kinds up to a depth, times all limits around it, cyclic maps and slices",
 "The tests try one depth with one limit.",
 ["encode.go"],[("remaining depth","encode.go (encodeIntfArray, encodeStrMap, encodeArray, encodeMap, encodeStruct, encodePointer)")],["Encoder.Marshal"])
p("P16","Custom serialisation hooks are honoured, and their errors reported",
 "A value with MarshalBinary is encoded as a frozen object of its type's name holding exactly those bytes, unless DisableFREEZE is set, and decoding a frozen object hands exactly those bytes to UnmarshalBinary of the typed destination or of the type registered for that class name; without either, a PerlFreeze with class and data (or the bytes, for a byte slice destination) comes out, and encoding it writes the same frozen object. Errors from the hooks come back from Marshal and Unmarshal. This holds wherever the value sits: at the top, in slices, maps, fields, interfaces, behind pointers, and when class names repeat.",
 ["inputs","configurations","fault_sequences"],"all positions and repetitions of hooked types, payload lengths, registered or not, hooks that fail",
 "The tests freeze one type at the top level.",
 ["encode.go","decode.go","perl.go"],[("freeze","encode.go (encodeViaReflection)"),("thaw","decode.go (decodeObjectFreezeViaReflection, findUnmarshaler, RegisterName)")],["Encoder.Marshal","Decoder.Unmarshal","Decoder.RegisterName"])
p("P17","PerlCompat decoding followed by PerlCompat encoding loses nothing",
 "A valid document that is decoded with PerlCompat and encoded again with PerlCompat describes the same Perl data: the same scalars, array and hash references, blessed classes, weak references, regexps, frozen objects, undefs (canonical or not), and references that lead to one array or hash still do (references to one scalar may become references to equal scalars). Decoding and encoding that document once more changes nothing further.",
 ["inputs"],"every document without aliases from the enumerated grammar, and every encoder version",
 "The corpus round trip covers a few hundred Perl structures.",
 ["decode.go","encode.go","perl.go"],[("Perl types","perl.go"),("references in front of containers","encode.go (encodeIntfArray, encodePointer)")],["Decoder.Unmarshal","Encoder.Marshal"])
p("P18","Decoding into a typed variable stores what the document says",
 "A typed destination (struct, map, slice, array, scalar, pointer to struct or map, and nestings of them) receives the values that the document describes, whichever of the equivalent encodings the document uses for them: short or long integers and strings, HASH or HASHREF, ARRAY or ARRAYREF, REFN, OBJECT, PAD, COPY, REFP or ALIAS to an earlier item of the same Go type. Undef leaves zero values, elements beyond the length of an array and keys without a field are skipped without disturbing what follows, and a document whose shape does not fit the destination gives an error or leaves the misfit untouched, never a panic.",
 ["inputs","programs"],"pairs of types and values times all choices of encodings for each item of the value; all pairs of type and mismatching document",
 "The tests decode a few Perl documents into a few structs.",
 ["decode.go","tagscache.go"],[("reflection decoder","decode.go (decodeViaReflection, decodeHashViaReflection, decodeArrayViaReflection, decodeREFP_ALIAS, setInt, setBinary)")],["Decoder.Unmarshal"])
p("P19","Only Sereal documents of supported versions and types are accepted",
 "Unmarshal, UnmarshalHeader, DecompressDocument, LooksLikeSereal and Merger.Append accept a document only if its magic fits its version (\"=srl\" for 1 and 2, \"=\\xf3rl\" from 3 on), and all but LooksLikeSereal only if the version is at most 4 and the document type is one of that version. A header that was damaged by conversion to UTF-8 is reported as such, anything else as an error, and a header length that reaches beyond the document is an error. They agree with each other on which documents these are.",
 ["inputs"],"all single-byte changes of the magic, all 256 version/type bytes, all short headers and suffix lengths, times all entry points",
 "The tests try a couple of bad headers with one entry point.",
 ["decode.go","merge.go"],[("header checks","decode.go (readHeader, checkHeader, documentDecompressor)"),("merger's use of them","merge.go (Append)")],["Unmarshal","LooksLikeSereal","DecompressDocument","Merger.Append"])
p("P20","Encoding any value gives a document or an error, and never panics",
 "Given any value that does not contain itself except through pointers, Marshal and MarshalWithHeader return a valid document of it if all that it leads to can be represented, and an error and no document if any of it is a channel, function, complex number, uintptr, unsafe.Pointer, map key other than a string, unexported field with a sereal tag, or value whose MarshalBinary returns an error. They never panic, and never leave something out or put something else in its place. It does not matter where that value sits (top, header, behind pointers and interfaces, in any slice, array, map, struct or Perl type, among others, in a cycle), and what is not reached (nil pointers, empty containers, skipped fields) is no reason for an error.",
 ["inputs"],"values of all kinds, supported or not, in up to two wrappers of 20, times encoders and places",
 "The tests encode values that are supported, of the types they happen to use.",
 ["encode.go","tagscache.go"],[("dispatch on types","encode.go (encode, encodeViaReflection)"),("panics turned into errors","encode.go (MarshalWithHeader)"),("map keys, fields","encode.go (encodeMap, encodeStruct), tagscache.go (Get)")],["Encoder.Marshal","Encoder.MarshalWithHeader"])
p("P21","Repeated names and strings are written once",
 "In what an encoder writes without DisableDedup, each hash key and each class name is spelled out once in the body (and once in the header) and repeated as a COPY; with DisableDedup no COPY occurs. In what a Merger writes, each hash key and class name of all the documents appended to it is spelled out once; with DedupeStrings so is each other string, and without it other strings stay as they were. This holds at all lengths and distances and after a failed Append, but in mergers not for strings that are referred to, strings of less than two bytes, parts of regexps, and (with DedupeStrings) documents in which COPY repeats more than strings.",
 ["inputs","histories"],"values with few names in all orders of map keys; sequences of documents, with failed ones in between, into 16 mergers; lengths and distances around powers of 128",
 "The tests compare decoded values, which do not show it, and one merged document.",
 ["encode.go","merge.go"],[("string table","encode.go (encodeString, encodeBytes)"),("string and class tables","merge.go (mergeItems, forgetStrings)")],["Encoder.Marshal","Merger.Append","Merger.Finish"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
