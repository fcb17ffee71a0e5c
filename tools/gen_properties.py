#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
J="Code/Json4C4/C4Json.cpp"; H="Code/Json4C4/C4Json.h"
S="Code/Terathon/TSString.cpp"; SH="Code/Terathon/TSString.h"; M="Code/Terathon/TSMap.cpp"; MH="Code/Terathon/TSMap.h"
A="Code/Terathon/TSArray.h"; T="Code/Terathon/TSText.cpp"; TH="Code/Terathon/TSText.h"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=None)))

p("C01","Hostile text and files never corrupt memory, crash, or hang",
 "For every byte sequence given to the parser, as a buffer or as a file, parsing, walking, querying, validating, deserializing, re-writing and destroying the result finishes without any invalid memory access, use of uninitialised data, undefined behaviour, crash, stack exhaustion or endless loop. Nesting of any depth is either parsed or refused with an error status; it never exhausts the stack.",
 ["inputs"],"all byte sequences (valid, near-valid, truncated, deeply nested, non-UTF-8, containing NUL), through buffer and file entry points, followed by every read operation on the outcome",
 "the tests parse about 40 fixed small files, uninstrumented; hostile bytes, truncations at each offset and deep nesting are never tried",
 [J,H,S,T,A],[("recursive descent over a NUL-terminated buffer",J+":ParseAnyValue/ArrayValue::Parse/ObjectValue::Parse"),("string and escape scanner",J+":ReadStringLiteral/ReadStringEscapeChar"),("UTF-8 validation",T+":ValidateUnicodeChar"),("number scanner",J+":ReadDoubleLiteral")],
 ["StructuredData::Parse(buffer)","StructuredData::Parse(file)","GetRootJsonValue walk","Write"])
p("C02","No history of document and object operations leaks or double-frees memory",
 "After any sequence of parsing (successful or failing), serializing, deserializing, writing and querying, destroying the documents and user objects returns every block of memory the library allocated, each exactly once. This includes texts with repeated names, serializing over a document that already holds data, and reusing one document many times.",
 ["histories","inputs"],"all sequences of API calls on documents and target objects, with all inputs including repeated names and malformed text",
 "tests exit right after one parse per document and nothing observes the heap",
 [J,H,A,M,S],[("ownership of child values",J+":~ArrayValue, "+M+":PurgeMap/DeleteSubtree"),("replacement of the root",J+":StructuredData::Parse, "+H+":StructuredData::SerializeFrom"),("container serialization discards earlier children",H+":Serialize(Array/ObjectMap/vector/map)")],
 ["global operator new/delete balance","LeakSanitizer at exit"])
p("C03","The parser accepts exactly the RFC 8259 texts",
 "A text is accepted if and only if it is a JSON text under RFC 8259: every construct of the grammar is accepted, at top level as well as nested, and every text outside the grammar is refused with a non-OK status (malformed numbers such as +1, 01, 1., .5, 1e, --1 or 1-2; trailing or missing commas; unescaped control characters; bad escapes; ill-formed UTF-8; anything but whitespace after the value, including a NUL byte inside the text). The only permitted refusals of valid text are documented limits: the \\u0000 escape, nesting deeper than the limit (at least 500 levels are accepted), and files larger than 65534 bytes; a byte order mark and encoded lone surrogates are outside this property.",
 ["inputs"],"all texts: generated from the grammar, mutated from it, and enumerated exhaustively for short lengths over the JSON alphabet",
 "tests use 35 fixed jsonchecker files; the space of near-valid texts is unbounded and most number and escape malformations are not in it",
 [J,T],[("value dispatch",J+":ParseAnyValue"),("number grammar",J+":ReadDoubleLiteral/ParseSign"),("string grammar",J+":ReadStringLiteral/ReadStringEscapeChar"),("end of text",J+":ParseJsonRoot"),("whitespace",J+":ComputeWhitespaceLength")],
 ["ParseResult.status"])
p("C04","A parsed document is exactly the document the text denotes",
 "For every accepted text the resulting tree has the kinds, nesting, array order, names and values the text denotes: strings and names decode all escapes (including \\u escapes and surrogate pairs, which become one UTF-8 character) and keep all other characters unchanged, true/false/null map to their own kinds, and each name is reachable with its own value regardless of how many names an object has or in what order they came. When a name is repeated in an object exactly one entry is kept, the first.",
 ["inputs"],"all accepted texts, all string contents, all object sizes and name orders",
 "tests check a dozen literal values in tiny files; none contains an escape whose value is compared, a surrogate pair, or an object of more than a few names",
 [J,M,MH,S,T],[("two-pass string decoding",J+":StringValue::Parse/ReadStringLiteral"),("UTF-8 encoding of escapes",T+":WriteUnicodeChar"),("balanced tree of named values",M+":InsertLeftSubnode/InsertRightSubnode"),("array growth",A+":AppendArrayElement")],
 ["GetRootJsonValue","GetDataAsPointerTo","iteration over object and array values"])
p("C05","Numbers are converted exactly, whatever the process locale",
 "Every accepted number literal yields the IEEE-754 double nearest to its decimal value (overflow to infinity, sign of zero kept), no matter how many digits or what exponent it has. Every finite double that is written is read back as the identical double, and both directions are independent of the process's locale and of surrounding text.",
 ["inputs","configurations"],"all number literals and all finite doubles, under the C locale and locales with other decimal separators",
 "tests compare four number literals in the C locale",
 [J],[("string to double",J+":ReadDoubleLiteral/NumberValue::Parse"),("double to string",J+":NumberValue::Write")],
 ["GetDataAsPointerTo<double>","bytes written by Write"])
p("C06","What is written parses back to the same document",
 "Whenever writing a document reports success, the file contains exactly one RFC 8259 text that denotes the same document: same kinds, values, names, array order and object name order, for every string content and every finite number. This holds for every indentation width and whitespace indentation character and whatever the target file held before; a document that cannot be represented (non-finite number, ill-formed UTF-8) is refused with an error status. With blanks or tabs every line is indented by its nesting times the width.",
 ["inputs","histories","configurations"],"all documents obtainable by parsing or serializing, all indentation settings, all earlier contents of the target file",
 "test02 writes one fixed document without special characters and then never reads the rewritten copy (it re-deserializes from the original)",
 [J],[("writers",J+":StringValue/NumberValue/ArrayValue/ObjectValue::Write"),("name order",J+":InsertAccountedMapElement"),("file creation",J+":File::OpenFile/WriteFile"),("indentation stack",J+":ExpandArray")],
 ["bytes of the written file","independent parse of that file","library re-parse"],
 [("insertionOrder","order in which names were added to an object",H+":ObjectValue")])
p("C07","Syntax errors are reported at their true place with their own message",
 "For every text that is refused for its syntax the reported line is the line (1-based, counting newline characters from the start of the text) on which the offending token begins or the fault occurs, and the column is the 1-based byte position in that line, between the beginning of the offending token and the first byte that cannot continue a valid text. The status is the one that describes that fault (missing colon, missing closing bracket, brace or comma, illegal character or escape in a string, leading zero, no JSON value, premature end, text after the value). Errors that have no place report line 0 and column 0, success reports OK with line and column 0, and the rendered message is the status's own description followed, when there is a place, by exactly that line and column.",
 ["inputs"],"all refused texts, all status values, all line and column numbers",
 "tests print the message but never compare a line, a column or a text",
 [J,H],[("backwards scan for line and column",J+":ParseJsonRoot"),("cursor left at the failing token",J+":*::Parse"),("message table",J+":StatusToString/ParseResultToString")],
 ["ParseResult","StatusToString","ParseResultToString"])
p("C08","Objects survive serialize, write, parse and deserialize unchanged",
 "For every supported field type (strings, numbers, booleans, null, arrays, name maps, their std counterparts, nested user types defined by free or member functions, and nesting of these) and every representable value, serializing an object and deserializing the result into a fresh object, directly or through a written file, gives an equal object. Serializing always replaces the document's earlier content completely, and a value that cannot be serialized makes the call fail rather than being dropped silently.",
 ["inputs","histories"],"all values of all supported types, all earlier contents of the document",
 "tests round-trip one fixed object with two nested arrays and never serialize a map, vector or std type",
 [H,J],[("type to value-kind mapping",H+":Detail::CreateValueFor"),("field prototypes",H+":SerializeProto/DeserializeProto"),("container overloads",H+":Serialize/Deserialize(Array,ObjectMap,std::vector,std::map)")],
 ["SerializeFrom","DeserializeTo","Write then Parse"])
p("C09","Validation agrees with deserialization; types and required names are enforced",
 "For every document and prototype, validation succeeds exactly when deserialization into a fresh object succeeds, and both return the same status: a required name that is absent gives the name-not-present status, a value of another kind gives the invalid-value-type status, at any depth. A name marked optional may be absent, in which case its member is left untouched, but if present it must have the right kind; names not in the prototype are ignored, and validation modifies neither document nor object.",
 ["inputs"],"all pairs of document and prototype, in particular documents that differ from a matching one by one missing, extra or wrongly typed value at some depth",
 "test05 validates one matching file; no test has a mismatch or an optional field",
 [H,J],[("named lookup and kind test",H+":Validate/Deserialize(value,name,data)"),("optional fields",H+":ValidateProto/DeserializeProto(Optional)"),("element-wise containers",H+":Validate/Deserialize(Array,ObjectMap,vector,map)")],
 ["Validate","DeserializeTo","member values"])
p("C10","A document's content depends only on the last operation that set it",
 "For every history of parses, serializations, writes and queries on one document, its content equals that produced by the last parse or serialization on a fresh document, and reading operations never change it. After a parse that reports a syntax error the document holds no value, neither from that text nor from before; after a failed serialization its content is unspecified; a parse that cannot begin (file that cannot be opened or read or is too large, buffer that is empty or not terminated) leaves either the earlier content or none; in all these cases the document stays usable, and deserializing, validating or writing a document that holds no value returns an error status (writing then leaves an existing file alone) instead of failing hard.",
 ["histories","inputs"],"all interleavings of operations on one reused document, with succeeding and failing inputs",
 "each test uses a document once, and none continues after a failed operation",
 [J,H],[("root replacement",J+":StructuredData::Parse"),("root replacement",H+":StructuredData::SerializeFrom"),("empty-document guards",H+":DeserializeTo/Validate, "+J+":StructuredData::Write")],
 ["GetRootJsonValue after each step","statuses"],[("rootJsonValue","root of the held document or null",H+":StructuredData")])
p("C11","I/O faults are never mistaken for success",
 "For every pattern of short reads, short writes, interrupted or failing system calls, unreadable or vanishing or truncated files, full devices and size limits, parsing a file reports success only if the document is the one denoted by the complete file content, and writing reports success only if the complete text is in the file. Short reads and writes alone never make a call fail. Every call terminates, leaves no file descriptor open and closes none but its own, each once, and files over 65534 bytes are refused while smaller ones are not.",
 ["fault_sequences","crash_points"],"all points at which a read or write can be short, interrupted or fail, all target kinds (missing, directory, read-only, full device, growing or shrinking file)",
 "tests run on a healthy file system with files read in one call",
 [J],[("read loop",J+":File::ReadFile"),("write loop",J+":File::WriteFile/operator<<"),("descriptor lifetime",J+":File::CloseFile"),("size limit",J+":StructuredData::Parse(fileName)")],
 ["return statuses","file bytes","/proc/self/fd"])
p("C12","Running out of memory is reported, not fatal",
 "If any single memory allocation fails (operator new throws) during parsing, validating, deserializing, serializing or writing, in the library or in the functions the user wrote for a type or in the copying of its objects, the call returns the exception status, or succeeds with a correct result where the allocation was dispensable; the process is not terminated, nothing is leaked or freed twice, and the document and target objects can afterwards be reused or destroyed normally.",
 ["fault_sequences"],"every allocation index of every operation, over varied documents and types",
 "no test makes an allocation fail",
 [H,J,A,S],[("exception barrier",H+":MayThrow"),("cleanup on failed insertion",J+":ArrayValue::Parse/ObjectValue::Parse"),("container growth",A+":SetReservedCount, "+S+":Resize")],
 ["statuses under injected std::bad_alloc","heap balance","AddressSanitizer"])
p("C13","Distinct documents and concurrent readers are free of data races",
 "Threads that work on their own documents, and threads that only read a shared document (walk, query, validate, deserialize from it, write it to files of their own), never race: every thread obtains the results it would obtain alone, under every interleaving.",
 ["schedules"],"all interleavings of threads using separate documents and of readers of one document",
 "all tests are single-threaded",
 [J,H,T],[("no mutable global state",J),("const queries",J+":ObjectValue::Find*")],
 ["ThreadSanitizer reports","per-thread results"])
p("C14","The ordered map behaves as a mathematical map and stays balanced",
 "For every history of insertions, replacing insertions, removals, detachments, deletions, transfers between maps, clearing and lookups, the map holds exactly the elements an ideal ordered map would hold: lookups find an element iff it is present, iteration forward and backward visits all of them once in key order, and element count, membership and ownership agree. At every element the heights of its two subtrees differ by at most one, so its height stays logarithmic, and clearing or destroying deletes each element exactly once.",
 ["histories"],"all operation histories over all key sets and orders",
 "tests insert three keys in one order and never remove or replace",
 [M,MH],[("rotations",M+":RotateLeft/RotateRight/ZigZagLeft/ZigZagRight"),("removal rebalancing",M+":RemoveBranchNode/RemoveMapElement"),("replacement",M+":ReplaceMapElement"),("descent",MH+":InsertMapElement/FindMapElement")],
 ["public Map/MapElement interface after every operation"])
p("C15","Strings behave as values under every operation history",
 "For every history of construction, copying, moving, assignment and appending (including assigning or appending a string, or a part of it, to itself), length changes, case and character replacement, escaping, concatenation and comparison, a dynamic string equals the text an ideal string would hold, its reported length is the length of its text, and it is NUL-terminated, whether it is stored inline or on the heap (the NUL character is not part of any text, and the characters a longer length adds are unspecified until written). Fixed-capacity strings hold the same text truncated to their capacity, and no operation touches memory outside the string or changes another string.",
 ["histories","inputs"],"all operation histories over all lengths, in particular around the inline/heap and allocation-size boundaries",
 "tests only construct, assign and compare short strings",
 [S,SH],[("inline/heap switching",S+":Resize/SetStringLength"),("growth",S+":operator+=/AppendString"),("move",S+":String(String&&)/operator=(String&&)"),("truncation",SH+":String<len>")],
 ["public String interface after every operation"],[("logicalSize/physicalSize","used and available bytes",SH+":String<0>")])
p("C16","Arrays behave as sequences and manage element lifetimes exactly",
 "For every history of appending, inserting, removing, resizing, reserving, clearing, purging, copying and moving, an array holds exactly the sequence an ideal sequence would hold, with its elements constructed once and destroyed once and unaffected by growth (an element passed by reference must not lie in the array itself). This holds for arrays with and without built-in storage and for elements that own resources.",
 ["histories"],"all operation histories, sizes around growth and inline-storage boundaries, trivially copyable and resource-owning elements",
 "tests only append through deserialization",
 [A],[("growth",A+":SetReservedCount"),("insertion and removal shifting",A+":InsertArrayElement/RemoveArrayElement"),("copy and move",A+":Array(const Array&)/Array(Array&&)")],
 ["public Array interface after every operation","element constructor/destructor events"])
p("C17","Text primitives agree with their Unicode and ordering definitions",
 "For every input the UTF-8 validation, reading, writing, counting and UTF-8/UTF-16 conversion functions agree with the Unicode encoding definitions (an ill-formed byte is read as U+FFFD of one byte, a lone UTF-16 surrogate is dropped; encoded surrogates are outside), the comparison functions agree with byte-wise (or ASCII-caseless) lexicographic order and with each other, numbered comparison orders runs of digits by their value, the search, copy and scanning functions agree with their plain definitions, and integer formatting yields the exact decimal digits over the whole range of its type, while float formatting yields a number near the value. Searching for an empty text is left open. None of them reads past a terminator or writes past the stated maximum.",
 ["inputs"],"all byte strings, code points, integers and length limits",
 "no test calls these functions directly",
 [T,TH,S,SH],[("UTF-8 codec",T+":ValidateUnicodeChar/ReadUnicodeChar/WriteUnicodeChar"),("UTF-16 codec",T+":ConvertWideTextToString/ConvertStringToWideText"),("comparators",T+":CompareText*"),("formatting",T+":IntegerToString/Integer64ToString")],
 ["return values and output buffers surrounded by guard bytes"])
p("C18","Parsing and writing take resources proportional to the text",
 "For every text the memory allocated while parsing it, and the work done to parse it, look its names up, write it, and convert it to and from user types, grow at most proportionally to its length (for writing: the length of the text written, indentation included), up to a logarithmic factor for objects: no input makes them grow quadratically or worse. The stack used grows with the nesting alone, not with the length, and 1 MB of it suffices for every text.",
 ["inputs"],"all texts, in particular families that grow one dimension: depth, array length, object size, string length, number length, whitespace, repeated names, failing suffixes",
 "tests use files of a few hundred bytes and measure nothing",
 [J,A,S,M],[("single pass descent",J+":ParseAnyValue"),("amortized growth",A+":SetReservedCount"),("balanced lookup",M)],
 ["executed basic-block counts","allocation counts and bytes","depth of the stack"])
p("C19","Name lookup returns the right value or nothing",
 "For every object and name, a typed query (string, number, boolean, null, array, object) returns the value stored under exactly that name if it has that kind, and nothing if the name is absent or the value has another kind; names are compared byte for byte over their whole length. Each value reports exactly one kind.",
 ["inputs"],"all objects and all queried names, including prefixes, extensions, case variants and non-ASCII neighbours of present names",
 "one example queries one number; tests query three map keys",
 [J,H,MH,T],[("typed lookup",J+":ObjectValue::Find*"),("kind accessors",H+":GetDataAsPointerTo/AsJsonObjectValue"),("key order",T+":CompareTextLessThan")],
 ["Find* results"])
p("C20","All build configurations give the same results",
 "For every text and operation sequence, the library built without std support, without exceptions, as a shared library, optimised or not, and by either compiler, returns the same statuses, positions, trees and written bytes as the default build.",
 ["configurations","inputs"],"all supported build configurations times all inputs",
 "the tests are built once in the default configuration",
 [J,H,"CMakeLists.txt"],[("configuration macros",H+":JSON4C4_ENABLE_STD_SUPPORT_INTERNAL"),("exception barrier",H+":MayThrow"),("export macros","Code/Terathon/TSPlatform.h")],
 ["event trace of statuses, trees and bytes per configuration"])
p("C21","Scalar math and integer helpers agree with their definitions",
 "For every argument in its domain each scalar function of the math and basic headers gives the mathematical result: floor, ceiling, fraction, absolute value, minimum, maximum, clamping and saturation exactly, for every finite float; square root, inverse square root, exponential, logarithm and power to a relative error of a few millionths, overflow giving infinity and underflow (almost) zero; sine, cosine and tangent (for arguments up to ten thousand radians, away from the poles) and the inverse functions to an absolute error of a few ten-millionths that grows with the argument's own rounding. The integer helpers (sign, minimum, maximum, clamping, powers of two, leading zeros, population, exchange) give the exact result for every representable argument, including the least and greatest, and the combined functions (cosine and sine, floor and ceiling) agree with the single ones. With and without vector instructions the same limits hold.",
 ["inputs","configurations"],"all floats and integers in the domain of each function; builds with and without vector instructions",
 "no test calls these functions",
 ["Code/Terathon/TSMath.cpp","Code/Terathon/TSMath.h","Code/Terathon/TSBasic.h"],[("table and polynomial evaluation","Code/Terathon/TSMath.cpp:Sin/Cos/Tan/CosSin/Arctan/Exp/Log"),("bit manipulation","Code/Terathon/TSBasic.h, Code/Terathon/TSMath.h"),("rounding","Code/Terathon/TSMath.h:Floor/Ceil/FloorCeil")],
 ["return values"])
p("C22","Vector operations agree lane by lane with their scalar definitions",
 "For every content of the vector registers each vector operation gives in every lane it defines the result its name states for the scalars in that lane: loads, stores, shuffles, transpositions, selections, logic and comparisons bit for bit; addition, subtraction, multiplication, minimum, maximum, rounding and conversions as the scalar operation does; dot products, cross products, divisions, square roots and fused operations within rounding. Loads and stores touch exactly the bytes of the lanes they name and no byte beside them. The same holds for the wider registers where the processor has them.",
 ["inputs","configurations"],"all register contents (finite, special, arbitrary bit patterns), all lane selections, 128-bit and 256-bit registers",
 "no test uses a vector operation",
 ["Code/Terathon/TSSimd.h"],[("intrinsic wrappers","Code/Terathon/TSSimd.h:Vec*"),("wide wrappers","Code/Terathon/TSSimd.h:Exv*")],
 ["lanes of the results","guard bytes around loads and stores"])
p("C23","Edits made through the tree take effect exactly",
 "A document can be edited in place through its tree: assigning texts, numbers and booleans; appending, inserting, exchanging, replacing and removing the elements of an array; moving values into an object by name, where InsertAccountedMapElement refuses a name that is taken and InsertReplaceAccountedMapElement puts the new value in the old one's place and hands the old one back; purging an object; serializing an object of any type under a name of an object, or into a value that is there, which replaces its content and is refused with the invalid-value-type status, changing nothing, if the value is of another kind. After every history of such edits, in any order, at any depth and between documents, queries, iteration, validation, deserialization and writing see exactly the edited tree; values not edited keep their address and content; a replaced member keeps its place and a new one comes last; each value belongs to exactly one owner and is released once; a document holding a number without text is refused by Write; and the document can afterwards be parsed or serialized into as if it were new. Not covered: removing or renaming members behind the object's back.",
 ["inputs","histories"],"all documents and serialized objects, all histories of edits",
 "a test builds one object and reads it back; edits interact with each other (names freed and taken again, values moved, storage grown) and with what was parsed before",
 ["Code/Json4C4/C4Json.h","Code/Json4C4/C4Json.cpp","Code/Terathon/TSMap.h","Code/Terathon/TSArray.h"],[("insertion into an object","Code/Json4C4/C4Json.h:ObjectValue::InsertAccountedMapElement"),("replacement","Code/Json4C4/C4Json.h:ObjectValue::InsertReplaceAccountedMapElement"),("writing","Code/Json4C4/C4Json.cpp:StructuredData::Write")],
 ["the tree after each edit against the model","addresses of values","written text read back","typed results after edits","leaks and double releases"])
p("C24","Deserializing into an object in use updates it exactly",
 "For every object, whatever it already holds, and every document that fits its type, deserialization leaves in each text, number, flag, Array and std::vector the document's value alone, with nothing of the earlier value; ObjectMap and std::map hold for each of the document's names the document's value, where an element that was there is updated in place in the same way, and keep their elements of other names unchanged and where they were; members of optional names the document lacks keep their value. The object depends on the document no longer once the call has returned. This holds for any number of documents one after another, also when documents that do not fit (which are refused with their status) came between.",
 ["inputs","histories"],"all types, all earlier contents, all sequences of fitting and unfitting documents",
 "tests deserialize each object once, when it is fresh",
 [H,J],[("replacement of sequences",H+":Deserialize(Array/std::vector)"),("update of maps",H+":Deserialize(ObjectMap/std::map)"),("optional fields",H+":DeserializeProto(Optional)")],
 ["the object after each document against the model","addresses of map elements","serialization of the object","leaks"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x["title"]) for x in P))
