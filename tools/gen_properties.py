#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only to keep the JSON lines readable).
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

R="include/Srl/Resolve.hpp"; TH="include/Srl/Tree.hpp"; N="src/lib/Node.cpp"; E="src/lib/Environment.cpp"
J="src/lib/PJson.cpp"; M="src/lib/PMsgPack.cpp"; S="src/lib/PSrl.cpp"

p("C01","Stored objects restore to equal objects in every format",
 "For every supported C++ type and every value of it, storing an object as JSON (compact or spaced), MessagePack or Srl and restoring it into an object of the same type gives an equal object: every number, string, blob, container (with its order), pair, tuple, array, nested struct and pointer target survives unchanged, and null pointers stay null. The same holds whichever way the object travels: direct store/restore, through a Tree document (load_object, to_source, load_source, unwrap/paste), or named pack/unpack items. Only the sign of zero in JSON is not preserved, and JSON has no NaN or infinity.",
 ["inputs","programs"],"all supported field types composed to arbitrary struct shapes, all values incl. extremes, empty/long strings and containers, x 4 formats x 3 routes",
 "The tests round-trip a few fixed structs with a handful of values; type x value x format x route combinations and sizes at encoding boundaries are not sampled.",
 [R,TH,"include/Srl/Context.hpp",N,J,M,S],
 [("per-type store/paste rules","include/Srl/Resolve.hpp Switch<T>"),("lazy restore from the parser","src/lib/Node.cpp consume_value/consume_node")],
 ["Tree::store/restore","Tree::load_object/to_source/load_source","Tree::pack/unpack"])

p("C02","Documents survive write, load and format conversion",
 "A document (scopes, names and values of every kind) written in any format and loaded again has the same scope types, names, values and orders (values among the values of a node, child nodes among the child nodes), and this stays true through any chain of conversions between JSON, MessagePack and Srl. Numbers keep their exact value; text formats may only turn binary data to its base64 text and integral floating-point numbers to integers (JSON additionally drops the sign of zero and has no NaN or infinity). Writing a loaded document again is stable: it reproduces the same document.",
 ["inputs","histories"],"all document trees x all chains of formats",
 "Tests convert one fixed document between the formats.",
 [N,E,J,M,S,"src/lib/Tree.cpp"],
 [("generic read/write event interface","include/Srl/Parser.h"),("type conversion for text formats","src/lib/Environment.cpp conv_type")],
 ["Tree::load_source","Tree::to_source","Node accessors"])

p("C03","JSON output is valid RFC 8259 JSON with exactly the stored content",
 "Whatever is stored (any names, any strings incl. quotes, backslashes, control and non-ASCII characters, any finite number), the JSON written is well-formed UTF-8 JSON that an independent strict parser accepts and reads back as exactly the stored names and values. Spaced and compact output differ only in whitespace outside of strings, and binary data appears as standard base64 text.",
 ["inputs","configurations"],"all documents with finite numbers x compact/spaced x object, document and pack routes",
 "Tests only read JSON output back with the library itself, so an error that writer and reader share stays invisible.",
 [J,E,"src/lib/ToolsStrConv.cpp","include/Srl/Out.hpp"],
 [("escaping","src/lib/PJson.cpp write_escape"),("number text","src/lib/ToolsStrConv.cpp conv_type"),("spacing","src/lib/PJson.cpp insert_spacing")],
 ["bytes produced by Tree::store/to_source/pack with PJson"])

p("C04","Any valid JSON object or array is loaded with its exact meaning",
 "Every well-formed JSON text whose top level is an object or array loads successfully, however it is laid out (any whitespace, any number notation, any string escapes incl. \\uXXXX and surrogate pairs) and gives exactly the names, values and nesting the JSON standard assigns; numbers take the exact integer value where it fits 64 bits and otherwise the nearest double. Comments (// and /* */) between tokens are ignored.",
 ["inputs"],"all RFC 8259 texts (object/array roots, nesting within the limit) plus documented comments",
 "Tests parse a couple of fixed snippets; the JSON grammar is unbounded and other producers use layouts the library's own writer never emits.",
 [J,"include/Srl/In.hpp","src/lib/ToolsStrConv.cpp"],
 [("tokenizer","src/lib/PJson.cpp read"),("unescape","src/lib/PJson.cpp read_unescape"),("literals","src/lib/ToolsStrConv.cpp str_to_type")],
 ["Tree::load_source<PJson>"])

p("C05","MessagePack output conforms to the MessagePack specification",
 "Everything written in MessagePack format is decodable by any conforming MessagePack decoder, uses the whole output with nothing left over, and denotes exactly the stored data: maps with string keys for objects, arrays for arrays, big-endian lengths and numbers, bin for binary, str for UTF-8 text, with correct element counts at every nesting level.",
 ["inputs"],"all documents and objects, sizes across every length-prefix boundary (31/32, 255/256, 65535/65536) x vector and stream output",
 "Tests read the output with the library's own reader only, so a shared misreading of the format is invisible, and never cross 16/32 bit length boundaries.",
 [M,"include/Srl/Out.hpp"],
 [("prefix and length writing","src/lib/PMsgPack.cpp write_str/write_bin/write_scalar"),("element count back-patching","include/Srl/Out.hpp Ticket")],
 ["bytes produced by Tree::store/to_source/pack with PMsgPack"])

p("C06","Any valid MessagePack document is loaded with its exact meaning",
 "Every well-formed MessagePack document with a map (string keys) or array at top level, in any of the encodings the specification allows for a value (minimal or not: fix/8/16/32-bit forms of integers, strings, binaries, arrays and maps, both float widths), loads to exactly the data it denotes. Encodings the library does not support (reserved byte 0xC1, extension types) are rejected with an exception, never read as data.",
 ["inputs"],"all encodings choices per value x all documents",
 "Tests only load what the library itself wrote, which uses one fixed encoding for each container size.",
 [M,"include/Srl/In.hpp"],
 [("prefix dispatch","src/lib/PMsgPack.cpp read")],
 ["Tree::load_source<PMsgPack>","Tree::restore with PMsgPack"])

p("C07","The Srl wire format is stable and self-consistent",
 "The Srl format is a persistent wire format: output bytes follow the established layout exactly (flag byte, little-endian base-128 lengths and integers, IEEE little-endian floats), and each distinct field name is spelled out once per document and referenced by its index afterwards. Documents written earlier, in that layout, keep loading with the same meaning.",
 ["inputs","histories"],"all documents, names repeated any number of times in any scopes, >127 and >16383 distinct names, both directions against an independent codec of the layout",
 "Tests only round-trip through the same build; a symmetrical change of reader and writer breaks all existing data and passes.",
 [S],
 [("flags, varints","src/lib/PSrl.cpp"),("name table","src/lib/PSrl.cpp write_head/read_head")],
 ["bytes of Tree::to_source<PSrl>/store","Tree::load_source<PSrl>"])

p("C08","Untrusted input is handled safely: loaded or rejected, never a crash",
 "For every byte sequence given as a JSON, MessagePack or Srl document, from memory or from a stream, loading, restoring into any type, or unpacking either succeeds or throws an exception derived from std::exception; it never reads or writes outside its buffers, triggers undefined behaviour, crashes, loops forever, or allocates memory out of proportion to the input. Afterwards the target object, the Tree and the parser are still usable and destructible.",
 ["inputs"],"all byte strings: random, grammar-built, mutated and spliced valid documents, hostile length fields x 3 formats x memory/stream x load/restore/unpack",
 "The malicious-input tests try a dozen hand-written inputs.",
 ["include/Srl/In.hpp","src/lib/In.cpp",J,M,S,N,R],
 [("bounds-checked input","include/Srl/In.hpp peek/read_block"),("type checks","include/Srl/Resolve.hpp check_*")],
 ["AddressSanitizer/UBSan","peak allocation","exceptions"])

p("C09","Truncated documents are rejected",
 "Loading a document that was cut short at any point before its end (in any format, from memory or a stream) is reported with an exception; it is never silently accepted as a smaller document. Restoring or unpacking objects from it either throws too or, where everything requested came before the cut, gives exactly the complete original objects: never shortened, altered or stale data.",
 ["inputs","crash_points"],"every strict prefix of every document x formats x memory/stream",
 "Tests truncate nothing or one place only.",
 ["include/Srl/In.hpp","src/lib/In.cpp",J,M,S],
 [("end-of-input errors","src/lib/*.cpp error functions"),("scope end detection","src/lib/PMsgPack.cpp read")],
 ["Tree::load_source/restore on prefixes"])

p("C10","Streams and memory buffers are equivalent",
 "Reading a document from any std::istream gives the same result as reading the same bytes from memory, and writing to any std::ostream produces exactly the bytes a vector gets, regardless of document size, token sizes, chunking by the stream, or the stream's initial position; content already in the output stream stays untouched, and a stream where this is impossible is refused with an exception instead of being corrupted.",
 ["inputs","configurations"],"all documents (crossing the internal chunk size many times) x stream kinds (stringstream, file, short-read streambuf) x start offsets",
 "Tests use streams with small documents, at position zero, with one streambuf type.",
 ["src/lib/In.cpp","include/Srl/In.hpp","src/lib/Out.cpp","include/Srl/Out.hpp"],
 [("refill with preserved tail","src/lib/In.cpp try_fetch_data"),("segment flushing and back-patching","include/Srl/Out.hpp")],
 ["Tree::load_source(istream)","Tree::to_source/store/pack(ostream)"])

p("C11","Numeric conversions are exact or refused",
 "Reading a number into any numeric type, from a value of any other numeric type or from text, either yields the mathematically right result (same value; truncated toward zero when a fraction goes to an integer; nearest representable when going to floating point) or throws; it never wraps, saturates, changes sign or yields an arbitrary number. Text denotes the exact integer if that fits 64 bits and otherwise the nearest double, which is then converted likewise. Every value in range is accepted and everything out of range, including NaN and infinities to integers, is refused.",
 ["inputs"],"all pairs of numeric types x all values, in particular both sides of every type's limits x value/text/format routes",
 "Tests check three overflow cases.",
 ["include/Srl/TpTools.h","src/lib/ToolsStrConv.cpp",R],
 [("range checks","include/Srl/TpTools.h try_apply/overflows"),("text to number","src/lib/ToolsStrConv.cpp str_to_int")],
 ["Value::unwrap/paste","Node::unwrap_field","Tree::restore"])

p("C12","Fields are matched by name: order, extra and optional fields never matter",
 "Restoring a struct finds its named fields wherever they appear in the document: any permutation, unknown additional fields (scalars or arbitrarily nested scopes) anywhere and at any level never change what is restored, to this object or to any that follow it. A missing optional field leaves the member untouched, a missing required field is an exception, after which a resolve function handling it finds all other fields as before; positional fields are taken in order. A resolve function is told whether it's storing or restoring, exactly once per object, and can access its fields through the context's node with the same result. The same holds for unpack of any subset of the packed items in any order.",
 ["inputs","programs"],"all struct shapes x permutations x injected unknown fields x absent fields x nested containers of structs x formats x direct/document restore",
 "Tests restore documents in the order they were written, with at most one unknown field.",
 [N,"include/Srl/Context.hpp","include/Srl/Node.hpp"],
 [("lazy field search and buffering","src/lib/Node.cpp consume_*"),("skipping of unread content","src/lib/Node.cpp consume_scope"),("optional fields","include/Srl/Context.hpp paste")],
 ["Tree::restore","Tree::unpack","Node::paste_field"])

p("C13","The document editing API behaves like a simple tree of fields",
 "After any sequence of insert, remove (by name, index, pointer) and lookup operations on nodes of a tree, every accessor (counts, has/get/try_get, value/node by name or index, find/all/foreach, recursive or not, iteration order) reports exactly what a plain model of ordered named values and ordered named child nodes would; absent names and indexes are reported by exception, empty result or false as documented, never by undefined behaviour.",
 ["histories"],"all operation sequences on several nodes incl. duplicate and hash-colliding names, empty names, names in other encodings, inserting nodes from the same or another tree",
 "Tests insert and remove a handful of fields in one order.",
 [N,"include/Srl/Node.h","include/Srl/Node.hpp",E],
 [("field lists with hashed names","src/lib/Node.cpp find_link"),("string interning","src/lib/Environment.cpp store_string")],
 ["Node public interface"])

p("C14","Checked access (Union, get, try_get, unwrap_if) never lies",
 "A Union obtained from a document tells exactly whether it denotes a value or a node; unwrap, copy_to and conversion give the right value or throw, get on a missing field or a non-node throws, and the try_get / unwrap_if variants never throw but give an empty result exactly in the cases where the throwing form throws.",
 ["inputs","programs"],"all documents x all fields x all requested types x chains of get/try_get",
 "Tests try four accesses.",
 ["include/Srl/Union.hpp","include/Srl/Union.h",N],
 [("node/value discrimination","include/Srl/Union.hpp check_*")],
 ["Union public interface","Tree::get/try_get","Node::operator[]"])

p("C15","HTable behaves like an associative map under any operation history",
 "After any sequence of insert, upsert, get, remove, remove_if, extract, clear and move operations an HTable contains exactly the entries an ordinary map would, with correct results and counts, each entry visited exactly once by foreach, foreach_break and iteration, whatever the hash distribution, initial bucket count and load factor; pointers to entries stay valid until that entry is removed.",
 ["histories"],"all operation sequences x colliding hash functions x bucket counts/load factors x key and value types with non-trivial lifetime",
 "Tests insert a few keys once.",
 ["include/Srl/Hash.h","include/Srl/Hash.hpp","src/lib/Hash.cpp"],
 [("chained buckets, rehash","include/Srl/Hash.hpp redistribute"),("entry recycling","include/Srl/Hash.hpp mem_cache")],
 ["HTable public interface"])

p("C16","Shared objects are restored as the same shared graph",
 "When shared_ptr/weak_ptr members refer to common objects, the object graph restored from any format, its fields being read in the order they were stored, has the same sharing: pointers that were equal are equal, pointers that were different are different, values are right, whichever member (shared or weak, at whatever depth) refers to an object first, and each store starts afresh so repeated stores give complete, identical documents. A key which refers to an object that isn't of the required class, nor convertible to it, or to nothing at all is refused with an exception.",
 ["inputs","histories"],"all acyclic sharing graphs over several types, incl. containers of shared pointers and polymorphic targets x formats x repeated store on one Tree",
 "Tests have one pair of pointers to one object.",
 [R,N,E],
 [("shared key tables","src/lib/Environment.cpp/Node.cpp insert_shared/find_shared")],
 ["Tree::store/restore with shared_ptr/weak_ptr"])

p("C17","Polymorphic objects keep their dynamic type",
 "An object stored through a base-class pointer (raw, unique or shared, alone or in containers) is restored with its registered dynamic type and all of its fields; an unknown, missing or ill-typed type identifier is reported with an exception and leaves the restored-to object valid.",
 ["inputs"],"all mixes of registered types in all pointer kinds and containers x formats x field orders x corrupted type ids",
 "Tests use one class hierarchy with two objects.",
 [R,"include/Srl/Registration.h","src/lib/Registration.cpp"],
 [("type registry","src/lib/Registration.cpp"),("type id field","include/Srl/Resolve.hpp Switch<polymorphic>")],
 ["Tree::store/restore with base pointers"])

p("C18","Reusing a Tree or parser is the same as using fresh ones",
 "After any history of operations on a Tree and on parser objects (store, restore, load, write, pack, unpack, clear, move of the Tree, successful or failed by exception at any point) the next operation has the same result as on freshly constructed objects: nothing of earlier documents leaks into later ones.",
 ["histories","fault_sequences"],"all sequences of operations over shared Tree/parser objects, incl. operations that fail on corrupt input, throwing user code or failing output",
 "Tests reuse a Tree in two fixed orders and never after a failure.",
 ["src/lib/Tree.cpp",TH,E,J,M,S],
 [("clear on reuse","src/lib/Tree.cpp clear, parsers' clear()")],
 ["Tree and parser public interface"])

p("C19","Text keeps its characters across encodings",
 "Strings and field names given as UTF-8, UTF-16 or UTF-32 (std::basic_string, character arrays, literals, single characters) denote the same text: they are written as UTF-8, can be looked up and restored in any of the encodings, and always come back as the same sequence of characters, for all of Unicode and all lengths. Ill-formed text, where it has to be converted to another encoding, is refused with an exception or yields an empty result, never garbage characters or memory errors.",
 ["inputs"],"all Unicode strings x source encoding x target encoding x string type x names/values x buffer offsets",
 "Tests convert a few short literals.",
 ["src/lib/ToolsStrConv.cpp","include/Srl/String.hpp","include/Srl/Tools.hpp",R,E],
 [("charset conversion","src/lib/ToolsStrConv.cpp conv_charset")],
 ["Srl::String","Tools::conv_charset","Node/Tree with wide strings"])

p("C20","Scalars and their text forms correspond exactly",
 "The text form of every number, boolean and null denotes exactly that value (floating-point text re-reads to the identical value with at most 17 significant digits, or is the exact integer), text that represents a value is read as exactly that value (integers exactly within 64 bits, otherwise the nearest double; true, false, null; surrounding whitespace ignored), and text that represents none is refused. Numbers can be stored as numbers and read as text, or as text and read as numbers, with the same result.",
 ["inputs"],"all scalar values of all types; all strings near the number grammar",
 "Tests try a dozen numbers.",
 ["src/lib/ToolsStrConv.cpp","src/lib/fpconv/fpconv.c","include/Srl/Tools.h"],
 [("grisu float printing","src/lib/fpconv/fpconv.c"),("integer printing/parsing","src/lib/ToolsStrConv.cpp")],
 ["Tools::type_to_str/str_to_type","Value::unwrap<std::string>"])

p("C21","Binary payloads and their base64/hex forms are exact",
 "base64 and hex encoding follow the standards, decoding inverts encoding for every byte sequence, and malformed text is refused with an exception without touching memory outside the destination. Binary members (BitWrap, VecWrap, Bytes) come back with exactly the stored bytes in every format, asking the allocator for exactly the needed size once, and a payload which does not fit the target's element type is refused.",
 ["inputs"],"all byte strings of all lengths; all corruptions of the encoded text; all payload sizes x formats",
 "Tests encode one string.",
 ["src/lib/ToolsBtsConv.cpp",R,"include/Srl/BitWrap.h"],
 [("codecs","src/lib/ToolsBtsConv.cpp"),("alloc callback","include/Srl/Resolve.hpp Switch<BitWrap>")],
 ["Tools base64/hex functions","Tree::store/restore of binary wrappers"])

p("C22","The Heap hands out disjoint, aligned, stable memory",
 "Every block obtained from a Heap is writable over its full size, aligned for its type and disjoint from every other live block, and keeps its content until it is given back or the heap is cleared, for any sequence of requests, returns, clears and moves; clearing makes memory reusable and destruction releases everything.",
 ["histories"],"all sequences of get_mem (types and sizes), create, put_mem, clear, move",
 "No test addresses the allocator.",
 ["src/lib/Heap.cpp","include/Srl/Heap.h","include/Srl/Heap.hpp"],
 [("segment chain, free list","src/lib/Heap.cpp")],
 ["Lib::Heap interface"])

p("C23","Owned objects are destroyed exactly once, also when a restore fails",
 "Restoring into objects with owning members (raw and smart pointers, containers, polymorphic and shared objects) neither leaks nor destroys anything twice (raw pointers being owned by the library only where they are members themselves; the elements of containers of raw pointers are the user's to release): replaced objects are destroyed exactly once, and when the restore is aborted by an exception (of the library because of the input, or of user code) at any point, everything created so far is released and the target object can be destroyed, reassigned or restored to again.",
 ["inputs","fault_sequences"],"all object shapes x initial states x documents corrupted at every field x exceptions thrown by user code x formats",
 "Tests never restore over populated owners with a failing document.",
 [R,"include/Srl/Registration.h","include/Srl/Hash.hpp"],
 [("ownership in Paste","include/Srl/Resolve.hpp pointer Switches")],
 ["instance counters of user types","AddressSanitizer"])

p("C24","Nesting is limited, exactly and harmlessly",
 "Documents nested up to the supported depth of 128 scopes below the root load completely in every format, and deeper ones, however deep, are rejected with an exception on load, restore and unpack, instead of exhausting the stack; deep content which is never requested is rejected likewise or passed over harmlessly. The tree remains usable afterwards.",
 ["inputs"],"all nesting depths (around the limit to millions) x formats x object/array mixes x load/restore/unpack",
 "Tests try one depth for JSON.",
 [N],
 [("depth guard","src/lib/Node.cpp read_source")],
 ["Tree::load_source/restore/unpack"])

p("C25","Independent Trees can be used from different threads",
 "Threads that each use their own Tree, parsers, objects and buffers never influence each other: every operation has the result it has single-threaded and there are no data races, including on the shared registry of polymorphic types and all static tables.",
 ["schedules","programs"],"all sets of per-thread workloads x schedules",
 "The tests are single-threaded.",
 ["src/lib/Registration.cpp",R,N,"src/lib/ToolsBtsConv.cpp","src/lib/ToolsStrConv.cpp","include/Srl/TpTools.h"],
 [("no mutable globals","src/lib"),("read-only registry after start-up","src/lib/Registration.cpp")],
 ["ThreadSanitizer","per-thread results vs. single-threaded results"])

p("C26","Direct restore and document access accept and read the same data",
 "Restoring an object directly from a source and first loading the source to a document and pasting from that agree for every well-formed document: both succeed with equal objects or both throw. Data of the wrong shape (scalar for scope or the reverse, too few or too many elements for fixed-size arrays, wrong-length characters, non-numeric text for numbers, strings too long for character arrays) is refused by both.",
 ["inputs"],"all target types x all documents, well-typed, mutated and mismatched x formats",
 "Tests compare neither route on mismatching documents.",
 [R,N,"include/Srl/Node.hpp"],
 [("parsed/unparsed branches","include/Srl/Resolve.hpp, include/Srl/Node.hpp paste_field"),("shape checks","include/Srl/Resolve.hpp check_*")],
 ["Tree::restore vs Tree::load_source + Node::paste"])

p("C27","Malformed tokens are refused, never read as some other content",
 "A document containing something its format doesn't define is refused with an exception, wherever it stands and by every way of reading past it, and the tree stays usable. JSON: words that are neither a number, true, false nor null, a string where the colon after a name belongs, a repeated colon, \\u escapes without four hex digits, unpaired surrogates, a string or closing bracket outside of any scope. MessagePack: reserved and extension prefixes, keys that aren't strings. Srl: tokens without a type, indexes of names not defined yet, integers and sizes beyond 64 bits. All formats: a document whose root is a scalar, or which is empty.",
 ["inputs"],"all valid documents x places x malformed tokens of the format x ways of reading",
 "Tests feed a few fixed malformed JSON documents; no test has malformed MessagePack or Srl tokens, or damage inside of nested scopes.",
 [J,M,S,"include/Srl/TpTools.hpp"],
 [("JSON literal, string and escape processing","src/lib/PJson.cpp process_literal/process_string/unescape_unicode"),("MessagePack prefix dispatch","src/lib/PMsgPack.cpp read"),("Srl token heads and integers","src/lib/PSrl.cpp read_head/decode_integer/read_num")],
 ["Tree::load_source","Tree::unpack"])

p("C28","A document owns its content; references into it stay valid",
 "Whatever is put into a Tree (text, binaries, containers, objects, wraps, field names in any encoding, values and nodes of the same or other trees, loaded documents) is copied: the source can be changed, freed, cleared or destroyed right afterwards without any effect on the document, and neither does changing a copied node change its copy. Pointers and references to nodes, values and names stay valid and denote the same item until that item is removed or the document replaced, whatever else is inserted, removed or looked up, and also when the Tree is moved. Objects, bytes and containers obtained by unwrap, paste, restore or to_source don't depend on the document or source they came from.",
 ["histories","inputs"],"all histories of inserts, copies, removals, loads and moves over several trees x sources which go away x references held",
 "Tests keep every source alive, use each tree for a few steps and hold no references across modifications.",
 ["src/lib/Environment.cpp","include/Srl/Environment.h",N,TH,"src/lib/Tree.cpp","include/Srl/Heap.hpp","include/Srl/Blocks.h"],
 [("values and names copied to the tree's heap","src/lib/Environment.cpp store_value/store_string"),("deep copy of nodes of other trees","src/lib/Environment.cpp store_node"),("fields in linked lists","include/Srl/Environment.h Items")],
 ["Node::insert","Node/Value pointers and references","Tree::load_source/load_object","unwrap/paste/restore/to_source"])
p("C29","Running out of memory, or a throwing user function, leaves everything valid",
 "Whichever memory allocation fails while an operation is under way (inserting anything into a document, looking up, removing, copying nodes, writing, loading, storing, restoring, packing and unpacking objects with owning, shared and polymorphic members, inserting into, removing from, extracting from and updating an HTable, taking and giving back Heap memory), the failure arrives as an exception at the caller, or the operation succeeds completely. Afterwards all nodes, values, table entries and blocks which were there before are there, unchanged, at most a named, incomplete container or object is left of what was being inserted, counts agree with content, the operation works when repeated, everything can be destroyed, and no memory is leaked. The same holds for tables if a value's constructor or a predicate throws.",
 ["inputs","faults","histories"],"all operations x contents x points at which an allocation (or a user function) fails",
 "Tests never let an allocation fail and no test has functions which throw.",
 ["src/lib/Heap.cpp","include/Srl/Hash.hpp","src/lib/Environment.cpp","src/lib/Tree.cpp",N,TH,"src/lib/ToolsStrConv.cpp","include/Srl/Resolve.hpp"],
 [("values and names stored before they're linked","src/lib/Environment.cpp store_value/store_string"),("root node and environment","src/lib/Tree.cpp create_env"),("segments and free memory","src/lib/Heap.cpp alloc/put_mem"),("table growth, update and removal","include/Srl/Hash.hpp redistribute/insert_hash/remove_if")],
 ["Node::insert","Tree::load_source","Tree::store/restore","Tree::pack/unpack","HTable","Heap"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
