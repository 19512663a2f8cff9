#!/usr/bin/env python3
"""Writes properties.jsonl (single source of truth for ids, titles and statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "A refused allocation is reported as an error value, never a panic or abort",
 "Whenever the allocator refuses any one request, or every request from some point on, during a call whose signature can report failure (growing, filling, collecting, duplicating, boxing, formatting within the stated capacity, reading a bounded amount, inserting into or splitting maps and sets), the call returns normally with an error, or completes in full without the refused memory; it never panics, aborts the process or hangs. A size that cannot be represented or allocated is reported the same way, and a call during which nothing was refused and whose size is possible does not report an allocation error. (The shared-pointer constructors the documentation calls not completely fallible are outside this.)",
 ["fault_sequences", "inputs", "histories"],
 "every operation, in every reachable container state, for every position of the refused request (single or sticky) and every size including huge ones",
 "The tests only try a handful of impossible sizes on empty or one-element containers; no test refuses an ordinary request, so no insertion, clone, split, box or read is ever exercised under refusal.",
 ["src/vec.rs", "src/boxed.rs", "src/hashmap.rs", "src/format.rs", "src/arc.rs", "src/btree/map.rs", "src/btree/node.rs", "src/btree/set.rs"],
 [("reserve before every growth", "src/vec.rs FallibleVec impl"), ("box built through an exact reservation", "src/boxed.rs FallibleBox impl"), ("nodes allocated through the fallible box", "src/btree/node.rs split/push_level/new_leaf"), ("error value made without allocating", "src/hashmap.rs make_try_reserve_error")],
 ["return values of the public API under a fault-injecting global allocator"])

prop("C02", "A failed vector operation loses nothing and invents nothing",
 "When an operation on a vector (plain or wrapped) reports failure, every element that was in it before is still there, unmoved in order and unaltered, and the other vector of a two-vector operation is unchanged too; operations that promise to give the rejected element back return exactly that element. A bulk operation that duplicates elements and is stopped because a duplicate could not be made leaves the old elements followed only by duplicates of a leading part of what was requested. The vector stays fully usable afterwards.",
 ["fault_sequences", "histories", "inputs"],
 "every vector operation, from every content and spare capacity, for every failing request and every failing element duplicate",
 "Existing tests never make a non-empty vector's operation fail, never make an element's duplication fail part-way, and never look at the vector after an error.",
 ["src/vec.rs"],
 [("reserve first, mutate after", "src/vec.rs try_push/try_insert/try_append/try_resize*"), ("length advanced one element at a time", "src/vec.rs try_extend_with / try_extend_from_slice_no_copy"), ("element returned with the error", "src/vec.rs try_push_give_back/try_insert")],
 ["vector contents, returned element and result after each call"])

prop("C03", "Vectors behave as the plain sequence the calls describe",
 "In every history of successful calls, a vector holds exactly the sequence obtained by applying those calls in order to an ordinary list: push, insert at a position, append (which empties the source), resize with a value, with duplicates or with a generator called once per new element in order, extend from a slice, concatenate, clear, pop, in-place writes. Lengths, slices, iteration in every direction offered with its size estimates, and equality agree with that list at every point. Positions out of range panic and change nothing.",
 ["histories", "inputs"],
 "all interleavings of operations over several vectors, element kinds (bytes, words, odd sizes, zero-sized, over-aligned, heap-owning), growing and shrinking resizes, both vector types",
 "Tests check a few fixed single calls (clone of 100 equal numbers, two extends); resizing, inserting, appending, concatenating and multi-step histories are not tested at all.",
 ["src/vec.rs"],
 [("delegation to the standard vector after reserving", "src/vec.rs FallibleVec impl"), ("hand written extend and truncate loops", "src/vec.rs TryExtend/Truncate"), ("thin wrapper", "src/vec.rs TryVec")],
 ["contents, lengths, yields and equality through the public API"])

prop("C04", "Capacity promises: reserved room is usable without allocating",
 "After a successful reservation for n more elements (or creation with capacity n), the next n elements can be added by any of the vector operations without a single allocator request, so they cannot fail. An operation that fits in the current capacity makes no allocator request and leaves the capacity as it was; growth never lowers capacity, never yields less room than asked, and single-element growth is geometric so n pushes need only logarithmically many requests.",
 ["histories", "fault_sequences", "inputs"],
 "every content/capacity combination, every operation, with the allocator refusing everything once room is reserved",
 "One test checks one capacity sequence for byte slices; no test observes allocator traffic or uses reserved room while the allocator refuses.",
 ["src/vec.rs"],
 [("needs_to_grow overflow-checked test", "src/vec.rs needs_to_grow"), ("len == capacity test", "src/vec.rs try_push/try_insert"), ("amortised try_reserve", "src/vec.rs")],
 ["allocator request counts per call and the reported capacity"])

prop("C05", "Every element is destroyed exactly once and all memory is returned",
 "In every history, including calls that fail for lack of memory or because an element could not be duplicated, and partially consumed owning iterators, each element (key, value, boxed or shared content) handed to or duplicated by a collection is destroyed exactly once: when it is removed from or replaced in the collection, rejected, or when its collection goes away, and never while it is still reachable. When all collections are gone every block has been returned to the allocator with the size and alignment it was requested with, and no memory outside a live block is written.",
 ["histories", "fault_sequences", "inputs"],
 "all histories over vectors, boxes, shared pointers, hash maps, ordered maps and sets, with refusals at any request, tracked elements of several sizes/alignments including zero-sized",
 "No test uses an element with a destructor, counts destructions, or checks that blocks are returned.",
 ["src/vec.rs", "src/boxed.rs", "src/hashmap.rs", "src/btree/map.rs", "src/btree/node.rs"],
 [("raw writes and length updates", "src/vec.rs"), ("box re-assembled from a one element buffer", "src/boxed.rs"), ("node deallocation while ascending", "src/btree/map.rs IntoIter"), ("merge and pop_level free nodes", "src/btree/node.rs")],
 ["element destructor log and allocator ledger (layouts, canaries, outstanding blocks)"])

prop("C06", "The hash map is a faithful key-to-value map under any history",
 "At every point of every history of inserts, lookups, removals and duplications, a lookup returns the value of the last successful insert of an equal key not since removed, insert and remove return the previous value, the length is the number of distinct keys, and iteration (borrowed or owning) yields every entry exactly once. A call that reports failure leaves the map's entries exactly as they were. After creation with room for n entries the first n insertions make no allocator request. This holds with colliding hashes and for both the standard-library and the stand-alone build of the map.",
 ["histories", "fault_sequences", "configurations"],
 "all histories with colliding and spread keys, growth and tombstone patterns, refusals at any request, both builds",
 "The only hash map test checks one impossible reservation; insert, get, remove, iterate and clone are never tested.",
 ["src/hashmap.rs"],
 [("reserve then insert", "src/hashmap.rs insert"), ("pre-sized clone", "src/hashmap.rs try_clone")],
 ["results and contents of TryHashMap"])

prop("C07", "The ordered map is a faithful sorted key-to-value map under any history",
 "At every point of every history of inserts, removals, in-place updates, clears, bulk extensions and entry-style accesses (inspect, modify, insert-if-absent by value, closure or default, replace, remove) a lookup by key or by borrowed form returns the value last stored for that key, the previous value or entry is returned by replacing and removing calls, and the length and emptiness equal the number of distinct keys. A reference handed out for an inserted or found value refers to that key's value. Indexing an absent key panics and changes nothing.",
 ["histories", "inputs"],
 "all histories over key populations large enough for four-level trees, every insertion/deletion order pattern, key/value kinds including zero-sized and over-aligned",
 "The fork's documentation tests import the standard library's map, so the forked tree code is not executed by any test.",
 ["src/btree/map.rs", "src/btree/node.rs", "src/btree/search.rs"],
 [("search", "src/btree/search.rs"), ("insert with node splitting", "src/btree/map.rs VacantEntry::try_insert, src/btree/node.rs split"), ("remove with merge and steal", "src/btree/map.rs remove_kv/handle_underfull_node, src/btree/node.rs merge/steal_*")],
 ["results and contents of BTreeMap"])

prop("C08", "Ordered iteration yields each entry once, in order, from both ends",
 "For every map and set content, every iterator (shared, mutable, keys, values, mutable values, owning) yields exactly the stored entries in ascending key order from the front and descending order from the back, under any interleaving of front and back steps, never yielding an entry twice, and keeps returning nothing once exhausted. The reported remaining length and size bounds are exact after every step, clones of an iterator continue independently from the same position, and writes made through mutable iterators land in the entry yielded.",
 ["histories", "inputs"],
 "all contents and tree shapes reachable by any history and all interleavings of front/back steps, including stopping part-way and dropping",
 "No test iterates the forked map or set; documentation examples run against the standard library.",
 ["src/btree/map.rs", "src/btree/set.rs", "src/btree/node.rs"],
 [("leaf edge handles walking through parent links", "src/btree/map.rs Range/RangeMut/IntoIter next_unchecked, next_back_unchecked"), ("length counted iterators", "src/btree/map.rs Iter/IterMut/IntoIter")],
 ["sequences of yields, len() and size_hint()"])

prop("C09", "Range queries yield exactly the entries inside the bounds",
 "For every map or set content and every pair of included, excluded or absent bounds, whether or not the bounds are stored keys, a range (shared or mutable) yields exactly the entries inside it, ascending from the front and descending from the back under any interleaving, and nothing more once the two ends meet. A start above the end, or equal excluded bounds, panics and leaves the collection unchanged.",
 ["inputs", "histories"],
 "all contents and shapes, all bound kinds and positions, all interleavings of front/back steps",
 "No test runs a range query on the forked tree.",
 ["src/btree/map.rs", "src/btree/search.rs", "src/btree/set.rs"],
 [("two-sided descent", "src/btree/map.rs range_search"), ("front == back termination", "src/btree/map.rs Range/RangeMut")],
 ["sequences of yields of range/range_mut"])

prop("C10", "Splitting off and appending partition and merge ordered collections exactly",
 "Splitting a map or set at a key (stored or not) leaves exactly the smaller entries in the original and puts exactly the entries at or above the key in the result; appending moves every entry of the other collection into this one, leaves the other empty, and for keys in both keeps the other's entry. Both collections have correct lengths, remain fully operational under any further history, and undoing a split by an append restores the original content.",
 ["histories", "inputs"],
 "all pairs of contents and shapes (sizes up to four-level trees), all split points, overlapping, interleaved and disjoint appends, followed by further operations",
 "No test calls these on the forked tree; shape repair along the cut (merging and bulk stealing at several levels) depends on sizes no example reaches.",
 ["src/btree/map.rs", "src/btree/node.rs", "src/btree/set.rs"],
 [("suffix moving and border repair", "src/btree/map.rs split_off/fix_left_border/fix_right_border, src/btree/node.rs move_suffix/bulk_steal_*"), ("sorted merge and bulk build", "src/btree/map.rs append/from_sorted_iter/fix_right_edge")],
 ["contents, lengths and later behaviour of both collections"])

prop("C11", "A failed ordered-map operation leaves the map exactly as it was",
 "When inserting, entering, splitting off or duplicating an ordered map or set reports an allocation failure, whichever of the requests made on the way was refused, the collection has the same entries, length and iteration as before the call, no entry is lost or duplicated, and every later operation behaves as if the failed call had not been made. The rejected key and value are destroyed exactly once and no memory stays allocated on behalf of the failed call.",
 ["fault_sequences", "histories"],
 "every reachable tree shape (including full paths that split at several levels) and every position of the refused request, singly and repeatedly",
 "No test refuses a node allocation; multi-level splits need specific shapes plus a refusal at the second or later request.",
 ["src/btree/map.rs", "src/btree/node.rs"],
 [("length bookkeeping around the fallible insert", "src/btree/map.rs VacantEntry::try_insert"), ("node allocation during split and root growth", "src/btree/node.rs split/push_level"), ("partially built clone is an owned map", "src/btree/map.rs try_clone")],
 ["contents and later behaviour after an error result"])

prop("C12", "Ordered-map cost stays logarithmic and memory proportional to content",
 "After any history of inserts, removals, splits and appends, looking up, inserting or removing a key performs a number of key comparisons logarithmic in the current number of entries, and the number of memory blocks held by the collection is proportional to its current number of entries (none when it was never filled). This holds in particular after mass removals, repeated split-and-append cycles and sorted insertion orders.",
 ["histories"],
 "all histories, including adversarial insertion orders and shrinking after growth",
 "No test counts comparisons or blocks; degradation shows only after long histories.",
 ["src/btree/map.rs", "src/btree/node.rs"],
 [("node capacity 11 and splitting at the middle", "src/btree/node.rs"), ("underflow handling and pop_level", "src/btree/map.rs remove_kv"), ("border repair", "src/btree/map.rs fix_*")],
 ["comparison counts of instrumented keys, outstanding block count"])

prop("C13", "Set algebra and set predicates match mathematical sets",
 "For every pair of ordered sets, including empty, equal, nested, disjoint, interleaved and very differently sized ones, difference, symmetric difference, intersection and union (lazy and operator forms) yield exactly the mathematical result in ascending order without duplicates, their size bounds always enclose what is really still to come, and they keep returning nothing once exhausted. Subset, superset and disjointness answers agree with the mathematical definitions.",
 ["inputs", "histories"],
 "all pairs of sets over small universes exhaustively, and random pairs with size ratios on both sides of every strategy threshold",
 "Documentation examples use the standard library's set with two-element sets; the strategy switch at a 16-fold size difference is never reached.",
 ["src/btree/set.rs"],
 [("stitch and search strategies", "src/btree/set.rs Difference/Intersection/is_subset"), ("peekable merging", "src/btree/set.rs Union/SymmetricDifference, cmp_opt")],
 ["yields, size_hint and boolean answers"])

prop("C14", "Which of two equal keys or elements is kept is fixed by the operation",
 "When an equal key is already stored, inserting into a map keeps the stored key and replaces only the value, inserting into a set keeps the stored element and reports it was present, replacing in a set stores the new element and returns the old one, and appending takes key and value from the appended collection. Lookups that return keys return the stored one, and take/remove-entry return the stored one; vacant entries give back the very key supplied.",
 ["histories", "inputs"],
 "all histories with distinguishable but equal keys on maps, sets and hash maps",
 "No test has keys that are equal but distinguishable.",
 ["src/btree/map.rs", "src/btree/set.rs", "src/hashmap.rs"],
 [("occupied entry replaces the value only", "src/btree/map.rs try_insert"), ("Recover::replace", "src/btree/map.rs"), ("MergeIter takes right", "src/btree/map.rs")],
 ["identity tags of stored and returned keys"])

prop("C15", "Duplicating a collection gives an equal, independent copy or a clean error",
 "Duplicating any supported value (numbers, booleans, options, vectors, boxes, shared pointers, hash maps, ordered maps, nested combinations) yields a value equal to the original with every contained element duplicated exactly once (shared pointers share), after which changes to either are invisible in the other. If duplicating any contained element or any allocation fails, the error is passed on, the original is untouched and everything duplicated so far is destroyed and freed.",
 ["inputs", "fault_sequences", "histories"],
 "every container kind and content, shapes up to four-level trees, every position of a failing element duplicate or refused request",
 "Tests clone one vector of equal integers, and one impossible size; ordered and hash maps, boxes, options and failures part-way are untested.",
 ["src/vec.rs", "src/boxed.rs", "src/hashmap.rs", "src/try_clone.rs", "src/arc.rs", "src/btree/map.rs"],
 [("element-wise try_clone with ?", "src/vec.rs, src/hashmap.rs, src/boxed.rs, src/try_clone.rs"), ("recursive subtree clone", "src/btree/map.rs try_clone")],
 ["copy contents, original contents, destructor log"])

prop("C16", "Fallibly created boxes and shared pointers own exactly one value",
 "A successfully created box or shared pointer holds exactly the value given, at an address aligned for its type, for values of any size and alignment including zero; reading and writing through it sees that value, converting to a raw pointer and back preserves it, and the value is destroyed once when the last owner goes away, its block being returned as requested. A refused creation returns an error and destroys the value given exactly once; zero-sized values need no memory and cannot fail in a box.",
 ["inputs", "fault_sequences", "histories", "configurations"],
 "all value kinds, all histories of create/clone/convert/share/drop over several cells, refusal of the creating request, both feature builds",
 "Tests create a box of an integer and of a zero-sized value; no destructor, alignment, raw conversion or refusal is checked.",
 ["src/boxed.rs", "src/rc.rs", "src/arc.rs"],
 [("one element buffer turned into a box", "src/boxed.rs FallibleBox::try_new"), ("Rc/Arc from box or fallible Arc constructor", "src/rc.rs, src/arc.rs")],
 ["values, addresses, destructor log, allocator ledger"])

prop("C17", "Bounded reads append exactly the right bytes and never over-read",
 "Reading up to a limit into a vector appends exactly the first min(limit, available) bytes the source produces, in order, after the bytes already there, returns that count, and takes no more than that from the source, whatever the source's chunking and interruptions. If memory for the limit is refused or unrepresentable the call errors before touching source or vector, memory is requested only once, up front; if the source fails, the error is returned and the bytes read before it have been appended. Writing into a vector appends all bytes or reports an error and appends none.",
 ["inputs", "fault_sequences", "histories"],
 "all source behaviours (chunk sizes, interruptions, end of data, errors), limits, prior contents and spare capacity, refusals",
 "Tests read once from an in-memory slice and try one impossible limit; short reads, interruptions, errors and non-empty vectors are untested.",
 ["src/vec.rs"],
 [("reserve the limit up front, then read a limited source to its end", "src/vec.rs std_io::try_read_up_to"), ("limit taken from the source adaptor", "src/vec.rs TryRead for Take"), ("Write for TryVec<u8>", "src/vec.rs")],
 ["buffer contents, returned counts, source position, allocator requests"])

prop("C18", "Formatting within the stated capacity gives the exact text in one request",
 "For every format string and arguments whose text fits the stated capacity, fallible formatting returns exactly the text ordinary formatting gives, with at most one allocator request, made before any text is produced; if that request is refused or unrepresentable it returns an error without running any argument's formatter.",
 ["inputs", "fault_sequences"],
 "all texts (including multi-byte) and capacities at least the text's length, refusal of the request",
 "Tests format three tiny strings with nothing refused.",
 ["src/format.rs"],
 [("capacity reserved first, then written", "src/format.rs try_format")],
 ["returned string, allocator requests"])

prop("C19", "A panic in caller-supplied code never corrupts a collection",
 "If a caller-supplied duplication, generator closure, iterator or comparison panics in the middle of a vector, hash map, ordered map or set operation, no element is destroyed twice or becomes reachable after being destroyed, elements held before the call by a vector are still there in order (followed only by completed new ones), a map operation on a single key leaves its entries as they were, and every collection can still be used and dropped. A panicking element destructor while a vector is shortened, or while an ordered map or set is emptied, dropped, walked off by value or joined with another, leaves the remaining elements valid and each destroyed at most once.",
 ["fault_sequences", "histories"],
 "every callback invocation position of duplicating, resizing, collecting, entry, lookup, insertion and removal operations, over all contents",
 "No test has a panicking callback.",
 ["src/vec.rs", "src/btree/map.rs", "src/hashmap.rs"],
 [("length set per element", "src/vec.rs try_extend_with/try_extend_from_slice_no_copy/truncate"), ("search before mutation", "src/btree/map.rs"), ("partial clone owned by a map value", "src/btree/map.rs try_clone")],
 ["contents, destructor log and allocator ledger after the unwind"])

prop("C20", "Comparison, hashing and text form of collections depend only on content",
 "Two ordered maps or sets are equal exactly when they hold equal entries, whatever histories and tree shapes produced them; their ordering is the lexicographic order of their ascending entries; equal collections hash equally; and their debug text lists the entries in order. A wrapped vector equals a vector, slice or string exactly when the elements are equal, and its debug text is the list's.",
 ["inputs", "histories"],
 "all pairs of contents, including prefixes, equal content built by different histories, empty collections never filled or emptied",
 "No test compares, hashes or prints the forked collections.",
 ["src/btree/map.rs", "src/btree/set.rs", "src/vec.rs"],
 [("comparison by iteration", "src/btree/map.rs PartialEq/PartialOrd/Ord/Hash"), ("derived on the set", "src/btree/set.rs"), ("PartialEq impls", "src/vec.rs")],
 ["results of ==, partial_cmp, cmp, hash, {:?}"])

prop("C21", "Fallible construction yields exactly the requested elements",
 "Collecting an iterator fallibly calls it once per element, in order, and yields exactly its items; building a vector of n equal elements yields n equal elements for every element kind and every n including zero, using duplicates of the given element; building from a list, slice or string yields exactly those elements in order, and from an existing vector takes it over unchanged. On failure nothing is returned and everything gathered so far is destroyed.",
 ["inputs", "fault_sequences", "configurations"],
 "all iterator lengths, all n, byte and non-byte elements, refusals at every request and failing duplicates at every position",
 "Tests build one vector from 42s and one from three numbers and mostly print them.",
 ["src/vec.rs"],
 [("push loop", "src/vec.rs TryFromIterator"), ("byte specialisation and generic element fill", "src/vec.rs SpecFromElem"), ("try_vec!", "src/vec.rs")],
 ["constructed contents, iterator call counts, destructor log"])

prop("C22", "A key order that contradicts itself damages nothing",
 "If the keys of an ordered map or set compare inconsistently (a comparison implementation is safe code and may answer anything, differently every time), only the place an operation looks at is unspecified. Every call returns, and only a range or an index may panic; an insertion adds the given entry or exchanges the value of one held entry, a removal hands back one held entry or none, splitting divides the sequence of entries at one place, appending keeps all of the other map's entries and invents none, iterating lists every entry exactly once from both ends with exact lengths and a range lists one unbroken stretch. No element is lost, destroyed twice or reachable after being destroyed, the length stays the number of entries, and all memory is returned.",
 ["inputs", "histories"],
 "all sequences of answers a comparison can give (random, constant, reversed, occasionally wrong), from the start or from any point of any history, all operations taking keys, all tree shapes",
 "Every test uses integers in their natural order; a wrong edge or an unchecked length shows only when comparisons disagree with what the tree holds.",
 ["src/btree/map.rs", "src/btree/search.rs", "src/btree/set.rs"],
 [("range bounds checked against each other on every level", "src/btree/map.rs range_search"), ("search ends at a leaf whatever comparisons say", "src/btree/search.rs search_tree"), ("lengths recounted after a split", "src/btree/map.rs split_off"), ("merge by comparison, built from what it yields", "src/btree/map.rs MergeIter/from_sorted_iter"), ("set algebra by comparison", "src/btree/set.rs SymmetricDifference/Intersection/Union next")],
 ["contents and answers of every call, iteration from both ends, destructor log, allocator ledger"])

prop("C23", "Calls that cannot report a lack of memory do not need any",
 "Looking up, reading and writing through references, removing, popping, clearing, shortening, walking with any iterator or range to any end, lazy set algebra and set predicates, comparing, hashing and formatting a collection into a caller's buffer, exchanging the value of a key that an ordered map already holds, making an empty collection, taking over an existing vector, sharing a pointer, turning a box into a raw pointer and back, and destroying any of them make no allocator request at all. So when no memory is to be had these calls still return, with the result they always have, and never abort the process. (The calls the standard collections offer too and that add or duplicate entries without a way to report failure, such as clone, extend, collect, append and the operator forms of set algebra, are outside this, and so is the message of a panic.)",
 ["histories", "inputs", "fault_sequences"],
 "every such call in every reachable state of every container, before, after and while memory is refused",
 "No test counts requests or refuses memory during a removal, a walk or a comparison; a temporary copy or a table moved to a smaller place shows only when memory runs out.",
 ["src/vec.rs", "src/hashmap.rs", "src/btree/map.rs", "src/btree/set.rs", "src/btree/search.rs", "src/boxed.rs", "src/arc.rs", "src/rc.rs"],
 [("removal merges and borrows between existing nodes", "src/btree/map.rs remove_kv/handle_underfull_node"), ("iterators hold handles only", "src/btree/map.rs Iter/Range/IntoIter"), ("set algebra over iterators", "src/btree/set.rs"), ("removal delegated to the table", "src/hashmap.rs remove"), ("insertion over a present key", "src/btree/map.rs try_insert/try_entry")],
 ["allocator requests made and refused during every call"])

prop("C24", "Reading changes nothing, so any number of threads may read a collection at once",
 "Whatever is done through a shared reference to a map, set, hash map or vector (looking up, walking in any direction with any iterator or range, lazy set algebra and predicates, comparing, hashing, formatting, duplicating) leaves the collection and all memory it holds byte for byte as it was, at every moment and also when caller code panics in between. So several threads that read one collection at once are each answered from its one content. And a collection that is changed on one thread, handed to another, changed there, split, joined, duplicated or destroyed there is answered for by its content alone: nothing is remembered per thread, or outside the collection.",
 ["schedules", "histories", "inputs"],
 "all interleavings of readers, all histories of changes on whatever threads, collections of up to a thousand entries",
 "Every test runs on one thread and looks at answers only; a lookup that notes where it was last, or a scratch place shared by all collections, answers rightly there and goes wrong only when two threads meet.",
 ["src/btree/map.rs", "src/btree/set.rs", "src/btree/node.rs", "src/btree/search.rs", "src/hashmap.rs", "src/vec.rs"],
 [("search by handles into shared nodes", "src/btree/search.rs"), ("unsafe Send and Sync of nodes and handles", "src/btree/node.rs"), ("shared iterators", "src/btree/map.rs Iter/Range/Keys/Values, src/btree/set.rs"), ("one static empty root for all empty maps", "src/btree/node.rs EMPTY_ROOT_NODE")],
 ["a checksum over every block and every collection before, during and after each reading call", "answers of every thread"])

prop("C25", "A collection may cross threads exactly when what it holds may",
 "A collection, box, entry, or iterator of the crate may be sent to another thread exactly when all that it owns or exclusively borrows may be sent, or, for one that only borrows shared, when all it shows may be shared; and it may be shared between threads exactly when all it holds may be. So safe code can neither carry a value to a thread that must not have it inside a collection, nor is a collection of ordinary values ever tied to its thread. This holds for the ordered maps and sets with all their iterators, ranges, entries and set operations, the hash map, the vector with its iterators and the box, for every combination of key and value types.",
 ["inputs", "configurations"],
 "keys and values that may be sent and shared, only sent, only shared, or neither, in every combination, for every public type",
 "No test sends anything to a thread. The ordered maps hold raw pointers, so the compiler decides nothing by itself: every permission is an unsafe impl whose bounds nothing else checks.",
 ["src/btree/node.rs", "src/btree/map.rs", "src/btree/set.rs", "src/hashmap.rs", "src/vec.rs", "src/boxed.rs"],
 [("unsafe impl Send/Sync for Root and NodeRef", "src/btree/node.rs"), ("PhantomData of the entries", "src/btree/map.rs VacantEntry/OccupiedEntry/RangeMut"), ("wrapped types", "src/vec.rs, src/hashmap.rs, src/boxed.rs")],
 ["which public types are Send and Sync, for each kind of content"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P))
