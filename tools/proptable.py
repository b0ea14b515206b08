CT = ["seq/concurrent_map.hpp", "seq/internal/concurrent_hash_table.hpp"]
SIMNOTE = "Seeded search over interleavings (every atomic and memory access of the tables is a scheduling point) and injected failures. Small runs: 1-5 tasks, up to ~100 elements, 2-30 operations per task. Interleavings are sequentially consistent; missing orders show up as data races by vector clocks, not as hardware reorderings."
TABLE = [
dict(id="C01", title="Single-key operations of the concurrent maps and sets are linearizable",
 statement="Whatever other threads do at the same time (insertions that make the table grow, reserve, rehash, erasures, traversals), every insert, emplace, try_emplace, insert_or_assign, *_or_visit, visit, contains, count, erase and erase_if(key) on concurrent_map and concurrent_set returns and shows its visitor exactly what some sequential order of the overlapping calls would. In particular a key is never held twice, an insertion reports true exactly when it added the key, a key that is present throughout is always found, an erased or never inserted one never is, and a read sees the last value written. When every call has ended, size(), lookups and traversals agree on the same contents.",
 quantifier=dict(over=["schedules","inputs","histories","configurations"], text="every interleaving of any number of threads, any hash distribution and shard spread, any table size including the ones around growth, every concurrency level"),
 why_tests_cant="The unit tests run a few free threads on disjoint or counted keys: they never check the result of each call against a sequential history, never stop a thread inside a growth, and never use the shared levels.",
 anchors=dict(files=CT, mechanism=[dict(name="per-bucket locks re-checked against the hash mask", where="ChainingHashTable::get_node / get_node_shared"), dict(name="insertion and growth", where="ChainingHashTable::insert_policy, rehash_internal"), dict(name="shard selection", where="ConcurrentHashTable::PrivateData::get_map / at")], observe_at=["return values and visitor arguments of every call", "contents after the last call"], hook_needed=None),
 note=SIMNOTE + " Oracle: per-key linearizability checker over the recorded history, with the final contents as last events."),
dict(id="C02", title="Visitors are exclusive and see whole, published elements",
 statement="While a mutable visitor (visit, *_or_visit, erase_if predicate, visit_all on a non-const table) runs on an element, no other visitor, comparison, move, growth or destruction touches that element; const visitors only ever share it with other const visitors. Whatever one thread wrote to an element happens before the next access to it by any thread, so a half-written value is never seen and there is no data race inside the tables. A visitor is called at most once per element and call, only with an element of the requested key, and a traversal whose functor returns false stops there and returns false.",
 quantifier=dict(over=["schedules","inputs","configurations"], text="every interleaving of visitors of any duration with any other operation, at every concurrency level (spinlocks and read-write spinlocks), before and after the lock array exists"),
 why_tests_cant="Tests increment counters in visitors and compare a total; on x86 a missing lock or a missing acquire almost never shows, and the read-write levels are never instantiated.",
 anchors=dict(files=CT+["seq/lock.hpp"], mechanism=[dict(name="node locks (shared/unique)", where="visit_hash, visit_all, erase_if, LockShared, LockUnique"), dict(name="publication of buckets and locks", where="rehash_internal, SharedLockArray")], observe_at=["entry and exit of every visitor", "every memory access (vector clocks)"], hook_needed=None),
 note=SIMNOTE + " Oracle: per-element reader/writer marks, torn-write canaries in values, and happens-before race detection on every byte."),
dict(id="C03", title="Bulk operations conserve elements under concurrency",
 statement="visit_all, erase_if(pred), clear, merge, range insertion, copy, operator== and size() may run together with any other operation: an element present throughout is met exactly once by a traversal (or copied once, or erased if its predicate said so), one absent throughout never is, the count returned is the number of elements really erased or moved, merge moves exactly the keys its destination lacks and loses or duplicates none. Comparing or merging a table with itself works. When every call has ended, each element is in exactly the place the returned values imply and nothing else is in the tables.",
 quantifier=dict(over=["schedules","inputs","histories"], text="every interleaving of bulk operations with single-key operations, growth and other bulk operations on two tables, any contents"),
 why_tests_cant="The tests run bulk operations on quiescent tables, or check one total; conservation during growth or concurrent merges depends on the interleaving.",
 anchors=dict(files=CT, mechanism=[dict(name="bulk traversal under the rehash lock", where="visit_all, erase_if, merge, clear_no_lock, equal_to"), dict(name="sharded fan-out", where="ConcurrentHashTable::visit_all/erase_if/merge/operator==")], observe_at=["return values, visited elements, contents of both tables afterwards"], hook_needed=None),
 note=SIMNOTE + " Oracle: every visited, erased or copied element becomes an event of the per-key history of both tables, checked for linearizability per key (a bulk call is not one atomic step, as documented)."),
dict(id="C04", title="Operations on concurrent tables always complete",
 statement="No combination of concurrent operations on the concurrent tables blocks for ever: every insertion, lookup, erasure, visit, clear, reserve, rehash, merge or comparison whose visitors return ends within a bounded number of its own steps once the operations it waits for are given time to run, even when it waits for a growth, when the growth it waits for fails, or when wake-ups are late or spurious. Nothing stays locked after the last call, also after an exception: the table keeps accepting every operation.",
 quantifier=dict(over=["schedules","fault_sequences"], text="every interleaving of growth, clear, reserve/rehash and key operations, with failing allocations, late and spurious wake-ups"),
 why_tests_cant="A lost wake-up, a leaked lock or a self-deadlock needs one thread to be stopped at one point; the tests would just hang once in a million runs.",
 anchors=dict(files=CT, mechanism=[dict(name="spin/condition wait for growth", where="ChainingHashTable::lock, lock_shared, d_rehash_condition"), dict(name="lock release on every exit path", where="rehash_internal, clear_no_lock, LockUnique")], observe_at=["progress of every simulated task once faults stop", "operations on the table after the last call"], hook_needed=None),
 note=SIMNOTE + " Liveness: fair scheduler phase with a step budget per task after the adversarial phase; deadlock = no runnable task."),
dict(id="C05", title="A failing operation leaves concurrent tables consistent",
 statement="When an allocation fails or user code (element construction, copy, comparison, visitor or predicate) throws inside an operation of a concurrent table, the exception reaches exactly the caller whose operation caused it, that operation took effect for each key either completely or not at all, no other element is lost, duplicated, corrupted or made unreachable (even when the failure happens in the middle of a growth), nothing leaks and every lock is released, so that all threads can go on using the table. Clearing and destroying a table never need memory. Only when moving an element itself throws may elements of the same bucket be dropped.",
 quantifier=dict(over=["fault_sequences","schedules","inputs","configurations"], text="every single or persistent failure of any allocation, constructor, copy, comparison or visitor call, in any thread, at any interleaving; nothrow- and throwing-move element types"),
 why_tests_cant="No test makes an allocation or a constructor fail inside a concurrent table; the failing call, the size of the table and what the other threads do must coincide.",
 anchors=dict(files=CT, mechanism=[dict(name="rollback of a failed growth", where="rehash_internal, move_back"), dict(name="insertion rollback", where="InsertNewDense, FindInsertNode"), dict(name="copy construction", where="ConcurrentHashTable copy constructor")], observe_at=["exceptions, contents and usability afterwards", "leak and lifetime accounting"], hook_needed=None),
 note=SIMNOTE + " Faults: the n-th allocation (or all from the n-th), the n-th constructor/copy/move/comparison/visitor call of an operation fails."),
dict(id="C06", title="Concurrent tables never misuse memory or element lifetimes",
 statement="Under every schedule and failure, operations on one or two concurrent tables (including clear, merge, copy, move of private copies, swap of tables in use and destruction) never read or write memory out of bounds, uninitialised or after it was freed, never free with another size than allocated, construct each element once, at an address aligned for its type, and destroy it once, and release every block they allocated by the time the tables are destroyed.",
 quantifier=dict(over=["schedules","fault_sequences","inputs","configurations"], text="every interleaving and failure of a mix of all operations, with swap under use"),
 why_tests_cant="Element lifetimes across growth, chaining and clear depend on where other threads are; sanitizer runs of the tests would only see the schedules that happen.",
 anchors=dict(files=CT, mechanism=[dict(name="bucket and chain nodes", where="destroy_buckets, erase_from_bucket, erase_from_dense"), dict(name="shared PrivateData and swap", where="ConcurrentHashTable::swap, get_data")], observe_at=["simulated heap and lifetime accounting at every access"], hook_needed=None),
 note=SIMNOTE + " Every allocation lives in the simulated heap with quarantine and redzones; elements carry lifetime canaries."),
dict(id="C07", title="Spin locks are correct locks under every schedule",
 statement="seq's spinlock and shared_spinner never let two holders in together (two writers, or a writer and a reader), never lose, invent or leak a hold, publish everything done under the lock to the next holder, and leave the lock free once every holder has released it. Try and timed acquisitions never report success without the hold, timed ones never give up before their duration has elapsed nor hang after it, and a waiter gets the lock within a bounded number of steps once it is free and stays uncontended.",
 quantifier=dict(over=["schedules","inputs"], text="every interleaving of any number of threads doing lock/try/timed/shared operations with arbitrary hold times"),
 why_tests_cant="The unit tests run a couple of threads on real hardware; they sample a handful of interleavings, never starve a thread at a chosen instruction, and cannot see a missing acquire/release on x86.",
 anchors=dict(files=["seq/lock.hpp"], mechanism=[dict(name="spinlock", where="seq/lock.hpp"), dict(name="shared_spinner: writer/need/read bits in one atomic word", where="seq/lock.hpp")], observe_at=["lock/unlock/try_lock*/is_locked return values", "data protected by the lock"], hook_needed=None),
 note="Seeded search over interleavings at every atomic operation and memory access; vector clocks decide happens-before from the memory orders actually used. Assumes SC interleavings (a missing order shows up as a race, not as a reordering)."),
]
TABLE += [
dict(id="C08", title="Bulk operations with an execution policy are equivalent to sequential ones",
 statement="visit_all, cvisit_all, erase_if and merge called with a parallel execution policy on a concurrent table visit, erase or move exactly the elements their sequential versions would, each exactly once and under the same exclusivity, return the exact count (or whether any functor returned false), and may run together with any other operation on the tables, whatever the number of workers and the way the policy splits the work. On a table without concurrency they behave as the sequential version.",
 quantifier=dict(over=["schedules","inputs","configurations"], text="every interleaving of the workers of the policy with each other and with other tasks, every split of the shards, every shard spread and concurrency level"),
 why_tests_cant="The tests do not run the policy overloads with more than one worker under a controlled schedule; lost updates of the shared result or a shard visited twice only show for some interleavings.",
 anchors=dict(files=CT, mechanism=[dict(name="policy overloads", where="ConcurrentHashTable::visit_all/erase_if/merge(ExecPolicy&&,...)"), dict(name="result accumulation", where="std::atomic res in those functions")], observe_at=["return values, visited elements, contents"], hook_needed=None),
 note=SIMNOTE + " libstdc++'s parallel backend is replaced by simulated workers (the repository's own code is untouched)."),
]
SEQNOTE = "Seeded search over operation sequences and the failures injected in them (one task: the property depends on faults and history, not on interleavings). Oracle: a std::vector/std::map model after every step, lifetime and heap accounting; after a failure, the documented guarantee (unchanged if strong, otherwise a valid container of alive elements that were there)."
TABLE += [
dict(id="C12", title="devector and tiered_vector keep their contents and memory under failures",
 statement="Every operation of devector and tiered_vector (construction, copy, move, swap, assignment, push/emplace/insert/erase/pop at any place, ranges, elements of the container itself as arguments, resize and resize_front, reserve, shrink_to_fit, sorting) has the effect its std::vector/std::deque counterpart has on the same sequence, and returns the right reference or iterator. When an allocation, an element's construction, copy, move or comparison, or an input iterator fails at any point of it, the exception reaches the caller and the container keeps the documented guarantee: unchanged where strong is documented (devector insertions at both ends with nothrow-move elements, reserve, shrink_to_fit, constructors, tiered_vector with a fixed bucket size at both ends), otherwise a valid container that holds only elements that were there or were being added, and can be used further. In all cases every element is constructed once, at an address aligned for its type, and destroyed once, nothing is read or written out of bounds or after its end of life, and no memory leaks.",
 quantifier=dict(over=["fault_sequences","histories","inputs","configurations"], text="every operation sequence on two containers, any failing allocation, constructor, assignment, comparison or iterator step within it, nothrow-move, throwing-move, relocatable and trivial element types, sizes around every growth and bucket limit"),
 why_tests_cant="The tests compare a few operations with std containers on healthy runs; no test makes an allocation or a move fail, and what is lost depends on which element of which bucket fails.",
 anchors=dict(files=["seq/devector.hpp","seq/tiered_vector.hpp"], mechanism=[dict(name="two-sided growth", where="devector::grow_back_front, reserve_front/back, insert_n"), dict(name="circular buckets and rebucketing", where="CircularBuffer, BucketManager")], observe_at=["contents, sizes, references and iterators after every operation", "lifetime and heap accounting"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C14", title="Flat sets and maps keep order, uniqueness and lookups under failures",
 statement="Every operation of flat_set, flat_map, flat_multiset and flat_multimap (single and hinted insertion, try_emplace, insert_or_assign, range, sorted and single-pass insertion and assignment, merge, erase by key, position and range, erase_if, copy, move, swap, extract and replace) has the effect and the results its std counterpart has: keys stay sorted by the comparator (which may have a state), unique containers hold a key once, an existing value is never replaced by an insertion, stable containers keep equivalent elements of a range in their order (and of several with one key the first), and find, count, contains, bounds, equal_range and their position variants agree with the contents, both on present and on absent keys. When an allocation, the comparator, a predicate, an element operation or an input iterator fails at any point, the exception reaches the caller and the container is left sorted, unique and consistent with all its lookups, holding only elements that were there or were being added. Elements are constructed, at addresses aligned for their type, and destroyed exactly once and no memory leaks or is accessed out of bounds.",
 quantifier=dict(over=["fault_sequences","histories","inputs","configurations"], text="every operation sequence on two containers with any comparator state, any failure at any point of an operation, nothrow-move, throwing-move, relocatable, string and integral keys, sizes across bucket limits, unique and multi containers, stable and unstable"),
 why_tests_cant="The tests compare a few healthy runs with std containers; lookups rely on cached bucket bounds that only go stale after particular failures, removals or bulk operations, and no test injects a failure.",
 anchors=dict(files=["seq/flat_map.hpp","seq/tiered_vector.hpp","seq/algorithm.hpp","seq/internal/binary_search.hpp"], mechanism=[dict(name="sorted tiered vector with cached back values", where="detail::flat_tree, tvector_lower_bound, BucketManager::update_all_back_values"), dict(name="bulk insertion", where="flat_tree::insert, sort_deque, BucketManager::sort")], observe_at=["contents, order and all lookups after every operation", "lifetime and heap accounting"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C13", title="sequence keeps contents, order and stable references under failures",
 statement="Every operation of sequence (construction, copy, move, swap, assignment also between unequal allocators, push, emplace and pop at both ends, insertion into any free place, erasure of one element or of a range, resize at both ends, reserve, shrink_to_fit, clear, sort, with elements of the sequence itself as arguments) has the effect its std::list counterpart has on the same contents, forward and backward iteration agree (sort yields the sorted permutation but is not stable, and insert may pick any position), and references and iterators to elements it does not remove stay valid and designate the same element, except across sort and shrink_to_fit. When an allocation, an element's construction, copy, move or comparison, a predicate or an input iterator fails at any point, the exception reaches the caller; single-element insertions leave the sequence unchanged, any other operation leaves a valid sequence that holds only elements that were there or were being added. Every element is constructed, at an address aligned for its type, and destroyed exactly once, memory goes back to the allocator it came from with the size it was asked with, nothing leaks and nothing is accessed out of bounds.",
 quantifier=dict(over=["fault_sequences","histories","inputs","configurations"], text="every operation sequence on two sequences with equal or unequal allocators, any failing allocation, element operation, comparison or iterator step, nothrow-move, throwing-move, relocatable, over-aligned elements, sizes around every 64-element bucket"),
 why_tests_cant="The tests compare a few healthy runs with std::list; which bucket has a free slot, which end it is filled from and which allocation fails decide whether a reference dangles or an element is lost.",
 anchors=dict(files=["seq/sequence.hpp","seq/net_sort.hpp"], mechanism=[dict(name="64-slot chunks with used-slot mask", where="detail::list_chunk, chunk_pool"), dict(name="compaction", where="sequence::sort, shrink_to_fit")], observe_at=["contents, references and iterators after every operation", "lifetime, heap and allocator accounting"], hook_needed=None),
 note=SEQNOTE),
dict(id="C15", title="Ordered sets and maps keep order, uniqueness and lookups under failures",
 statement="Every operation of ordered_set and ordered_map (single and hinted insertion at any place, push_front/push_back, try_emplace, insert_or_assign, range and single-pass insertion, merge, erase by key, position and range, erase_if, sort, reserve, rehash, shrink_to_fit, copy, move, swap, assignment also between unequal allocators, extract of the underlying sequence) keeps the elements in the order the calls define, holds each key once, never replaces a value an insertion finds, and makes find, count, contains and at agree with the contents for present and absent keys, whatever the hash function's quality; references stay valid across every operation but sort, shrink_to_fit and erasure of the element. When an allocation, the hash function, key equality, a comparator, an element operation or an input iterator fails at any point, the exception reaches the caller, single-element insertions and erasures leave contents unchanged, and any other operation leaves elements that were there or were being added; lookups either agree with the contents or are refused with an exception until rehash() is called, never silently wrong. Elements are constructed, at addresses aligned for their type, and destroyed once and no memory leaks or is accessed out of bounds.",
 quantifier=dict(over=["fault_sequences","histories","inputs","configurations"], text="every operation sequence on two containers, good, clustered and constant hashes, any failure at any point, nothrow-move, throwing-move, string and integral keys, sizes across every table growth"),
 why_tests_cant="Probe distances and tombstones depend on the history of insertions and erasures; no test makes a hash, a comparison or an allocation fail in the middle of a rehash, and a stale slot only shows when one particular absent or present key is looked up.",
 anchors=dict(files=["seq/ordered_map.hpp","seq/sequence.hpp"], mechanism=[dict(name="robin-hood table of sequence iterators", where="detail::SparseFlatNodeHashTable"), dict(name="dirty state and refused lookups", where="SparseFlatNodeHashTable::checkDirty, rehash")], observe_at=["contents, order and all lookups after every operation", "lifetime, heap and allocator accounting"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C16", title="Radix sets and maps keep contents, order and lookups under failures",
 statement="Every operation of radix_set, radix_map, radix_hash_set and radix_hash_map (single and hinted insertion, try_emplace, insert_or_assign, range insertion, merge, erase by key, position and range, erase_if, reserve, shrink_to_fit, copy, move, swap, comparison) has the effect and the results its std counterpart has, for keys of every supported type (integral, floating point, pointer, string of any character type, array, vector, tuple, extracted) and any value, and for hash functions of any quality: iteration visits each key once (in increasing order for radix_set and radix_map), an existing value is never replaced by an insertion, and find, count, contains, at, bounds and equal_range agree with the contents for present and absent keys. When an allocation, an element operation, a predicate or an input iterator fails at any point, the exception reaches the caller and the container stays valid and consistent with all its lookups, holding only elements that were there or were being added. Elements are constructed, at addresses aligned for their type, and destroyed exactly once and no memory leaks or is accessed out of bounds.",
 quantifier=dict(over=["fault_sequences","histories","inputs","configurations"], text="every operation sequence on two containers, any failure at any point, nothrow-move, throwing-move and over-aligned elements, twenty key types, keys sharing long prefixes, dense, sparse, of different lengths or all of the same hash, up to thousands of elements"),
 why_tests_cant="The shape of the tree (merged directories, prefixes, vector nodes) depends on the bits of all the keys inserted and erased before; tests use a few key sets and never fail an allocation while the tree is being restructured.",
 anchors=dict(files=["seq/internal/radix_tree.hpp","seq/radix_map.hpp","seq/radix_hash_map.hpp"], mechanism=[dict(name="directories merged, split and rebalanced", where="RadixTree::merge_dir, rehash, rebalance, check_prefix_create_intermediate"), dict(name="leaves and vector nodes", where="LeafNode, VectorNode, insert_in_vector_node")], observe_at=["contents, order and all lookups after every operation", "lifetime and heap accounting"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C17", title="Strings behave as std::basic_string through failures and self-reference",
 statement="After every operation (construction, assignment, append, insert, erase, replace, resize at both ends, reserve, shrink_to_fit, clear, swap, copy and move also between unequal allocators, concatenation, stream extraction) a tiny_string of any inline capacity, character type and allocator holds exactly the characters std::basic_string would hold, null-terminated, also when the arguments are characters or parts of the string itself. If an allocation or an input iterator fails at any point the string is unchanged; every block is given back once to the allocator it came from and nothing is read or written out of bounds. Searches, counts, comparisons and sub-strings of strings and string views give std's results for every position, length and pattern, and equal strings hash equal; stream input and output over a buffer that ends early, refuses or throws leaves the characters that were taken or given and reports the failure through the stream state and its exception mask.",
 quantifier=dict(over=["fault_sequences","histories","inputs","configurations"], text="every operation sequence on two strings, any failing allocation, iterator or stream buffer step, arguments outside, inside or overlapping the string, lengths around the inline and growth limits, narrow and wide characters, stateful allocators"),
 why_tests_cant="Whether an argument dangles depends on the inline capacity, the size and what was reserved before; tests use healthy allocations, outside arguments and std::allocator only.",
 anchors=dict(files=["seq/tiny_string.hpp","seq/hash.hpp"], mechanism=[dict(name="inline or heap storage told apart by the last character", where="detail::StringHolder, tiny_string::internal_resize, resize_grow"), dict(name="replacement and insertion of ranges", where="replace_cat, insert_cat, assign_cat")], observe_at=["characters, terminator and lookups after every operation", "heap and allocator accounting", "stream state"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C18", title="A dynamic value stays whole through throwing types and self-reference",
 statement="A hold_any of any buffer size, alignment and relocatable option holds exactly the value last stored in it, of that type, at an address with the alignment the type needs, until it is assigned, moved from or reset; casts, pointer casts, conversions and comparisons answer for that value. If an allocation, construction, copy, move or comparison throws, the object assigned to keeps its value or becomes empty, the object copied from and all others are unchanged (a swap that fails part-way may lose values but leaves valid objects), and nothing is leaked or destroyed twice. Assigning or emplacing from a part of the held object, at any nesting depth, gives the value that part had; copying a move-only value throws and changes nothing else; a relocatable hold_any survives being moved bytewise.",
 quantifier=dict(over=["fault_sequences","histories","configurations"], text="every operation sequence on four objects over 17 held types (small, large, over-aligned, move-only, not assignable, owning, nested), any failing allocation or user operation, five configurations"),
 why_tests_cant="Where the value lives depends on size, alignment, relocatability and options together; tests use healthy copies of a few types and never assign an object a part of itself.",
 anchors=dict(files=["seq/any.hpp"], mechanism=[dict(name="small buffer or separate storage chosen by type tags", where="any_base::alloc, any_base::dealloc, detail::copy_any, detail::move_any"), dict(name="old value destroyed only after the new one exists", where="hold_any::operator=, hold_any::emplace")], observe_at=["type, value and address after every operation", "lifetimes and heap accounting"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C19", title="Input streams read the text as it is, whatever the source does",
 statement="buffer_input_stream, std_input_stream and file_input_stream over the same text give the same characters, integers, reals, words and lines, with the same position and state after each call, for any buffer size, character type and start position, however the source splits its data, whether or not it can seek, and whether or not it throws; a read error counts as an end of input at that place; nothing that was read is lost, repeated or invented, and characters always belong to the position reported. Words and integers are the longest run that fits, malformed numbers put the stream back where the call began, and well-formed reals are close to strtod. A stream that is not open, or whose open failed, is simply at its end; close() leaves a source that is not owned at the position of the stream and closes an owned one once; an allocation failure while reading leaves the stream usable.",
 quantifier=dict(over=["inputs","fault_sequences","histories","configurations"], text="every text of tokens (byte 0xFF aside), every split into reads, every failing read, seek, open or allocation, every sequence of calls, three kinds of source and several buffer sizes and character types"),
 why_tests_cant="Tests read complete healthy strings; what matters is which call meets the end of the buffer, the end of the input or an error, and the combinations are many.",
 anchors=dict(files=["seq/charconv.hpp"], mechanism=[dict(name="buffered getc/back/seek/read over a source", where="std_input_stream, file_input_stream, buffer_input_stream"), dict(name="parsers that read ahead and step back", where="detail::read_integral, read_double, read_string, read_line")], observe_at=["value, position and state after every call", "position of the source after close()"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C20", title="Sorting, merging, reversing and removing duplicates are exact and stable",
 statement="net_sort, net_sort_size, inplace_merge, merge and reverse_descending leave exactly what a stable sort of the same elements leaves, equivalent elements in their old order, and unique keeps exactly the first of equivalent elements, for any iterator category, element type and input and with any buffer, including none; elements outside the range are not touched, elements are moved and never copied, and no memory is allocated where the caller gives the buffer or asks for none. If a comparison, a move, an equality test or an allocation throws, the exception reaches the caller, every element of the range and of the buffer is still valid and none is there twice, and nothing leaks. A call needs no more than n times log(n) squared comparisons, up to a constant.",
 quantifier=dict(over=["inputs","fault_sequences","configurations"], text="every input of up to 9000 elements (runs, few keys, saw tooth, organ pipe, random), every sub-range, buffer and run border, every failing comparison, move, construction or allocation, vector, deque and list of five kinds of elements"),
 why_tests_cant="The tests sort one input of a million elements whose keys come in long ascending runs, so most paths (networks, bidirectional and in-place merges, small buffers) never see equivalent elements, and no user code ever throws.",
 anchors=dict(files=["seq/algorithm.hpp"], mechanism=[dict(name="blocks of 8 elements, runs, ping-pong and adaptive merges", where="algo_detail::network_sort_8, try_wave_sort, ping_pong_merge_4, merge_adaptive_n"), dict(name="hash table of the kept elements", where="seq::unique")], observe_at=["contents of the range, the output and the buffer", "allocations"], hook_needed=None),
 note=SEQNOTE),
]
TABLE += [
dict(id="C09", title="Instances that are only read, or not shared, need no synchronization",
 statement="Several threads may call const members (lookups, bounds, traversals, comparison, copy, hashing, casts) on one instance of any container, string or dynamic value of the library, while each of them freely modifies instances of its own, including copies of the shared one: there is no data race, also not on state that instances of a type share behind the scenes, and every call returns what it would return alone. A memory failure in one thread's operation has no effect on the other threads. Types met for the first time by several threads at once get one distinct identity each.",
 quantifier=dict(over=["schedules","histories","fault_sequences","configurations"], text="every way the shared instance came to be, 2 to 4 threads with every mix of reads of it and of operations on their own instances, every interleaving and allocation failure, 17 types"),
 why_tests_cant="The tests of these types use one thread; a lookup that updates a cache, or an instance that writes to an empty node all instances share, gives right results there.",
 anchors=dict(files=["seq/internal/radix_tree.hpp","seq/ordered_map.hpp","seq/internal/concurrent_hash_table.hpp","seq/any.hpp"], mechanism=[dict(name="empty tables share one static node", where="get_null_dir, null_node"), dict(name="position cached while reading", where="Directory::any_child"), dict(name="type numbers and type information created on first use", where="build_type_id, hold_any::get_type")], observe_at=["results of const calls while other tasks run", "happens-before between accesses to the heap and to static objects"], hook_needed=None),
 note="Seeded search over schedules, histories and allocation failures. Oracle: nothing orders the tasks but their start, so any conflicting pair of accesses (heap or static data) is reported from one execution; results against std::map/std::vector/std::string models.")
]
TABLE += [
dict(id="C10", title="Formatting gives its text whatever else is formatted, and reports failures",
 statement="What a formatting object produces is determined by its values and options alone: formatting in other threads (on objects of their own, also copies of a shared one), formatting done by a value while it is itself being formatted, and earlier formatting that failed never change it, whether the text goes to a new or existing string, a bounded or unbounded buffer, an iterator or a stream. A failing allocation or user function is reported, never a shorter text; what the string held before stays. Streams behave as with standard output functions: one that is not in a good state gets nothing, and one that cannot take all of the text shows it in its state.",
 quantifier=dict(over=["schedules","inputs","histories","fault_sequences"], text="24 kinds of formatted objects (numbers, texts, streamed and custom types nested in one another, groups, joins, functors with slots, dynamic slots), 11 destinations, 1 to 4 threads, every interleaving, allocation, user-code and stream failures, two character types"),
 why_tests_cant="The tests format in one thread, with types that do not format in turn, to streams that accept everything, with memory to spare.",
 anchors=dict(files=["seq/format.hpp","seq/any.hpp"], mechanism=[dict(name="buffers of the thread, shared by all formatting in it", where="ostream_buffer, to_chars_buffer, numeric_buffer, multi_ostream_buffer"), dict(name="values held by pointer", where="ValueHolder, base_ostream_format::operator()"), dict(name="types written through a string stream", where="write_to_string")], observe_at=["the text at its destination", "state of and exceptions from the stream", "text of the same object after a failure"], hook_needed=None),
 note="Seeded search over schedules, values and failures. Oracle: an independent model of the text of each kind; races on static data; life time of the values; no leaks.")
]
TABLE.sort(key=lambda p: p["id"])
NOT_APPLICABLE = []
