#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to maintain)."""
import json, os
I = "include/boost/multi_index/"
D = I + "detail/"
MIC = "include/boost/multi_index_container.hpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

prop("C01", "All indices of a container always show the same elements",
 "After any sequence of operations issued through any of its indices, every index of a multi_index_container reports the same size and enumerates, forwards and (where bidirectional) backwards, exactly the same element objects, each exactly once. Those are the elements the history of successful insertions, erasures and modifications implies, with the values it implies. iterator_to and project move between indices without ever leaving the element they refer to.",
 ["histories", "configurations"],
 "Every operation history over every combination of index kinds (ordered, ranked, hashed unique/non-unique, sequenced, random access, up to 6 indices), every position at which a later index rejects what earlier ones accepted.",
 "The suite runs a few dozen fixed scripts on two or three container types; the number of index combinations times histories (partial failures rolled back through several indices) is unbounded.",
 [MIC, D+"index_base.hpp", D+"ord_index_impl.hpp", I+"hashed_index.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp"],
 [("insert_/erase_/modify_/replace_ forwarded along the index inheritance chain", MIC),
  ("final_* entry points used by every index", D+"index_base.hpp")],
 ["size(), begin()..end(), rbegin()..rend(), iterator_to, project of every index"],
 [("node_count", "number of elements, owned once by the container", MIC)])

prop("C02", "Insertion is all-or-nothing and blocked only by a clashing element",
 "An insertion of any form (insert, hinted insert, range and initializer-list insert, emplace, emplace_hint, push/resize) adds exactly one element to every index if and only if no unique index already holds an element with an equivalent key. When it is refused, nothing in the container changes in any index and the returned iterator designates an element that really clashes with the new value in some unique index; when it succeeds the returned iterator designates the new element. Unique indices never hold two elements with equivalent keys.",
 ["histories", "inputs", "configurations"],
 "All prior contents, all values, all insertion entry points and hints, all positions of the unique index in the index list.",
 "Tests insert a few literal values; whether the refused insertion is undone in indices processed before the refusing one depends on prior structure (bucket groups, tree shape, positions).",
 [MIC, D+"index_base.hpp", D+"ord_index_impl.hpp", I+"hashed_index.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp"],
 [("link_point then super::insert_ then link", D+"ord_index_impl.hpp"), ("link_point/find of equivalent", I+"hashed_index.hpp")],
 ["return values of the insertion functions, contents of all indices before/after"])

prop("C03", "Ordered indices stay sorted and answer every lookup exactly",
 "An ordered index enumerates its elements in non-decreasing key order under its comparison object; plain insertion places an element after existing equivalents and hinted insertion as close as possible before the hint. find, count, contains, lower_bound, upper_bound, equal_range and range (with any compatible key, compatible comparison object, or unbounded bounds) and erase/extract by key return exactly what a linear scan of the sequence implies. Erasing ranges and single elements leaves the rest in the same relative order.",
 ["histories", "inputs"],
 "All insertion/erasure/modification histories (hence all tree shapes), all key domains and duplicates multiplicities, all hints, all bounds incl. empty and inverted ranges.",
 "Tree rebalancing has many cases reached only by particular histories; the suite uses a handful of small fixed trees.",
 [D+"ord_index_impl.hpp", D+"ord_index_node.hpp", D+"ord_index_ops.hpp", I+"ordered_index.hpp"],
 [("red-black tree link/rebalance/rebalance_for_extract", D+"ord_index_node.hpp"), ("hinted_link_point, link_point", D+"ord_index_impl.hpp"), ("lookup algorithms", D+"ord_index_ops.hpp")],
 ["ordered_unique / ordered_non_unique public interface"],
 [("header parent/left/right", "root, leftmost, rightmost of the tree", D+"ord_index_node.hpp")])

prop("C04", "Ranked indices agree with positions at all times",
 "In a ranked index nth(n), rank(it), find_rank, lower_bound_rank, upper_bound_rank, equal_range_rank, range_rank and count always equal the values obtained by counting positions in the enumerated sequence, for every n (end for n>=size) and every key or bound. This holds after any history of insertion (hinted or not), erasure, modification, replacement, node transfer, copy, swap and loading. Apart from these operations a ranked index behaves exactly as the corresponding ordered index.",
 ["histories", "inputs"],
 "All histories (all rotations and erase-with-two-children cases), all ranks and keys.",
 "Subtree counts are maintained through every rotation; a wrong count in one rebalancing case only shows for particular histories and particular ranks.",
 [I+"ranked_index.hpp", D+"rnk_index_ops.hpp", D+"ord_index_node.hpp", D+"ord_index_impl.hpp"],
 [("rank policy add/remove/copy/rotate", I+"ranked_index.hpp"), ("ranked_index_nth/rank/...", D+"rnk_index_ops.hpp")],
 ["nth, rank, *_rank, count"],
 [("size field of a ranked node", "number of nodes in the subtree", I+"ranked_index.hpp")])

prop("C05", "Hashed indices find exactly the elements with an equivalent key",
 "For any hash function quality, a hashed index's find, count, contains, equal_range, erase/extract by key (also through compatible keys and user-supplied hash/equality objects) return exactly the elements with keys equivalent to the argument, and its enumeration keeps equivalent elements adjacent. The bucket interface is consistent: every element is enumerated in exactly the bucket that bucket(key) names, bucket_size counts it, local iterators and bucket totals add up to size(), and bucket_count never shrinks below what rehash/reserve asked for while size() <= bucket_count()*max_load_factor() after every insertion, rehash or reserve. Rehashing changes neither the contents nor the grouping nor the validity of iterators.",
 ["histories", "inputs", "configurations"],
 "All histories, all hash distributions (perfect to constant), all group sizes (1,2,>=3), unique and non-unique, interleaved with rehash, reserve, max_load_factor changes.",
 "Groups of 1, 2 and >=3 equivalent elements are linked differently and the links at bucket boundaries differ; the suite covers few of these shapes.",
 [I+"hashed_index.hpp", D+"hash_index_node.hpp", D+"bucket_array.hpp", D+"hash_index_iterator.hpp"],
 [("node_alg link/unlink/unlink_range for unique and non-unique", D+"hash_index_node.hpp"), ("unchecked_rehash, check_load", I+"hashed_index.hpp"), ("bucket sizes and position", D+"bucket_array.hpp")],
 ["hashed_unique / hashed_non_unique public interface incl. local iterators"],
 [("prior/next with group links", "element lists with bucket and group boundary encoding", D+"hash_index_node.hpp")])

prop("C06", "Sequenced indices behave as a list filtered by the other indices",
 "A sequenced index's order is changed only as its list operations say: push/insert/emplace at a position, erase, resize, assign, splice (same or other container), remove(_if), unique, merge, sort, reverse, relocate and rearrange yield exactly the sequence std::list semantics imply, with elements banned by other indices left out (or left in the source). sort and merge are stable, and insertion of a range keeps its order. No other index's order or membership is disturbed by repositioning.",
 ["histories", "inputs", "configurations"],
 "All sequences, positions, ranges (including empty, adjacent and self ranges), predicates, and sources; companion unique indices banning arbitrary subsets.",
 "The suite compares a few literal sequences; range/position coincidences and banned elements in the middle of a splice or merge are not enumerated.",
 [I+"sequenced_index.hpp", D+"seq_index_ops.hpp", D+"seq_index_node.hpp"],
 [("link/unlink/relink/reverse/swap", D+"seq_index_node.hpp"), ("sequenced_index_remove/unique/merge/sort", D+"seq_index_ops.hpp")],
 ["sequenced index enumeration after each operation"])

prop("C07", "Random access indices behave as a vector of stable elements",
 "A random access index's positional view is exact after any history: operator[], at (throwing out_of_range exactly for n>=size()), front, back, iterator arithmetic, differences and comparisons all agree with the enumerated sequence, and its insert/erase/resize/assign/splice/relocate/rearrange/remove/unique/merge/sort/reverse operations give the sequence the std::vector/std::list semantics imply with banned elements left out. capacity() >= size() always, reserve(n) makes capacity() >= n, shrink_to_fit makes it size(), and none of these nor any growth changes the contents or invalidates iterators.",
 ["histories", "inputs", "configurations"],
 "All histories around the capacity boundary, all positions and ranges, companion indices that reject or erase elements.",
 "Positions are stored both ways (array of pointers and back pointers); one slipped back pointer only shows for later operations at particular positions.",
 [I+"random_access_index.hpp", D+"rnd_index_ops.hpp", D+"rnd_index_node.hpp", D+"rnd_node_iterator.hpp", D+"rnd_index_ptr_array.hpp"],
 [("ptr array and up() back pointers; relocate, gather_nulls, extract, transfer", D+"rnd_index_node.hpp"), ("room_for_one/reserve/shrink", D+"rnd_index_ptr_array.hpp")],
 ["random_access index public interface"],
 [("up()", "back pointer of a node into the pointer array", D+"rnd_index_node.hpp")])

prop("C08", "replace, modify and modify_key re-seat an element or undo exactly",
 "replace succeeds if and only if the new value clashes with no other element in any unique index; then every index holds the new value at a correct place, otherwise nothing changes. modify/modify_key apply the modifier once and re-seat the element in every index, erasing it (and only it) if it clashes and no rollback is given; with a rollback that restores the value the element is kept, in its original position in every index. Whenever the key seen by an index is equivalent before and after, the element's position in that index does not change, and iterators to the element stay valid unless it was erased.",
 ["histories", "inputs", "configurations"],
 "All contents, all old/new key pairs (same place, neighbouring, far, clashing in first/middle/last index), modifiers and rollbacks, all index combinations.",
 "In-place tests compare with neighbours at tree/bucket/group edges; the suite exercises a few of the neighbour configurations and clashing index positions.",
 [MIC, D+"ord_index_impl.hpp", I+"hashed_index.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp", D+"modify_key_adaptor.hpp"],
 [("replace_/modify_/modify_rollback_/check_rollback_ per index", D+"ord_index_impl.hpp"), ("same for hashed", I+"hashed_index.hpp"), ("modify_ with rollback", MIC)],
 ["return value, contents and order of every index, iterator validity"])

prop("C09", "A user-code exception never corrupts the container",
 "If a comparison, hash, equality, key extraction, element copy/move/assignment, modifier, rollback, predicate or memory allocation throws during any operation, the exception reaches the caller, every index of every container involved remains consistent and usable, and no element is leaked or destroyed twice. Operations documented as strong (single-element insertion, replace, transfer of one node, copy and assignment, rehash/reserve, modify with a restoring rollback) leave all contents and orders as they were, and a node handle passed to a failed insertion still owns its element. modify erases exactly the element being modified if the exception leaves it unrestored, and range, list and loading operations leave a subset/prefix of the documented effect.",
 ["fault_sequences", "histories", "configurations"],
 "Every point at which user code or the allocator is called during an operation, failing there, over histories leading to it.",
 "The suite has no systematic fault injection: only a few tests throw, at one place each.",
 [MIC, D+"ord_index_impl.hpp", I+"hashed_index.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp", D+"copy_map.hpp", D+"auto_space.hpp", D+"index_loader.hpp"],
 [("BOOST_TRY/BOOST_CATCH cleanup in insert_/emplace_/modify_", MIC), ("unlink_undo, scope guards", I+"hashed_index.hpp"), ("copy_map destructor", D+"copy_map.hpp")],
 ["contents, order, live-object and allocation accounting after an injected failure, continued use of the container"])

prop("C10", "Copies, moves, assignments and swaps preserve value and every order",
 "Copy construction/assignment yields an equal container whose every index lists copies in the same order as the source, which is untouched and thereafter independent; move construction/assignment and swap transfer all contents with every index's order, and (when allocators are equal or propagate) transfer the very same element objects, leaving a usable source. Comparison, hash and key-extraction objects travel with the contents as documented, the results continue to behave as any container would, and assignment from self or from an initializer list (through any index) obeys the same rules. The allocator is replaced exactly when the propagation traits say so.",
 ["histories", "configurations", "inputs"],
 "All contents built by arbitrary histories, all index combinations, all combinations of propagation traits and equal/unequal allocators, stateful function objects; arbitrary use of both sides afterwards.",
 "The suite checks equality of small copies for one container; copy relies on re-deriving every link by an address map, which depends on contents and history.",
 [MIC, D+"copy_map.hpp", D+"ord_index_impl.hpp", I+"hashed_index.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp", D+"auto_space.hpp"],
 [("copy_map and per-index copy_", D+"copy_map.hpp"), ("swap_/swap_elements_/move assignment with allocator dispatch", MIC)],
 ["order of every index of both containers, element addresses, get_allocator, key_comp/hash_function state"])

prop("C11", "Iterators and references stay valid until their element is erased",
 "An iterator or reference obtained from any index keeps designating the same element object through every operation that does not erase that element: insertions, other erasures, rehash, reserve, capacity changes, sort, reverse, relocate, splice, rearrange, successful modify or replace, swap and move of the container, and transfer between containers. Past-the-end iterators stay valid until their container is swapped, moved, assigned or destroyed. Incrementing/decrementing such an old iterator walks the current order of its index.",
 ["histories", "configurations"],
 "All histories between obtaining and using the iterator, all index kinds.",
 "Long-lived iterators across arbitrary histories are not tested; the suite re-obtains iterators after each step.",
 [MIC, D+"bidir_node_iterator.hpp", D+"hash_index_iterator.hpp", D+"rnd_node_iterator.hpp", D+"header_holder.hpp"],
 [("node based storage; header swap", MIC), ("iterators are node pointers", D+"bidir_node_iterator.hpp")],
 ["addresses of elements, dereference and walk of retained iterators of every index"])

prop("C12", "Nodes move between containers without copies, losses or duplicates",
 "extract removes exactly one element from every index and the node handle owns that very object; inserting the handle, or merge/splice of one element or a range between node-compatible containers (unique into non-unique and vice versa), moves exactly those elements that no unique index of the destination bans, leaving the others in the source in unchanged order, without copying, moving or destroying any element object. Return values describe what happened, a handle not inserted keeps or gives back its element, and destroying a handle destroys its element once with the right allocator. Merging a container with itself changes nothing.",
 ["histories", "inputs", "configurations"],
 "All source/destination contents, ranges, clash patterns, handle life cycles (move, swap, reuse, drop).",
 "The suite covers a few fixed merges; node transfer has to undo partial linkage in the destination and unlink from the source in every index.",
 [MIC, D+"node_handle.hpp", D+"index_base.hpp", I+"hashed_index.hpp", D+"ord_index_impl.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp", D+"invalidate_iterators.hpp", D+"index_access_sequence.hpp"],
 [("transfer_/extract_for_transfer_/insert_nh_", MIC), ("node_handle", D+"node_handle.hpp")],
 ["element addresses and construct/destroy counters across containers and handles"])

prop("C13", "Saving and loading reproduces contents, every order and iterators",
 "Loading an archive produced by saving a container yields, in every index, copies of the same elements in the same order as the saved one (for hashed indices: the same groups), replacing whatever the target held, for text, binary and XML archives. Iterators of any index saved after the container load as iterators to the corresponding element, or end, and so do pointers to elements or their parts; elements shared between containers stay shared; user-defined element versions and constructor data reach the element's own functions. Archives of earlier class versions of the container still load. An archive that is truncated, corrupted or not admissible for the target's unique indices makes loading throw and leaves a consistent, usable container.",
 ["inputs", "histories", "fault_sequences"],
 "All contents and orders (arbitrarily permuted non-key indices), all archive kinds, target pre-states and truncation points.",
 "The suite serializes a few small containers; order is reconstructed from a compressed 'misfit' list whose content depends on the actual permutation.",
 [MIC, D+"index_saver.hpp", D+"index_loader.hpp", D+"index_matcher.hpp", D+"rnd_index_loader.hpp", D+"ord_index_impl.hpp", I+"hashed_index.hpp", D+"archive_constructed.hpp", D+"duplicates_iterator.hpp"],
 [("index_matcher longest increasing subsequence", D+"index_matcher.hpp"), ("index_saver/index_loader relocation", D+"index_loader.hpp")],
 ["loaded container compared index by index; loaded iterators; exceptions on damaged archives"])

prop("C14", "Composite keys compare, hash and match as tuples of their components",
 "Comparison of composite keys with each other and with (std or boost) tuples is lexicographic over the component keys with the component comparison objects, equality and hashing are component-wise, and equal keys always hash equally. In an ordered or ranked index, lookups with a tuple of the first k components (or a single value for the first) select exactly the contiguous range of elements whose leading components match; in a hashed index lookups with a full tuple select exactly the matching elements. Comparison objects given per component (less, greater, mixed, user-defined) are each honoured in their place.",
 ["inputs", "configurations"],
 "All component values, all prefix lengths, all component comparators and tuple types.",
 "The suite evaluates comparisons on a few literals; prefixes, mixed-direction comparators and index lookups over random contents are not explored.",
 [I+"composite_key.hpp", D+"cons_stdtuple.hpp"],
 [("compare_ckey_*/equal_ckey_*/hash_ckey/hash_cval", I+"composite_key.hpp"), ("std::tuple adaption", D+"cons_stdtuple.hpp")],
 ["operators on composite_key_result, composite_key_compare/equal_to/hash, index lookups"])

prop("C15", "Key extractors return the designated key of the designated object",
 "identity, member, mem_fun (all qualifiers), global_fun, key<> and composite keys built from them return exactly the designated part of the object passed, whether it is passed directly, by reference_wrapper, or through any chain of raw or smart pointers, and return a reference to that part (not a copy) when they are reference-returning. Extractors that are documented read/write allow changing the key in place through modify_key; const objects are never modified. Containers of pointers keyed through such chains behave as containers keyed on the pointee.",
 ["inputs", "configurations"],
 "All object values, chain shapes and depths, const/non-const and by-reference/by-value access paths, used standalone and inside indices.",
 "Tests check a fixed object per extractor and do not compare chains of differing shape over generated data or in live containers.",
 [I+"identity.hpp", I+"member.hpp", I+"mem_fun.hpp", I+"global_fun.hpp", I+"key.hpp", I+"key_extractors.hpp", D+"modify_key_adaptor.hpp"],
 [("overload sets on ChainedPtr/reference_wrapper", I+"member.hpp"), ("key<> deduction", I+"key.hpp")],
 ["returned value and address, index order of pointer containers"])

prop("C16", "Elements and memory are acquired and released exactly once",
 "Every element object that is constructed is destroyed exactly once, and every block obtained from an allocator is returned exactly once, with the same size, to an allocator equal to the one it came from, over the life of any set of containers and node handles and whatever histories or failures they go through. An empty container set holds no live elements. Elements are constructed, at addresses aligned as their type requires, and destroyed through the container's allocator, containers use only the allocator they report, and the copies of it that containers and node handles hold are destroyed exactly once as well.",
 ["histories", "fault_sequences", "configurations"],
 "All histories and injected failures, stateful unequal allocators with all propagation traits, allocators with fancy pointers, all index kinds with auxiliary storage.",
 "The suite does not account allocations; leaks or mismatched deallocations in auxiliary arrays only show with unequal stateful allocators or failures at particular points.",
 [MIC, D+"auto_space.hpp", D+"bucket_array.hpp", D+"rnd_index_ptr_array.hpp", D+"copy_map.hpp", D+"node_handle.hpp", D+"allocator_traits.hpp"],
 [("allocate_node/deallocate_node/construct_value/destroy_value", MIC), ("auto_space RAII", D+"auto_space.hpp")],
 ["per-allocator ledger of blocks and objects, sanitizers"])

prop("C17", "Debug modes accept all valid use and report invalid use",
 "With safe mode and/or invariant checking enabled, any history of valid operations runs with the same observable results as without them and without a single report. With safe mode, use of an iterator that is singular, stale (its element erased or container destroyed), past the end where a dereferenceable one is needed, out of bounds, of another container, or an invalid or overlapping range is reported with the documented error code before the container is damaged. Iterators into swapped, moved-from or spliced containers are tracked to their new owner.",
 ["histories", "inputs", "configurations"],
 "All valid histories (no false report) and all kinds of misuse after arbitrary histories (no missed report), all index kinds.",
 "The suite triggers each report once in a fixed situation; iterator tracking across swaps, transfers, erasures through other indices is history dependent.",
 [D+"safe_mode.hpp", I+"safe_mode_errors.hpp", D+"any_container_view.hpp", D+"iter_adaptor.hpp", D+"invariant_assert.hpp"],
 [("safe_iterator/safe_container attach, detach, transfer", D+"safe_mode.hpp"), ("invariant_()", D+"ord_index_impl.hpp")],
 ["BOOST_MULTI_INDEX_SAFE_MODE_ASSERT error codes, BOOST_MULTI_INDEX_INVARIANT_ASSERT"])

prop("C18", "Container and index comparisons agree with element-wise comparison",
 "For ordered, ranked, sequenced and random access indices ==, !=, <, >, <=, >= equal the element-wise/lexicographic comparison of the two enumerated sequences, for any pair of index types with comparable elements; for hashed indices == holds exactly when both have the same elements up to permutation within each group of equivalent keys, regardless of bucket counts and insertion order. A container compares as its first index, == is reflexive and symmetric, and swap through any index exchanges both sides.",
 ["inputs", "histories", "configurations"],
 "All pairs of contents including equal sets with different histories, sizes and bucket counts, near-equal pairs, large groups.",
 "The suite compares a few hand-written containers; unordered equality over groups with partial permutations is input dependent.",
 [MIC, I+"hashed_index.hpp", D+"ord_index_impl.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp"],
 [("hashed_index equals", I+"hashed_index.hpp"), ("std::equal/lexicographical_compare forwards", D+"ord_index_impl.hpp")],
 ["the six operators"])

prop("C19", "Operations stay within their documented complexity",
 "The number of user-visible operations (key comparisons, hash and equality evaluations, element constructions, allocations) per call respects the documented bounds whatever the history: logarithmic for ordered lookups and insertions, constant for well-hinted insertion and in-place modification/replacement, no comparisons for erasure by iterator or iteration, average constant for hashed lookups under a good hash and independent of the size of equivalent groups, logarithmic rank operations and ranked count, amortized constant growth of buckets and of random access capacity. Erasing, inserting, iterating or relocating never evaluates predicates on unrelated elements, and an element is never copied or moved once inserted.",
 ["histories", "inputs"],
 "Adversarial and random histories of sizes up to tens of thousands, sorted/reversed/alternating insertion, deletions from one end, large equivalent groups.",
 "The suite measures no complexity at all; a lost rebalance, missed growth or linear walk keeps all results correct.",
 [D+"ord_index_node.hpp", D+"ord_index_impl.hpp", D+"ord_index_ops.hpp", D+"rnk_index_ops.hpp", I+"hashed_index.hpp", D+"hash_index_node.hpp", D+"bucket_array.hpp", D+"rnd_index_ptr_array.hpp"],
 [("red-black balancing", D+"ord_index_node.hpp"), ("group skipping links", D+"hash_index_node.hpp"), ("geometric growth", D+"rnd_index_ptr_array.hpp")],
 ["counters in comparison, hash, equality, element and allocator objects"])

prop("C20", "Results do not depend on build configuration or pointer representation",
 "The same history produces the same observable results (contents, orders, return values, lookups, archives) for every supported configuration: any C++ standard and optimisation level, compressed or uncompressed nodes, raw or user-defined allocator pointers, safe mode or invariant checking on or off, and with each element type category (copyable, move-only, final or empty function objects). Archives written by one configuration load in another.",
 ["configurations", "histories"],
 "Pairs of configurations times generated histories.",
 "The suite runs its fixed scripts per standard, never compares configurations with each other and never disables node compression over a generated history.",
 [D+"ord_index_node.hpp", D+"raw_ptr.hpp", D+"uintptr_type.hpp", D+"vartempl_support.hpp", D+"allocator_traits.hpp", D+"hash_index_node.hpp", D+"index_node_base.hpp"],
 [("compressed vs uncompressed ordered nodes", D+"ord_index_node.hpp"), ("pointer rebind machinery", D+"allocator_traits.hpp")],
 ["trace digests of generated histories per build variant"])

prop("C21", "Concurrent reading of one container and use of different ones is safe",
 "Threads that only read a container (any const operation, including lookups, traversal, projection, bucket and rank queries, comparison, copying, archiving, and copying, assigning and destroying its iterators) need no synchronisation with each other, and threads that use different containers need none either, whatever these containers exchanged or shared before (elements, nodes, iterators, allocators, hash or comparison objects): there are no data races or deadlocks, and each thread obtains the results of a sequential execution. This holds in normal and in safe mode, where iterators register with their container.",
 ["schedules", "histories"],
 "All interleavings of threads and all histories of the containers involved.",
 "The suite is single-threaded throughout; the guarantee is lost by any mutable cache, static scratch object or unlocked list of iterators without a visible effect on single-threaded results.",
 [D+"safe_mode.hpp", D+"scoped_bilock.hpp", I+"hashed_index.hpp", D+"ord_index_impl.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp", D+"bucket_array.hpp", MIC],
 [("guarantee stated in the release notes of 1.33.1", "doc/release_notes.html"), ("iterator registration under the container's mutex", D+"safe_mode.hpp")],
 ["ThreadSanitizer reports and per-thread results"])

prop("C22", "Documented alternative forms of an operation have the same effect",
 "Where the documentation defines an operation by another one or offers it in several forms, all forms have the same effect and report the same: insertion of copies, moved values, emplaced values, node handles and merged elements; insertion of n copies, of ranges of any iterator category and initializer lists, and one by one; assign, resize, clear, pop, remove, unique, sort, reverse, merge, splice and relocate against their definitions through single-element operations and rearrange; erasure by iterator, range, key and extraction; modify, modify with rollback, replace, through any index and projected iterator; lookups with the key, a convertible or transparent key type and explicit compatible predicates, against range, bounds, ranks and positions; const and non-const, forward and reverse, global and local iteration; copying, moving, assigning, swapping in any way; indices obtained by number or tag, by member or free function; comparison operators. Orders the documentation leaves open are exempt.",
 ["histories", "inputs"],
 "All histories, each operation in every documented form through every index kind.",
 "The suite exercises each overload on a few literals and never compares two forms on generated states.",
 [I+"ordered_index.hpp", D+"ord_index_impl.hpp", I+"hashed_index.hpp", I+"sequenced_index.hpp", I+"random_access_index.hpp", I+"ranked_index.hpp", MIC],
 [("equivalences in the semantics of each index", "doc/reference/"), ("assign, resize, remove, unique, integral dispatch", I+"sequenced_index.hpp"), ("promotion of lookup arguments", D+"promotes_arg.hpp")],
 ["twin containers driven by different forms"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
