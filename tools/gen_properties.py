#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json
I='include/boost/intrusive/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=I+b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Doubly linked lists always hold exactly the documented sequence",
 "After any sequence of operations on intrusive lists, forward traversal yields exactly the sequence of objects the documented effect of each operation produces, backward traversal yields its exact reverse, and front, back and the iterators returned by insert/erase designate the documented positions. No object is lost, duplicated or reordered, whatever the hook, link mode, pointer type or size option.",
 ["histories","configurations"],"every finite history of list operations over any set of objects, for every list configuration",
 "test/list_test.cpp checks a handful of fixed five-element scripts; it never enumerates argument positions (first/last/empty/self ranges) in every reachable state or all option combinations.",
 ["list.hpp","circular_list_algorithms.hpp","detail/list_iterator.hpp"],
 [("link_before/unlink/transfer","circular_list_algorithms.hpp"),("list_impl members","list.hpp")],
 [("header node ring","circular next/previous links through the header","list_impl::data_.root_plus_size_.m_header")],["begin/end, rbegin/rend, front/back after every call"])
p("C02","Singly linked lists always hold the documented sequence in every layout",
 "After any sequence of operations on intrusive slists, traversal yields exactly the documented sequence, and returned iterators, front, before_begin and previous() designate the documented positions, in the circular, null-terminated (linear) and last-caching layouts alike. Where the last element is cached, back(), last() and push_back always act on the true last element.",
 ["histories","configurations"],"every finite history of slist operations, for circular/linear x cache_last x link mode x size option",
 "test/slist_test.cpp replays short fixed scripts; the cached last pointer is only wrong after specific predecessor operations (erase/splice/merge/sort/swap touching the tail) that the scripts do not combine.",
 ["slist.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/common_slist_algorithms.hpp","detail/slist_iterator.hpp"],
 [("cache_last updates","slist.hpp"),("priv_swap_cache_last","slist.hpp"),("slist algorithms","circular_slist_algorithms.hpp")],
 [("cached last node","pointer to last element or to the header when empty","slist_impl::data_.root_plus_size_.last_")],["traversal, back(), last(), previous() after every call"])
p("C03","Bulk list rearrangements move exactly the right elements, stably",
 "For list and slist, splice/splice_after, merge, sort, reverse, shift, unique and remove(_if) conserve the objects involved: afterwards every object is in exactly one of the lists named by the operation or was removed as documented, and none is in two places. Sort and merge produce a sorted, stable result (equivalent elements of the destination precede those of the source), unique keeps the first of each run, and a predicate-based removal keeps the order of the rest.",
 ["inputs","histories"],"all pairs of lists, all key patterns including duplicates, all ranges and positions (including empty, whole-list, adjacent and self ranges)",
 "The tests sort/merge/splice one or two fixed lists; stability, self-splices, tails and duplicate patterns need all inputs.",
 ["list.hpp","slist.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp"],
 [("sort/merge","list.hpp"),("sort/merge/splice_after","slist.hpp"),("transfer, stable_partition, reverse, move_forward","circular_list_algorithms.hpp")],(),["both lists after each bulk call"])
p("C04","Ordered containers stay sorted; unique ones stay unique; hints are honoured",
 "In every set, multiset and generic tree (red-black, AVL, splay, scapegoat, treap, plain binary), iteration is always in comparator order, a unique insertion succeeds exactly when no equivalent element is present and otherwise returns the blocking element, and insertion, erasure by iterator, range or key and container merge affect exactly the documented elements. Equivalent elements keep insertion order: an unhinted insertion goes to the upper bound and a hinted one as close as possible to the hint.",
 ["histories","inputs","configurations"],"every history of insertions (plain, hinted, ranged, positional), erasures and merges over any keys, for all six tree families and their set/multiset front ends",
 "The generic set tests use about ten fixed integers and check a few positions; hint x duplicate-pattern x tree-shape combinations are not enumerated.",
 ["bstree.hpp","bstree_algorithms.hpp","rbtree.hpp","avltree.hpp","sgtree.hpp","treap.hpp","splaytree.hpp","set.hpp","avl_set.hpp","bs_set.hpp","sg_set.hpp","splay_set.hpp","treap_set.hpp"],
 [("insert_equal_check/insert_unique_check","bstree_algorithms.hpp"),("merge_unique/merge_equal","bstree.hpp")],(),["in-order iteration and returned iterator/flag after each call"])
p("C05","Ordered lookups return exactly the elements their definition names",
 "For any ordered container and any key, find, lower_bound, upper_bound, equal_range, count and bounded_range (with either openness) return exactly the positions defined by the comparator on the current contents, in const and non-const form, with the container's own comparator or a compatible heterogeneous key and comparator. find returns an end iterator exactly when no equivalent element exists.",
 ["inputs","histories"],"all contents (any duplicate pattern and tree shape), all keys present, absent, below and above, all bound-openness combinations",
 "Tests look up a few keys in one fixed tree; the bounded_range and equal_range descents depend on tree shape and duplicate layout.",
 ["bstree.hpp","bstree_algorithms.hpp","splaytree.hpp","splaytree_algorithms.hpp","treap.hpp","sgtree.hpp"],
 [("bound descents","bstree_algorithms.hpp"),("splaying lookups","splaytree_algorithms.hpp")],(),["every lookup, for every key, in every reached state"])
p("C06","Red-black and AVL trees are balanced after every operation",
 "After every operation on a red-black container the root is black, no red node has a red child and every root-to-leaf path has the same number of black nodes; after every operation on an AVL container each node's stored balance equals the height difference of its subtrees and is within one. Hence height stays logarithmic for every history, including erasures, node swaps/replacements, merges, clones and compact (bit-stealing) hooks.",
 ["histories","configurations"],"all histories of insertions and erasures in any order, all tree shapes, both compact and plain nodes",
 "A wrong rotation or colour fix-up only shows for particular shapes; tests that merely read keys back still pass on an unbalanced tree.",
 ["rbtree_algorithms.hpp","avltree_algorithms.hpp","rbtree.hpp","avltree.hpp","detail/rbtree_node.hpp","detail/avltree_node.hpp","pointer_plus_bits.hpp"],
 [("rebalance_after_insertion/erasure","rbtree_algorithms.hpp"),("rebalance_after_insertion/erasure, rotations","avltree_algorithms.hpp")],
 [("node colour / balance","stored in the node or in low pointer bits","detail/rbtree_node.hpp, detail/avltree_node.hpp")],["node links and colour/balance through node_traits after each call"])
p("C07","Scapegoat trees respect their height bound for the configured balance factor",
 "After every insertion into a scapegoat container the tree height stays within the documented bound log_{1/alpha}(max size) + 1 for the currently configured alpha (erasures rebuild once the tree has shrunk enough), changing the balance factor at run time re-establishes the bound, and an explicit rebalance yields a tree of minimal height with unchanged contents.",
 ["histories","configurations"],"all histories of insertions, erasures, clears, swaps and balance-factor changes, for fixed and floating alpha",
 "The sg tests check order only; a wrong size/max-size bookkeeping or depth limit never fails them.",
 ["sgtree.hpp","sgtree_algorithms.hpp","bstree_algorithms.hpp","detail/math.hpp"],
 [("h_alpha / rebalance on insertion","sgtree_algorithms.hpp"),("max_tree_size bookkeeping","sgtree.hpp"),("rebalance","bstree_algorithms.hpp")],
 [("max_tree_size","largest size since last rebuild","sgtree_impl")],["tree shape after each call"])
p("C08","Treaps keep the priority heap order and give the strong guarantee",
 "After every operation on a treap container no node has a higher priority than its parent and top() is a highest-priority element. If the key or priority ordering throws during an insertion or erasure, the container is left exactly as it was (same elements, same order, heap intact) and the object being inserted stays unlinked.",
 ["histories","fault_sequences"],"all histories with any priorities (including ties) and a throw at every possible comparison",
 "Tests use one fixed priority assignment and never inject a throwing comparison at each point.",
 ["treap.hpp","treap_algorithms.hpp","priority_compare.hpp","treap_set.hpp"],
 [("rebalance_after_insertion/erasure and check functions","treap_algorithms.hpp")],(),["links, priorities and contents after each call, including calls that throw"])
p("C09","Splaying preserves contents and order; const lookups do not restructure",
 "Splaying (by non-const lookups, insertions, erasures, splay_up/splay_down) never changes the in-order contents. After splay_up, or after a positional insertion (insert_before, push_back, push_front), that element is the root; after a non-const find, lower_bound, upper_bound, equal_range or bounded range, an insertion check or a splay_down with a key, the root is an element equivalent to the key whenever there is one. Const lookups leave the tree structure untouched.",
 ["histories"],"all histories mixing lookups (hit and miss), insertions, erasures and explicit splays, over all shapes",
 "Tests check order after scripted steps but not where the accessed node ends up or that const lookups are read-only.",
 ["splaytree.hpp","splaytree_algorithms.hpp","splay_set.hpp"],
 [("splay_up/splay_down","splaytree_algorithms.hpp")],(),["links before/after each lookup"])
p("C10","Tree links, header and extremes stay mutually consistent",
 "In every tree container, after every operation, each child's parent link names its parent, the header names the root and the true leftmost and rightmost nodes, and forward and reverse iteration visit the same elements in opposite orders. This includes node-level operations: replacing, removing or swapping nodes (adjacent or across trees), leftmost unlinking, rebalancing a tree or subtree.",
 ["histories"],"all tree shapes and all node pairs/positions for the node-level operations",
 "A stale parent or leftmost/rightmost link is invisible to tests that only iterate forwards over small fixed trees.",
 ["bstree_algorithms.hpp","bstree.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree_algorithms.hpp","treap_algorithms.hpp","splaytree_algorithms.hpp","detail/tree_iterator.hpp"],
 [("swap_nodes/replace_node/erase/rebalance_subtree/unlink_leftmost","bstree_algorithms.hpp")],
 [("header node","parent=root, left=leftmost, right=rightmost","bstree header")],["node_traits links reached from end().pointed_node()"])
p("C11","Unordered containers hold exactly the right elements and lookups find them",
 "In every unordered set/multiset, after any history, iteration visits each contained element exactly once with equivalent elements adjacent; find, count and equal_range agree with the contents; unique insertion succeeds exactly when no equivalent element is present; and erasure by iterator, range or key removes exactly the documented elements. This holds for any hash function (including total collisions) and every option combination.",
 ["histories","configurations","inputs"],"all histories, all key/hash collision patterns, all combinations of store_hash, optimize_multikey, compare_hash, cache_begin, power_2/fastmod/linear buckets, incremental",
 "Tests use a few option combinations, one hash and scripted values; group/chain boundary cases (erase first/last/middle of an equal group at a bucket edge) are not enumerated.",
 ["hashtable.hpp","unordered_set.hpp","unordered_set_hook.hpp","detail/hashtable_node.hpp"],
 [("bucket chain and group handling","hashtable.hpp"),("iterators","detail/hashtable_node.hpp")],
 [("cached begin bucket","first non-empty bucket","bucket_hash_equal_t")],["iteration, lookups for every key, local iteration after each call"])
p("C12","Every element is in the bucket its hash selects, across every rehash",
 "For every element of an unordered container, the bucket reported for its key is the bucket whose local range contains it, bucket sizes sum to the container size, and no other bucket contains it. Full, partial and incremental rehashing (growing and shrinking, to larger, smaller or the same bucket array) and stored-hash use preserve contents, equivalence groups and this placement.",
 ["histories","configurations"],"all interleavings of insertions, erasures and rehash steps at every split position and bucket count",
 "Tests rehash between two or three fixed sizes; incremental split boundaries with groups straddling them are not covered.",
 ["hashtable.hpp","detail/hashtable_node.hpp"],
 [("priv_rehash_impl/incremental_rehash","hashtable.hpp"),("hash_to_bucket_split","hashtable.hpp")],
 [("split count","number of active buckets under incremental hashing","hashdata_internal")],["begin(n)/end(n), bucket(key), bucket_size(n), split_count"])
p("C13","Bucket indices are exact for every hash and every suggested bucket count",
 "suggested_lower_bucket_count(n) returns the smallest supported bucket count not below n and suggested_upper_bucket_count(n) the smallest one above n, saturating at the largest supported count that the size type can hold; with fastmod_buckets every suggested count is accepted as a bucket count. For every hash value the bucket index reported by bucket(key) equals the hash reduced by the bucket count (remainder, mask, or linear-hashing split rule, as configured); in particular the multiplication-based modulo of fastmod_buckets gives exactly the true remainder of the 32-bit value it reduces (the hash with its two halves added modulo 2^32), for every such value.",
 ["inputs"],"all hash values (full machine-word range) and all suggested bucket counts",
 "The fast-modulo reciprocals are a table of constants; a single wrong entry misplaces only some hash values for one bucket count.",
 ["hashtable.hpp"],
 [("prime_fmod_size / prime_list_holder","hashtable.hpp"),("hash_to_bucket_split","hashtable.hpp")],(),["suggested_*_bucket_count, bucket(key)"])
p("C14","With safe hooks, an object reports linked exactly while it is in a container",
 "With safe-link or auto-unlink hooks, a hook is in the default (unlinked) state after construction, copy construction and after its object leaves a container by any route (erase, pop, clear, remove, unique, assignment, dispose variants, failed or rolled-back operations, container destruction), and reports linked exactly while the object is in a container. Copying or assigning an object never links or unlinks anything.",
 ["histories","configurations"],"all histories and all removal routes of all containers",
 "Tests check is_linked after a couple of erase/clear calls per container; dozens of removal routes are never followed by a check.",
 ["detail/generic_hook.hpp","list.hpp","slist.hpp","bstree.hpp","hashtable.hpp","any_hook.hpp","link_mode.hpp"],
 [("init on erase","list.hpp"),("node init in disposers","detail/simple_disposers.hpp"),("generic_hook","detail/generic_hook.hpp")],(),["hook.is_linked() of every object after every call"])
p("C15","Auto-unlink removes exactly the object, from whichever container holds it",
 "With auto-unlink hooks, unlink() or destruction of a linked object removes exactly that object from the container holding it, leaves all other elements, their order and the structural invariants of the container intact, and leaves the hook unlinked. On an unlinked object it has no effect.",
 ["histories"],"all containers supporting auto-unlink, all states, every position of the object",
 "The auto-unlink tests unlink one or two objects per container and then only compare sizes/contents.",
 ["detail/generic_hook.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","hashtable.hpp","unordered_set_hook.hpp"],
 [("generic_hook::unlink and destructor","detail/generic_hook.hpp"),("container-free unlink","bstree_algorithms.hpp"),("unlink for grouped hash nodes","unordered_set_hook.hpp")],(),["containers after each unlink/destroy"])
p("C16","size() and empty() always agree with the contents",
 "In every container, size() equals the number of elements visited by iteration and empty() is true exactly when there are none, after every operation and for constant-time and linear-time size configurations, including operations that move elements between containers, throw, or unlink objects silently.",
 ["histories","configurations"],"all histories of all containers in both size modes",
 "Counter drift arises from specific operations (range splices, self-splices, partial erases, exceptions) not followed by a size check in the tests.",
 ["detail/size_holder.hpp","list.hpp","slist.hpp","bstree.hpp","sgtree.hpp","hashtable.hpp"],
 [("size_holder","detail/size_holder.hpp")],(),["size(), empty() of both containers after every call"])
p("C17","Disposers run exactly once per removed element, after it is unlinked",
 "Every dispose-variant (erase, pop, clear, remove, unique, assign, clone cleanup, key erasure) calls the disposer exactly once for each element it removes and for no other, in container order, and at the time of the call the element is already out of the container so that it may be destroyed or inserted elsewhere at once.",
 ["histories","inputs"],"all dispose-variants, all ranges and key patterns, all containers",
 "Tests dispose with null or counting functors on fixed inputs and rarely free/poison the element inside the disposer.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","hashtable.hpp","detail/simple_disposers.hpp","detail/node_cloner_disposer.hpp"],
 [("*_and_dispose members","list.hpp"),("clear_and_dispose","bstree_algorithms.hpp"),("erase_and_dispose","hashtable.hpp")],(),["disposer call log; element memory poisoned inside the disposer"])
p("C18","clone_from produces an equal copy or cleans up completely",
 "clone_from first disposes every element of the target, then makes the target hold clones of the source's elements in the same order (same structure and properties), leaving the source unchanged. If cloning any element throws, every clone made so far is disposed exactly once, the target is left empty and valid, and the source is unchanged.",
 ["inputs","fault_sequences"],"all sources and targets, with the cloner throwing at every position, for all containers (different bucket counts for hashed ones)",
 "Tests clone one full container without ever throwing.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","hashtable.hpp","detail/exception_disposer.hpp","detail/node_cloner_disposer.hpp","sgtree.hpp","treap.hpp"],
 [("clone_from","list.hpp"),("clone","bstree_algorithms.hpp"),("priv_clone_from","hashtable.hpp"),("exception_disposer","detail/exception_disposer.hpp")],(),["both containers, clone and disposal logs"])
p("C19","Throwing user functors never corrupt a container",
 "If a user comparator, hash, equality or predicate throws during any operation, single-element insertion, lookup and key erasure have no effect, and every other operation leaves the containers structurally valid with correct size, every object in at most one container, and hooks consistent with membership.",
 ["fault_sequences","histories"],"a throw injected at every call index of every user functor, in every operation and state",
 "No existing test injects throwing comparators, hashers or predicates.",
 ["bstree.hpp","bstree_algorithms.hpp","hashtable.hpp","list.hpp","slist.hpp","treap_algorithms.hpp","splaytree_algorithms.hpp"],
 [("check-then-commit insertion","bstree_algorithms.hpp"),("hash computed before relinking","hashtable.hpp"),("stable_partition on exception","circular_list_algorithms.hpp")],(),["full state after each throwing call"])
p("C20","Swap and move exchange contents wholesale and leave valid containers",
 "Swapping two containers exchanges exactly their contents, sizes and auxiliary state (comparators, hashers, cached positions, bucket arrays, balance parameters), including when either is empty; move construction leaves the source empty and usable, and move assignment transfers the contents. Iterators and references to elements keep designating the same elements in their new container.",
 ["histories","configurations"],"all pairs of states (empty, single, many), all containers and options",
 "Tests swap one or two full containers; empty/non-empty asymmetries and subsequent use are rarely checked.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","sgtree.hpp","treap.hpp","hashtable.hpp","circular_list_algorithms.hpp","linear_slist_algorithms.hpp","detail/ebo_functor_holder.hpp"],
 [("swap_tree","bstree_algorithms.hpp"),("priv_swap_cache_last","slist.hpp"),("hashtable swap","hashtable.hpp")],(),["both containers after swap/move and after later operations"])
p("C21","Iterators stay attached to their element and round-trip with values",
 "An iterator to an element keeps designating that element, and advancing it follows the current order, across every operation that does not remove the element (and does not rehash). iterator_to and its static/local forms yield an iterator to the given object, a container can be recovered from its end iterator (or, for trees, any iterator), reverse iterators mirror forward ones, a copy of an iterator, made by construction or by assignment, designates the same element, and value-initialised iterators compare equal.",
 ["histories","configurations"],"every iterator held across every operation, in all containers",
 "Tests compare a few returned iterators; none holds iterators to all elements across all operations.",
 ["detail/list_iterator.hpp","detail/slist_iterator.hpp","detail/tree_iterator.hpp","detail/hashtable_node.hpp","list.hpp","slist.hpp","bstree.hpp","hashtable.hpp","detail/iterator.hpp","parent_from_member.hpp"],
 [("iterator increment","detail/tree_iterator.hpp"),("container_from_end_iterator/container_from_iterator","bstree.hpp")],(),["iterators taken before each call, dereferenced and advanced after it"])
p("C22","Two-phase insertion equals insertion, and its commit calls no user functor",
 "A successful insert check followed by its commit leaves the container in exactly the state a plain unique insertion would, and the commit calls no user comparator, hash or equality functor. A check alone never changes the container and reports the equivalent element exactly when one exists.",
 ["histories","inputs"],"all states and keys, with and without hints, with own or heterogeneous functors, for ordered and unordered containers",
 "Tests use check/commit on a couple of values and do not count functor calls.",
 ["bstree.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree_algorithms.hpp","treap_algorithms.hpp","splaytree_algorithms.hpp","hashtable.hpp"],
 [("insert_unique_check/insert_unique_commit","bstree_algorithms.hpp"),("insert_commit_data","hashtable.hpp")],(),["state and functor-call counts around check and commit"])
p("C23","An object's memberships through different hooks are independent",
 "An object with several hooks can be in several containers at once, and any operation on a container through one hook leaves every container using another hook of the same objects, and those hooks' linked state, unchanged.",
 ["histories","configurations"],"all operations on one container while its elements are also in others through base, tagged and member hooks",
 "Tests with two hooks operate them in separate phases and do not check the bystander container after each operation.",
 ["detail/generic_hook.hpp","detail/hook_traits.hpp","detail/node_holder.hpp","detail/get_value_traits.hpp","options.hpp"],
 [("tagged node_holder","detail/node_holder.hpp"),("hook traits","detail/hook_traits.hpp")],(),["bystander containers after every call"])
p("C24","A single any-hook works in every container kind, one after another",
 "An object with an any-hook can be inserted in and removed from any kind of intrusive container in turn, each behaving exactly as with its dedicated hook, and after removal the hook is in the default state again, ready for another container kind.",
 ["histories","configurations"],"all container kinds and orders of use of the same any-hook",
 "any_test.cpp runs the standard scripts once per container kind; the hook is not carried from one kind to another in all orders.",
 ["any_hook.hpp","detail/any_node_and_algorithms.hpp"],
 [("any_*_node_traits mapping onto one node","detail/any_node_and_algorithms.hpp")],(),["containers and is_linked after each call"])
p("C25","Pointer types do not change behaviour; relative pointers survive relocation",
 "Containers and hooks configured with a user-defined pointer type behave exactly as with raw pointers, including compact tree nodes that pack bits into pointers. With relative (offset) pointers a memory block holding containers and elements keeps the same contents and remains fully operational when copied to a different address.",
 ["configurations","histories"],"all containers with non-raw pointers, relocation at any point of any history",
 "The smart-pointer tests only compile and run the standard scripts at one fixed address.",
 ["pointer_traits.hpp","pointer_rebind.hpp","pointer_plus_bits.hpp","detail/uncast.hpp","detail/rbtree_node.hpp","detail/avltree_node.hpp"],
 [("pointer_to/rebind/casts","pointer_traits.hpp"),("pointer_plus_bits","pointer_plus_bits.hpp")],(),["full state before and after relocation"])
p("C26","Every way of attaching a node to a value maps back to the same value",
 "For base, tagged, member, function and any hooks and for trivial, member, derivation and stateful value traits, converting a value to its node and back yields the same object wherever the hook sits in it, and a container's observable behaviour does not depend on which attachment is used.",
 ["configurations","inputs"],"all attachment kinds, any hook offset or inheritance layout, all containers",
 "Each attachment kind has one small test; conversions are not cross-checked over operations and containers.",
 ["detail/hook_traits.hpp","member_value_traits.hpp","derivation_value_traits.hpp","trivial_value_traits.hpp","detail/parent_from_member.hpp","parent_from_member.hpp","detail/get_value_traits.hpp","detail/node_to_value.hpp","detail/is_stateful_value_traits.hpp"],
 [("to_node_ptr/to_value_ptr","detail/hook_traits.hpp"),("parent_from_member","detail/parent_from_member.hpp")],(),["identity of dereferenced elements"])
p("C27","Container comparisons reflect the element sequences",
 "For any two containers of the same type, ==, !=, <, >, <= and >= agree with element-wise equality and lexicographical order of their sequences (for unordered containers, == and != agree with equality as multisets of equivalent elements), for every pair of contents including prefixes and empties.",
 ["inputs","configurations"],"all pairs of contents, both size modes",
 "Tests compare one or two pairs; prefix/equal-size/first-difference cases across containers are not enumerated.",
 ["list.hpp","slist.hpp","bstree.hpp","hashtable.hpp","detail/algorithm.hpp"],
 [("algo_equal/algo_lexicographical_compare","detail/algorithm.hpp"),("operator==","hashtable.hpp")],(),["all six operators in every reached pair state"])
p("C28","Public node algorithms transform rings and trees exactly as documented",
 "Each public static operation of the circular list, circular and linear slist, and tree node-algorithm classes, applied directly to user nodes through user-defined node traits, transforms the link structure exactly as documented (insertion, unlinking, transfer, swapping including adjacent and identical nodes, rotation, reversal, counting), touching no node outside the structures involved.",
 ["inputs","histories"],"all link structures over a small set of nodes and all argument nodes",
 "Algorithms are tested through containers or single examples; adjacency and single-node corner cases are not enumerated.",
 ["circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/common_slist_algorithms.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","treap_algorithms.hpp","sgtree_algorithms.hpp","splaytree_algorithms.hpp"],
 [("static node functions","circular_list_algorithms.hpp")],
 [("next/prev/parent/left/right maps","the pointer graph itself","user nodes")],["every node's links after each call"])
p("C29","Read-only operations write nothing",
 "Const members of containers (iteration, lookups, size, empty, comparisons, bucket queries, is_linked) never modify the container, its bucket array or any element, so that concurrent readers are safe.",
 ["histories","schedules"],"all const operations in all reachable states of all containers",
 "Tests are single threaded and never compare memory before and after a const call.",
 ["list.hpp","slist.hpp","bstree.hpp","splaytree.hpp","hashtable.hpp","detail/hashtable_node.hpp"],
 [("const overloads","bstree.hpp"),("non-splaying const lookups","splaytree.hpp")],(),["byte image of containers, buckets and elements around const calls"])
p("C30","Containers never allocate or copy, and keep their work bounds",
 "No container operation allocates memory or copies, moves or destroys a user object. Operations documented as constant-time touch a bounded number of nodes regardless of size (including size() with constant_time_size, splices, swaps, insertion right at a correct hint, clear of normal-link lists), linear operations a number of nodes linear in the documented quantity (the distance, the inserted range, the bucket), red-black and AVL trees stay balanced so that lookups, insertions and erasures take a logarithmic number of comparisons and node accesses, splay and scapegoat trees do so amortised, merge of lists makes at most size()+x.size()-1 comparisons and remove/unique exactly the documented number, and hashed operations call the hasher at most once per key, and never for elements that store their hash (except a full rehash).",
 ["histories","inputs"],"all operations at all sizes",
 "Tests measure no operation counts.",
 ["list.hpp","slist.hpp","bstree.hpp","rbtree.hpp","avltree.hpp","hashtable.hpp","detail/size_holder.hpp"],
 [("size_holder","detail/size_holder.hpp"),("constant-time splice/swap","list.hpp"),("cache_begin/store_hash","hashtable.hpp")],(),["allocation, copy, node-access and functor-call counters"])
p("C31","Safe hooks detect misuse",
 "With safe-link hooks, inserting an object that is already in a container through the same hook, by any insertion function, and destroying an object that is still in a container raise the library's configurable safe-mode assertion; correct use never raises it, and normal-link hooks never do.",
 ["histories","configurations"],"every insertion function of every container, every position of the already linked object",
 "Tests never insert a linked object.",
 ["detail/assert.hpp","detail/generic_hook.hpp","list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","sgtree.hpp","treap.hpp","splaytree.hpp","hashtable.hpp"],
 [("SAFE_HOOK_DEFAULT_ASSERT at insertion","list.hpp"),("SAFE_HOOK_DESTRUCTOR_ASSERT","detail/generic_hook.hpp")],(),["assertion handler around each call"])
p("C32","The default hash agrees with equality",
 "With the default hash functor, unordered containers whose keys are integers (of every width), floating point numbers, enumerations, pointers, null pointers, arrays of these, or types hashed by hash_value found by argument-dependent lookup or by boost::hash treat any two keys that compare equal alike whatever their representation (0.0 and -0.0, differing padding bytes, differing spare capacity): they get the same hash and the same bucket, and finding, counting, checking, inserting, and erasing by either gives the same objects, in every history of insertions, erasures and rehashes.",
 ["inputs","histories"],"all built-in key types, arrays and types with their own hash; all representations of equal keys; all histories",
 "Tests hash a few values of a few types once, and never two representations of the same key.",
 ["detail/hash.hpp","detail/hash_combine.hpp","detail/hash_integral.hpp","detail/hash_mix.hpp","hashtable.hpp"],
 [("hash_float_impl","detail/hash.hpp"),("internal_hash_functor","detail/hash.hpp"),("hash_value dispatch","hashtable.hpp")],(),["for each representation: hash, bucket, find, count, equal_range"])
for r in P:
    assert len(r['title'])<=80,(r['id'],len(r['title']))
    assert r['statement'].count('. ')<=2,(r['id'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'properties.jsonl'),'w').write(''.join(json.dumps(r)+'\n' for r in P))
