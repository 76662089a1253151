#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as code so that ids, anchors and texts are edited in one place).
import json, os
I = "include/boost/intrusive/"
def P(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[I+f for f in files],
                             state=[dict(name=n, meaning=m, where=I+w) for n, m, w in state],
                             mechanism=[dict(name=n, where=I+w) for n, w in mechanism],
                             observe_at=observe, hook_needed=None))
L = []
L.append(P("C01", "A list is exactly the sequence its history of operations defines",
 "After any history of operations a doubly linked list contains exactly the elements put in and not taken out, in the documented order (insertion at the position, stable sort and merge, splicing exactly the named range, stable removal, unique keeping the first of each run), and reading it forwards, backwards or through its ends gives the same sequence. Sizes, returned iterators and positions, and ==, < comparisons between lists agree with that sequence. This holds for every hook kind, link mode, size-tracking option and pointer type.",
 ["histories","configurations","inputs"], "all finite histories of list operations over all element values, list lengths and option combinations",
 "The tests run a fixed script on one five-element vector per configuration; sort, merge, splice and the range operations have length- and position-dependent branches they never combine.",
 ["list.hpp","circular_list_algorithms.hpp","detail/list_iterator.hpp","detail/algorithm.hpp"],
 [("circular link/unlink/transfer","circular_list_algorithms.hpp"),("list::splice/merge/sort/unique/shift","list.hpp"),("stable_partition","circular_list_algorithms.hpp")],
 ["public list API: iteration in both directions, front/back, size, returned iterators"],
 [("size counter","number of elements when constant_time_size","detail/size_holder.hpp")]))
L.append(P("C02", "A singly linked list is exactly the sequence its history defines",
 "After any history of operations a singly linked list (circular or linear, with or without a cached last element) contains exactly the elements put in and not taken out, in the documented order, and the last element, the predecessor of any position, the past-the-end position and the size agree with that sequence. Every '..._after' operation acts on exactly the range documented, including when source and target are the same list and when the range touches the last element. Comparisons ==, < between lists agree with the sequences.",
 ["histories","configurations","inputs"], "all finite histories of slist operations over the four linear/cache_last combinations, size options, hooks and link modes",
 "Tests script one short list per configuration; the cached-last bookkeeping depends on which range touches the end in which operation, a combination space no script covers.",
 ["slist.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/common_slist_algorithms.hpp","detail/slist_iterator.hpp"],
 [("cache_last maintenance in insert/erase/splice/sort/merge/reverse/swap","slist.hpp"),("linear and circular transfer, reverse, move_first_n","linear_slist_algorithms.hpp"),("stable_partition for slists","detail/common_slist_algorithms.hpp")],
 ["public slist API: iteration, last, previous, size, before_begin/end, returned iterators"],
 [("cached last node","node pointer to the last element, or the header when empty","slist.hpp")]))
L.append(P("C03", "Ordered containers are exactly the sorted (multi)set their history defines",
 "After any history of operations each ordered container (red-black, AVL, plain binary, splay, scapegoat, treap; set and multiset) holds exactly the elements inserted and not removed, iterates them in comparator order in both directions, rejects exactly the duplicates a set must reject, and keeps equivalent elements in the documented relative order (upper bound for plain inserts, as near as possible to the hint, before or at the ends for positional inserts). find, count, lower/upper bound, equal and bounded ranges, begin/end, size, erase results and comparisons answer as that sorted sequence does, for the stored comparator and for any compatible key type and comparator, with or without an extracted key.",
 ["histories","configurations","inputs"], "all finite histories of ordered-container operations, all key multisets and comparators, six tree kinds x set/multiset x size, key-extraction and hook options",
 "Tests use about ten fixed keys and fixed probes; correct answers for every shape, duplicate pattern, hint and bound-openness combination need an independent model compared after every step.",
 ["bstree.hpp","bstree_algorithms.hpp","rbtree.hpp","avltree.hpp","sgtree.hpp","splaytree.hpp","treap.hpp","set.hpp","avl_set.hpp","bs_set.hpp","sg_set.hpp","splay_set.hpp","treap_set.hpp","detail/tree_value_compare.hpp","detail/key_nodeptr_comp.hpp"],
 [("insert_unique/insert_equal position search and commit","bstree_algorithms.hpp"),("lower/upper/equal/bounded range search","bstree_algorithms.hpp"),("erase with successor replacement","bstree_algorithms.hpp"),("merge_unique/merge_equal","bstree.hpp")],
 ["public set/multiset API results after every operation"],
 [("header node","root, leftmost and rightmost links","bstree_algorithms.hpp"),("size counter","element count when constant_time_size","detail/size_holder.hpp")]))
L.append(P("C04", "Balanced trees keep their height logarithmic under every history",
 "Red-black, AVL and scapegoat containers keep their balance law after every insertion, removal, replacement, swap and clone: no red element has a red child and all paths carry equally many black ones; the two subtrees of every AVL element differ in height by at most one; a scapegoat tree is never deeper than its alpha allows for the largest size since the last rebuild (within the few per cent of the library's approximate logarithm). Hence lookups take logarithmically many comparisons, and an explicit rebalance leaves a tree of minimal height whichever tree kind supports it.",
 ["histories","configurations","inputs"], "all insertion and removal histories, in any order, of any length, for any allowed alpha",
 "Rebalancing has symmetric cases selected by the tree shape; tests reach few shapes and mostly check order, which an unbalanced tree also satisfies.",
 ["rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree_algorithms.hpp","bstree_algorithms.hpp","sgtree.hpp","bstree.hpp","detail/rbtree_node.hpp","detail/avltree_node.hpp"],
 [("rebalance_after_insertion/erasure","rbtree_algorithms.hpp"),("rebalance after insertion/erasure","avltree_algorithms.hpp"),("alpha height test and rebuild","sgtree_algorithms.hpp"),("rebalance, rebalance_subtree","bstree_algorithms.hpp")],
 ["links, colours and balance factors of the elements read through the node traits after every operation","comparator call counts of lookups"],
 [("colour / balance","per-node balance information, possibly packed in the parent pointer","detail/rbtree_node.hpp"),("max_tree_size","largest size since last rebuild","sgtree.hpp")]))
L.append(P("C05", "Treaps stay heap-ordered; splay trees splay only on mutable access",
 "After every operation of a treap container no element precedes its parent in priority order and the top element has the highest priority, whatever the priorities, their ties or the operation (including hinted, positional and two-phase inserts, range erase, merge and clone). A splay container brings the element a mutable find meets (an equivalent of the key), and the element named by an explicit splay or a positional insertion, to the root, so an immediate repeat is found in constant comparisons and sequential access costs linear total comparisons, while lookups on a const splay container leave the tree untouched.",
 ["histories","configurations","inputs"], "all histories with arbitrary keys and priorities, stateful priority functors, mutable and const lookups",
 "Tests use few elements with one priority function and mostly check iteration order, which neither heap order nor splaying affects.",
 ["treap.hpp","treap_algorithms.hpp","treap_set.hpp","splaytree.hpp","splaytree_algorithms.hpp","splay_set.hpp","priority_compare.hpp"],
 [("rotate_up_n on commit, rebalance_for_erasure","treap_algorithms.hpp"),("splay_down, splay_up, const lookups","splaytree_algorithms.hpp")],
 ["links read through the node traits, top(), root(), comparator call counts"]))
L.append(P("C06", "Unordered containers are exactly the (multi)set their history defines",
 "After any history of operations an unordered set or multiset holds exactly the elements inserted and not removed, each iterated exactly once from begin to end, with equal elements adjacent in iteration, and rejects exactly the duplicates a set must reject. find, count, equal range, erase by key/position/range, size, emptiness, and comparison with another container answer as that multiset does, for the stored and any compatible key, hash and equality, and each element is reachable through the bucket its key maps to and only there, bucket sizes and local iteration included.",
 ["histories","configurations","inputs"], "all histories, all hash distributions including all-colliding and full-width hashes, and all combinations of the hash-storing, multikey, bucket-count, cached-begin, compare-hash, incremental, linear-bucket and fast-modulus options",
 "There are hundreds of option combinations selecting different code; tests script about ten elements with a well-behaved hash on some of them.",
 ["hashtable.hpp","unordered_set.hpp","unordered_set_hook.hpp","detail/hashtable_node.hpp"],
 [("find/insert/erase in bucket and group","hashtable.hpp"),("group_functions for optimize_multikey","hashtable.hpp"),("cached begin update","hashtable.hpp"),("bucket-to-iterator navigation","detail/hashtable_node.hpp")],
 ["public unordered API results after every operation, local iterators, bucket()"],
 [("cached begin","first non-empty bucket","hashtable.hpp"),("stored hash and group links","optional per-node data","unordered_set_hook.hpp")]))
L.append(P("C07", "Rehashing and incremental growth keep every element findable",
 "Rehashing to any legal bucket array (larger, smaller, the same memory grown or shrunk, or unrelated), full rehash after the hash functor's results change, and single incremental growth or shrink steps in any order keep exactly the same elements, with equal elements still adjacent, every element findable in the bucket its hash maps to, and references valid. Bucket and split counts, the results of incremental steps and begin()/end() on full and empty containers are as documented after each step.",
 ["histories","configurations","inputs"], "all sequences of rehash / full_rehash / incremental_rehash interleaved with insertions and removals, all bucket-array relations and option combinations",
 "Tests rehash a ten-element container a few times; fast-shrink, same-buffer, cached-begin, split-bucket and group-transfer paths depend on content and array relation together.",
 ["hashtable.hpp","unordered_set.hpp"],
 [("priv_rehash_impl","hashtable.hpp"),("incremental_rehash grow/shrink and with new bucket traits","hashtable.hpp"),("split count","hashtable.hpp"),("cached begin","hashtable.hpp")],
 ["public unordered API after each step: iteration, find, bucket, bucket_count, split_count, begin==end"],
 [("split count","buckets in use by incremental hashing","hashtable.hpp")]))
L.append(P("C08", "Safe-mode hooks report membership truthfully and misuse is caught",
 "A safe-link or auto-unlink hook says it is linked exactly while its element is in a container through that hook: it is unlinked when constructed, copied or assigned to (copying never copies membership and assigning never breaks it), and again after every kind of removal, including clear, erase, pop, disposal, failed clone and destruction of the container. Inserting an element that is already linked, or destroying one that is still linked in safe mode, always triggers the configured assertion before anything is damaged, and no correct use ever triggers it.",
 ["histories","configurations","inputs"], "all histories over every container, hook kind (base, member, any) and the safe and auto-unlink modes; every way of inserting a linked element",
 "Tests check a handful of transitions; each removal path must separately reset the hook, and the misuse assertions are never exercised.",
 ["detail/generic_hook.hpp","link_mode.hpp","detail/assert.hpp","list.hpp","slist.hpp","bstree.hpp","hashtable.hpp","sgtree.hpp","treap.hpp","any_hook.hpp","detail/any_node_and_algorithms.hpp"],
 [("safe_link init after unlink","detail/generic_hook.hpp"),("BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT at insert sites","list.hpp"),("destructor_impl assertion","detail/generic_hook.hpp")],
 ["is_linked() of every hook of every pool element after every operation; configured assertion macro"]))
L.append(P("C09", "Auto-unlink removes exactly the dying element from its container",
 "Destroying an element whose hook is in auto-unlink mode, or calling unlink on its hook, at any position of any container at any time removes exactly that element: the remaining elements, their order, the container's balance law and its ends are as after an ordinary erase of it, and the hook is then unlinked and reusable. Unlinking an unlinked hook does nothing, and an element in several containers leaves only those whose hook is unlinked or all of them when destroyed.",
 ["histories","configurations"], "all histories interleaving container operations with element destruction and hook unlinking, for every container that supports the mode and every position",
 "Tests unlink one element of a small container; the removal has no access to the container object and must recover header, ends, groups and balance from links alone.",
 ["detail/generic_hook.hpp","list_hook.hpp","slist_hook.hpp","set_hook.hpp","avl_set_hook.hpp","bs_set_hook.hpp","unordered_set_hook.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","bstree_algorithms.hpp","unordered_set_hook.hpp"],
 [("hook destructor unlink","detail/generic_hook.hpp"),("node_algorithms::unlink","rbtree_algorithms.hpp"),("unordered_algorithms group-aware unlink","unordered_set_hook.hpp")],
 ["public container API and hook is_linked() after every destruction/unlink"]))
L.append(P("C10", "Containers never own: no copies, and each disposal happens exactly once",
 "No container operation allocates memory or constructs, copies, assigns or destroys an element. Every operation taking a disposer calls it exactly once for each element it removes, for no other element, after that element has left the container, so the disposer may destroy or reuse it at once; operations without a disposer never destroy anything. After removal or disposal the container never touches that element's memory again.",
 ["histories","configurations","inputs"], "all histories of all containers, every operation with and without disposer, disposers that free or reuse the element",
 "Tests count disposals for some operations on one input; double or missing disposal and use after disposal depend on the range, duplicates and container kind.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","treap.hpp","sgtree.hpp","splaytree.hpp","hashtable.hpp","detail/node_cloner_disposer.hpp","detail/simple_disposers.hpp"],
 [("erase_and_dispose / clear_and_dispose / remove_and_dispose_if","list.hpp"),("unlink_after_and_dispose","detail/common_slist_algorithms.hpp"),("clear_and_dispose traversal","bstree_algorithms.hpp")],
 ["instrumented element lifecycle and disposer log; global allocation counter; AddressSanitizer on freed or poisoned elements"]))
L.append(P("C11", "Cloning reproduces the source exactly, or rolls back without leaks",
 "Cloning disposes each old element of the target once, then leaves the target with one clone per source element, cloned once each, in the same order (same groups for unordered containers), with the source's functors and the target's own value traits, obeying the target's own structure laws, and the source unchanged. If the cloner (or a functor) throws at any point, every clone made so far is disposed exactly once, nothing is leaked, and the target is a usable container holding no dangling element.",
 ["histories","inputs","configurations","fault_sequences"], "all source and target contents, bucket-array relations and a failure at every possible cloner, hasher or equality call",
 "Tests clone one small container without failures; rollback differs per container and per structural/non-structural path.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","sgtree.hpp","treap.hpp","hashtable.hpp","detail/exception_disposer.hpp","detail/node_cloner_disposer.hpp"],
 [("clone_subtree with rollback","bstree_algorithms.hpp"),("priv_structural_clone_from / priv_clone_from","hashtable.hpp"),("exception_disposer","detail/exception_disposer.hpp")],
 ["cloner and disposer call logs, target and source contents, fault injected at every functor call"]))
L.append(P("C12", "A throwing user functor never corrupts a container",
 "If a comparator, predicate, equality, hasher or priority functor throws at any of its calls during any operation documented as able to throw, the exception reaches the caller and every involved container is still a valid container of its kind: each element is in exactly one of the places the operation may leave it (a throwing sort, merge or rehash may leave elements unlinked, an insert or lookup may not), sizes and ends are right, and all containers can be used, cleared and destroyed. Where the strong guarantee is documented (inserts, lookups, treap erasures) nothing at all has changed.",
 ["fault_sequences","histories","configurations"], "a failure at every functor call of every throwing operation, over all container contents",
 "Tests never throw from a functor; each operation's rollback code is dead code in the test suite.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","treap.hpp","treap_algorithms.hpp","splaytree.hpp","splaytree_algorithms.hpp","hashtable.hpp","circular_list_algorithms.hpp","detail/common_slist_algorithms.hpp"],
 [("rollback guards in stable_partition","circular_list_algorithms.hpp"),("incremental_rehash_rollback, exception_bucket_disposer","hashtable.hpp"),("splaydown_assemble_and_fix_header RAII","splaytree_algorithms.hpp"),("rerotate_on_destroy","treap_algorithms.hpp")],
 ["container state compared before/after a fault injected at the k-th functor call, for all k"]))
L.append(P("C13", "Two-phase insertion equals direct insertion and its commit cannot fail",
 "Checking for insertion with any compatible key and functors reports exactly whether an equivalent element exists (returning it when so) without changing the contents, and committing an element of that key then yields the same container as inserting it directly, with or without a hint. The commit calls no comparator, hasher or equality functor, throws nothing and stays valid as long as the container is not otherwise modified.",
 ["histories","inputs","configurations"], "all contents, keys, hints, tree kinds and unordered option combinations, heterogeneous key types",
 "Tests use one key type and count nothing during the commit; the hint paths and the per-tree rebalancing at commit need shape diversity.",
 ["bstree.hpp","bstree_algorithms.hpp","treap.hpp","treap_algorithms.hpp","sgtree.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","splaytree.hpp","hashtable.hpp"],
 [("insert_unique_check / insert_unique_commit","bstree_algorithms.hpp"),("insert_check / insert_commit and fast variants","hashtable.hpp"),("commit data with rotations","treap_algorithms.hpp")],
 ["public API with counting functors; contents compared with a twin container using direct insertion"]))
L.append(P("C14", "Iterators and references stay valid and can be made from elements",
 "An iterator or reference keeps denoting its element through every insertion, through removal of other elements, sort, merge, splice, swap and move, wherever the element then lives (iterators, not references, of unordered containers are renewed by rehash, swap and move), and increments and decrements to the element's current neighbours. The iterator obtained directly from an element (and, where offered, the container obtained from an end iterator or from an element's iterator) is the same as one found by traversal; default-constructed iterators compare equal; iterator conversion, comparison and dereference are consistent for mutable, const, reverse and local iterators.",
 ["histories","configurations"], "all histories holding iterators to every element, every container and iterator kind",
 "Tests check one iterator around one operation; stability must hold for each element across arbitrary interleavings.",
 ["detail/list_iterator.hpp","detail/slist_iterator.hpp","detail/tree_iterator.hpp","detail/hashtable_node.hpp","hashtable.hpp","bstree.hpp","list.hpp","slist.hpp","detail/reverse_iterator.hpp"],
 [("next_node/prev_node","detail/tree_iterator.hpp"),("iterator_to / s_iterator_to / local_iterator_to","hashtable.hpp"),("container_from_end_iterator / container_from_iterator","bstree.hpp")],
 ["saved iterators re-read and stepped after every operation"]))
L.append(P("C15", "Swap, move, splice and merge conserve elements, functors and sizes",
 "Swapping, moving, splicing, merging or transferring between containers moves exactly the intended elements: none is lost, duplicated or reordered beyond what is documented, both sizes are right, and each container keeps working with the comparator, hasher, equality, priority, value traits, bucket array and balance setting that belongs with its contents, for empty, one-element and self-targeted cases alike. Move construction leaves the source empty and usable (an unordered one after it is given a bucket array again by assignment or swap), move assignment of trees and unordered containers exchanges contents, and the destination's iterators and ends are its own.",
 ["histories","configurations","inputs"], "all pairs of contents (including empty and single) and functor states, all containers and options",
 "Tests move and swap one pair with stateless functors; header relinking has distinct empty/non-empty cases on each side.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","sgtree.hpp","treap.hpp","hashtable.hpp","circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/size_holder.hpp"],
 [("swap_tree / move of headers","bstree_algorithms.hpp"),("swap_nodes for headers","circular_list_algorithms.hpp"),("bucket traits swap","hashtable.hpp"),("merge","bstree.hpp")],
 ["both containers' contents, sizes, functor identities, and further operations after each transfer"]))
L.append(P("C16", "Node algorithms on user-defined nodes keep the structure they document",
 "For any user-supplied node type and node traits, the list, slist and tree node algorithms link, unlink, transfer, swap, replace, reverse, move, count and search nodes exactly as documented on the circular, linear or tree structure, for adjacent, nested, identical and extreme nodes alike, and leave all nodes not involved in place. Tree algorithms keep order and balance information with the position when nodes are swapped or replaced, and unlinking or replacing works without access to a container.",
 ["inputs","histories","configurations"], "all structures and all pairs or ranges of nodes a precondition admits",
 "Tests never call most node algorithms directly; swap and replace have adjacency and parent/child cases selected by position.",
 ["circular_list_algorithms.hpp","circular_slist_algorithms.hpp","linear_slist_algorithms.hpp","detail/common_slist_algorithms.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","splaytree_algorithms.hpp","treap_algorithms.hpp","sgtree_algorithms.hpp","detail/bstree_algorithms_base.hpp"],
 [("swap_nodes, replace_node, transfer, move_backwards/forward","circular_list_algorithms.hpp"),("swap_nodes/replace_node with header fixes","bstree_algorithms.hpp"),("swap_previous, reverse, move_first_n","linear_slist_algorithms.hpp")],
 ["node links read back through the node traits against a model after every call"]))
L.append(P("C17", "Containers behave the same for every hook, pointer and value-traits kind",
 "The same history gives the same observable results whichever way elements are hooked (base, member, function or any hook; own or stateful value traits; size-optimized or not) and whichever pointer type hooks use; with relative pointers a whole region holding container and elements can be relocated by copying its bytes and keeps working. An object in several containers through different hooks behaves in each as if it were only there: operating on one never disturbs another. Swapping two hooks exchanges exactly the positions of the two elements, wherever each of them is.",
 ["configurations","histories"], "all hook, pointer, tag, value-traits and header-holder kinds, all histories over several simultaneous containers",
 "Tests run a fixed script per kind and do not compare kinds or interleave several containers over the same objects.",
 ["any_hook.hpp","detail/any_node_and_algorithms.hpp","detail/hook_traits.hpp","member_value_traits.hpp","derivation_value_traits.hpp","trivial_value_traits.hpp","detail/parent_from_member.hpp","parent_from_member.hpp","pointer_traits.hpp","pointer_rebind.hpp","pointer_plus_bits.hpp","detail/generic_hook.hpp","detail/default_header_holder.hpp"],
 [("to_node_ptr / to_value_ptr conversions","detail/hook_traits.hpp"),("pointer bits packing for colour/balance","pointer_plus_bits.hpp"),("any node adaptors","detail/any_node_and_algorithms.hpp")],
 ["lock-step comparison of result traces across kinds; byte-copy relocation; multi-index histories"]))
L.append(P("C18", "No documented use reads or writes outside the elements and container",
 "No history of documented operations has undefined behaviour or touches memory other than the container object, its bucket array, the elements currently inside and those passed to the operation: no out-of-bounds, stale, null, misaligned or uninitialised access, at any container size including empty, one element and full-range keys and hashes. Checking functions supplied by the library never report a violation on such a container.",
 ["histories","configurations","inputs"], "all documented histories on all containers and option combinations",
 "Tests run without sanitizers on a few small inputs; stray reads of stale links or headers usually go unnoticed.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","hashtable.hpp","sgtree.hpp","treap.hpp","splaytree.hpp","detail/hashtable_node.hpp","pointer_plus_bits.hpp"],
 [("header/bucket addressing","hashtable.hpp"),("link updates","bstree_algorithms.hpp"),("check() self-checks","bstree.hpp")],
 ["AddressSanitizer with poisoned non-member hooks, UndefinedBehaviorSanitizer, pattern-initialised automatic storage, library invariant assertions and check()"]))
L.append(P("C19", "Const operations write nothing; distinct containers are independent",
 "An operation on a const container or through const iterators writes to no container, bucket or element memory, so any number of threads may run them on the same container at once without a data race. Threads operating on different containers holding different elements never interfere, even when the containers share element types, static defaults or adjacent elements.",
 ["schedules","histories","configurations"], "all const operations on all containers in all states, all interleavings of several threads",
 "Tests are single-threaded and a hidden write that restores the same value is invisible to them.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","splaytree.hpp","splaytree_algorithms.hpp","hashtable.hpp","sgtree.hpp","treap.hpp","detail/size_holder.hpp"],
 [("const lookups without splaying","splaytree.hpp"),("const traversal","bstree_algorithms.hpp"),("const bucket access with cached begin","hashtable.hpp")],
 ["all memory of container and elements write-protected while every const operation runs; ThreadSanitizer on concurrent readers and on disjoint writers"]))
L.append(P("C20", "Operations stay within their documented cost",
 "Every operation keeps its documented complexity on every input: constant-time operations touch a bounded number of nodes whatever the container size, linear ones a bounded number per element, tree lookups, insertions and removals a logarithmic number (amortised where so documented), and comparisons, predicate and hash calls stay within documented exact counts or bounds. Size is constant time when so configured, a good hint makes tree insertion constant, stored hashes are never recomputed, equal groups are skipped as units with the multikey option, and beginning with a cached first bucket does not scan.",
 ["inputs","histories","configurations"], "all operations on containers of any size and shape within each container's guarantee",
 "Tests check results, not work done; a quadratic or linear slip passes them.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","sgtree_algorithms.hpp","splaytree_algorithms.hpp","treap_algorithms.hpp","hashtable.hpp","circular_list_algorithms.hpp","detail/common_slist_algorithms.hpp"],
 [("node traits accesses and functor calls per operation","bstree_algorithms.hpp"),("stored hash reuse, group skipping","hashtable.hpp")],
 ["counting node traits and counting functors around each operation over growing sizes"]))
L.append(P("C21", "Bucket counts, bucket choice and bit helpers are arithmetically exact",
 "Suggested bucket counts are the least available one not below (or the greatest not above) the request, clamped at the ends and always usable as a bucket count, for every request; the bucket chosen for a hash is below the bucket count, depends only on hash and count, and the fast-modulus choice equals the plain remainder of the hash, folded to 32 bits while the count fits in 32 bits, for every bucket count it supports. Integer logarithm and power-of-two helpers, pointer-bit packing and the address arithmetic from a member to its parent object return exact results for every width and every input, and packed bits never alter the pointer or vice versa.",
 ["inputs","configurations"], "all requests, bucket counts, hash values, integer widths and aligned pointers",
 "Tests probe a few values; off-by-one and overflow errors appear only near table boundaries and type limits.",
 ["hashtable.hpp","detail/math.hpp","pointer_plus_bits.hpp","detail/parent_from_member.hpp","detail/hash.hpp","detail/hash_integral.hpp","detail/hash_mix.hpp","detail/hash_combine.hpp"],
 [("prime_list_holder / prime_fmod_size","hashtable.hpp"),("hash_to_bucket_split","hashtable.hpp"),("floor_log2 / ceil_pow2 / sqrt2_pow","detail/math.hpp"),("pointer_plus_bits","pointer_plus_bits.hpp")],
 ["returned values against independent wide-integer arithmetic; bucket(key) of containers"]))
L.append(P("C22","Integrity checks accept intact containers and report damaged ones",
 "The integrity check of lists, singly-linked lists and ordered containers is silent for every intact container and does not change it. It raises an assertion whenever the links, the element order, the element count, the cached ends, or the colour, balance or heap order of the balanced kinds are inconsistent. A check with a user-supplied node checker presents every element exactly once, after its subtrees and with their results.",
 ["inputs","histories","configurations"], "all container states reached by documented operations, all single and multiple damages of links, colours, balance factors, keys, priorities and counters, all container kinds and size-tracking options",
 "The tests call the check on intact containers only, so a check that accepts everything would pass; which damages are noticed depends on the kind, the place and the size-tracking option.",
 ["list.hpp","slist.hpp","bstree.hpp","bstree_algorithms.hpp","rbtree_algorithms.hpp","avltree_algorithms.hpp","treap.hpp","treap_algorithms.hpp","detail/empty_node_checker.hpp"],
 [("list_impl::check","list.hpp"),("slist_impl::check","slist.hpp"),("bstree_impl::check","bstree.hpp"),("bstree_node_checker / check_subtree","bstree_algorithms.hpp"),("rbtree_node_checker","rbtree_algorithms.hpp"),("avltree_node_checker","avltree_algorithms.hpp"),("treap_node_extra_checker","treap_algorithms.hpp")],
 ["whether a library assertion fires, against an independent validator of the damaged structure; all links, colours and keys before and after the check"]))
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in L: f.write(json.dumps(p) + "\n")
    for p in L:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(L), "properties")
