import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s','b4ceea4..HEAD']).decode().splitlines()
props={ 'tree algorithms: cloning an empty tree':'C16', 'swap and move assignment of lists and ordered':'C15','cloning an ordered container must use the value':'C11','cloning an unordered container must use the value':'C11', 'function hooks must not':'C17', 'assigning an iterator must':'C17', 'swap_nodes of unordered hooks':'C17', 'list/slist remove() and remove_and_dispose() must let':'C12','slist incorporate_after':'C02','ordered containers do not compile with function':'C03','free swap of treap':'C05','slist const last':'C02','slist clone_from(rvalue)':'C11','slist dispose_and_assign':'C10','slist unique_and_dispose(Disposer)':'C02','slist with cache_last keeps':'C02','slist::sort dereferences null on an empty':'C18','slist::check() asserts':'C18','circular_slist_algorithms::swap_nodes':'C16','slist::sort dereferences null in linear':'C02','treap positional inserts':'C12','sgtree move assignment':'C15','splaytree::splay_down':'C05','tree clone_from must copy the predicate':'C11','declare bs_multiset_impl':'C03','treap merge erases':'C05','clone_subtree tracks':'C11',
'unordered operator==':'C06','rehash must transfer whole':'C07','unordered_set operator==':'C06','rehash to fewer buckets':'C07','erasing a range inside':'C06','incremental_rehash(false)':'C07','incremental_rehash(bucket_traits)':'C07','unordered equal_range':'C06','unordered clone_from rollback':'C11','unordered clone_from corrupts':'C11','unordered clone_from must always':'C11','a throwing rehash':'C12','splaytree_algorithms::count':'C16','fastmod suggested bucket':'C21','list and slist merge compare':'C20'}
fs=[
 dict(id='C05-treap-remove_node',property='C05',status='open',what='treap: the static remove_node(value) unlinks with a plain tree erasure (it has no priority functor), so heap order is broken below the removed element; input: keys 1..7 with priorities 3 2 4 1 6 5 7, remove_node of key 4',match={'key':'probe-C05-treap-remove_node'}),
 dict(id='C09-treap-auto-unlink',property='C09',status='open',what='treap with auto-unlink hooks: unlink()/destruction is a plain tree erasure and breaks heap order; input: keys 1..7 with priorities 3 2 4 1 6 5 7, unlink of key 4',match={'key':'probe-C09-treap-auto-unlink'}),
 dict(id='C08-linear-last',property='C08',status='open',what='linear slist with safe_link hooks: is_linked() of the last element is false while it is in the list (its next link is null), so inserting it twice is not caught; input: two-element list',match={'key':'probe-C08-linear-last'}),
 dict(id='C08-linear-buckets-last',property='C08',status='open',what='unordered_set with linear_buckets and safe_link hooks: is_linked() of the last element of a bucket is false while it is in the container; input: one-element container',match={'key':'probe-C08-linear-buckets-last'}),
 dict(id='C21-suggested-upper',property='C21',status='open',what='suggested_upper_bucket_count(n) is documented as the nearest available count bigger or equal than n, but for an n that is itself available it returns the next one; input: 53 gives 97 (all entries of the list but the last)',match={'key':'probe-C21-suggested-upper'}),
 dict(id='C21-suggested-lower',property='C21',status='open',what='suggested_lower_bucket_count(n) is documented as the nearest available count smaller or equal than n, but for an n between two available counts it returns the bigger one; input: 60 gives 97. Not repaired: the existing test suite (test_container.hpp) asserts the returned count is not below the request',match={'key':'probe-C21-suggested-lower'}),
 dict(id='C21-suggested-power-of-two',property='C21',status='open',what='suggested_upper/lower_bucket_count of containers with power_2_buckets or incremental return primes, which those containers reject by assertion; input: 60 gives 97',match={'key':'probe-C21-suggested-power-of-two'}),
 dict(id='C15-move-user-bucket-traits',property='C15',status='open',what='move construction of an unordered container whose user-defined bucket traits are copied by their move constructor (such as the ones in the manual, a pointer and a constant) leaves the moved-from container over the same bucket array, and its destructor empties the array and unlinks the elements of the moved-to container; input: three elements, bucket traits with ten buckets',match={'key':'probe-C15-move-user-bucket-traits'}),
]
import os
old={}
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
fixed=[]
for l in log:
    h,s=l.split('\t')
    if not s.startswith('fix:'): continue
    k=[v for q,v in props.items() if s[5:].startswith(q)]
    if len(k)!=1: print('UNMAPPED',s)
    k=k[0] if k else 'C18'
    fixed.append(dict(id='fixed-'+h,property=k,status='fixed',what='fixed: property=%s %s %s'%(k,h,s[5:])))
json.dump({'findings':fs+fixed},open(p,'w'),indent=1)
print(len(fixed))
