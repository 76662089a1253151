"""Which monitors decide which property."""
import os, random
HIST = 'each case is one pseudo-random history of operations on two containers of the named configuration, started from a generated element pool; after every operation the monitors compare the real containers with an executable model; a case is non-trivial when it has at least 3 operations and counts as distinct when its operation sequence with arguments differs from every other case of the same monitor'
PROPS = {'C%02d' % i: dict(level='exploration', rule=HIST) for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22)}
# failures counted by these monitors' fault sweeps are part of the coverage
for _p in ('C11', 'C12'): PROPS[_p]['rule'] = HIST + '; fault sweeps repeat one operation with a failure injected at its 1st, 2nd, ... functor or cloner call until it completes'

PROPS['C16']['rule'] = 'each case is one pseudo-random history of node-algorithm calls on two rings, lists or trees of user-defined nodes (raw or self-relative pointers); after every call all links are read back and compared with a model; a case is non-trivial when it has at least 3 operations and counts as distinct when its operation sequence with arguments differs from every other case of the same monitor'
PROPS['C21']['rule'] = 'each case draws arguments near powers of two, table entries and type limits or anywhere in the range and compares the functions and containers with independent wide-integer arithmetic; a case is non-trivial when it makes at least 3 calls and counts as distinct when its calls with arguments differ from every other case of the same monitor'

PROPS['C20']['rule'] = 'each case draws containers of 0 to a few thousand elements with adversarial or random shapes and measures one operation at a time: link accesses counted by user-defined node traits, comparisons, hasher and predicate calls counted by the functors, against a bound computed from the sizes; a case is non-trivial when it makes at least 3 measurements and counts as distinct when its operations with sizes and positions differ from every other case of the same monitor'

PROPS['C17']['rule'] = 'each case is one pseudo-random history of operations, either on two containers of one hook, pointer and value-traits kind compared with an executable model, or on 39 pairs of containers of all kinds over the same elements (compared with a model each, or run in lock step and their result traces compared with one another); a case is non-trivial when it has at least 3 operations and counts as distinct when its operation sequence with arguments differs from every other case of the same monitor'

PROPS['C19']['rule'] = 'each case is one pseudo-random history on two containers of the named configuration: in protected monitors every const operation runs between mutations with all memory of containers, buckets and elements write-protected; in thread monitors (ThreadSanitizer) four threads read two shared const containers and modify containers of their own over interleaved elements, and a case counts as distinct when the order in which the threads started their operations differs from every other case'

PROPS['C22']['rule'] = 'each case builds one container of the named configuration, damages it a dozen times from outside (one to three changes of links, colours, balances, keys, priorities or membership through node traits and node algorithms), lets an independent validator say whether it is intact, compares that with whether check() asserts, and restores it; a case is non-trivial when it has at least 3 operations and counts as distinct when its sequence of damages differs from every other case of the same monitor'

LIST_CFGS = range(6)
SLIST_CFGS = range(9)
# tree configurations: kind*4+variant; kinds 0 rb, 1 avl, 2 bs, 3 splay, 4 sg, 5 treap
TREE_ALL = range(24)
NOAS = ['VF_NOASSERT']

def J(prop, tu, cfg, cases, **kw):
    d = dict(prop=int(prop[1:]), tu=tu, defs=['CFG=%d' % cfg] + kw.pop('defs', []), cases=cases, name='%s-%s-%d%s' % (prop, tu, cfg, kw.pop('suffix', '')))
    d.update(kw)
    return d

def trees(p, cfgs, cases, **kw): return [J(p, 'tu_tree', c, cases, weight=8, **kw) for c in cfgs]
def lists(p, cfgs, cases, **kw): return [J(p, 'tu_list', c, cases, weight=5, **kw) for c in cfgs]
def slists(p, cfgs, cases, **kw): return [J(p, 'tu_slist', c, cases, weight=5, **kw) for c in cfgs]
def seqs(p, cases): return lists(p, LIST_CFGS, cases) + slists(p, SLIST_CFGS, cases)

def hashes(p, cfgs, cases, **kw): return [J(p, 'tu_hash', c, cases, weight=9, **kw) for c in cfgs]
def probe(p, c): return [J(p, 'tu_probe', c, 1, weight=1, both=False, shards=1, thorough_cases=1)]
HASH_ALL = range(18)
SLIST_AUTO = [5]
AUTO_KINDS = [11, 12, 13]

def everything(p, l, s, t, h, **kw):
    return lists(p, LIST_CFGS, l, **kw) + slists(p, SLIST_CFGS, s, **kw) + trees(p, TREE_ALL, t, **kw) + hashes(p, HASH_ALL, h, **kw)

# hook/pointer/value-traits kinds x container families: one in so many of the pairs (0: all)
def kinds(p, ns, nt, nh, keep, only=range(11), fams=(range(4), range(6), range(4))):
    r = []
    for tu, n, fs, k in (('tu_kind_seq', ns, fams[0], keep[0]), ('tu_kind_tree', nt, fams[1], keep[1]), ('tu_kind_hash', nh, fams[2], keep[2])):
        r += [J(p, tu, kd + 16 * f, n, weight=7) for f in fs for kd in only if n and (not k or (kd + f + int(p[1:])) % k == 0)]
    return r

def vtraits(p, cfgs, cases): return [J(p, 'tu_vtraits', c, cases, weight=4) for c in cfgs]
def embed(p, cfgs, cases): return [J(p, 'tu_embed', c, cases, weight=4) for c in cfgs]
def sgdeep(p, cases): return [J(p, 'tu_sgdeep', c, cases, weight=3) for c in range(4)]
def scale(p, cfgs): return [J(p, 'tu_scale', c, 16, weight=4, thorough_cases=300) for c in cfgs]
def functors(p, cfgs, cases): return [J(p, 'tu_functor', c, cases, weight=4) for c in cfgs]

# the option packs of compilers without variadic templates
NV = dict(defs=['BOOST_NO_CXX11_VARIADIC_TEMPLATES'], suffix='-nv')
# random combinations of container and hook options, drawn from the seed; more in the thorough tier
def options_rng(p): return random.Random('%s/%s' % (os.environ.get('VERIF_SEED', '1'), p))
def hash_options(p, n, cases, link=None, **kw):
    rng = options_rng(p + 'h'); out = []
    while len(out) < n:
        b = rng.getrandbits(12); lm = rng.choice([0, 1, 1, 2]) if link is None else link
        if lm == 2: b &= ~(8 | 64 | 128)  # auto-unlink: no cached begin, no linear buckets, no constant-time size
        if b & 2048 and not b & 2: b ^= 2048  # compare_hash needs store_hash
        c = 1000 + b + 4096 * lm
        if c not in out: out.append(c)
    return hashes(p, out, cases, **kw)
def tree_options(p, n, cases, kinds=range(6), link=None, **kw):
    rng = options_rng(p + 't'); out = []
    while len(out) < n:
        k = rng.choice(list(kinds)); ty = rng.randrange(3); lm = rng.choice([0, 1, 1, 2]) if link is None else link; b = rng.getrandbits(6)
        if lm == 2 and k > 3: lm = 1  # scapegoat trees keep a size; treaps with auto-unlink hooks are a recorded finding
        if lm == 2: b &= ~4
        c = 1000 + k + 6 * (ty + 3 * (lm + 3 * b))
        if c not in out: out.append(c)
    return trees(p, out, cases, **kw)

def jobs(p, tier):
    t = tier == 'thorough'
    r = []
    if p == 'C01': r += lists(p, LIST_CFGS, 8000) + kinds(p, 4000, 0, 0, (0, 0, 0) if t else (2, 0, 0), fams=([0], [], [])) + functors(p, [14], 4000) + scale(p, [0]) + lists(p, LIST_CFGS if t else [1], 2000, **NV)
    if p == 'C02': r += slists(p, SLIST_CFGS, 6000) + kinds(p, 3000, 0, 0, (0, 0, 0) if t else (3, 0, 0), fams=([1, 2, 3], [], [])) + functors(p, [15], 4000) + scale(p, [1, 2]) + slists(p, SLIST_CFGS if t else [3], 2000, **NV)
    if p == 'C03': r += trees(p, TREE_ALL, 1500) + kinds(p, 0, 1200, 0, (0, 0, 0) if t else (0, 4, 0)) + functors(p, range(12), 1500) + scale(p, range(3, 10)) + tree_options(p, 60 if t else 6, 1500) + trees(p, TREE_ALL if t else [1, 6, 10, 12, 18, 22], 500, **NV)
    if p == 'C04': r += trees(p, list(range(0, 8)) + list(range(16, 20)), 4000) + kinds(p, 0, 1500, 0, (0, 0, 0) if t else (0, 3, 0), fams=([], [0, 1, 4], [])) + functors(p, [0, 1, 4, 6, 7, 10], 1500) + scale(p, [4, 5, 7, 8]) + tree_options(p, 40 if t else 4, 2500, [0, 1, 4]) + sgdeep(p, 1500) + [J(p, 'tu_cost_tree', c, 500, defs=NOAS, weight=6) for c in (0, 1, 4)]
    if p == 'C05': r += trees(p, list(range(12, 16)) + list(range(20, 24)), 4000) + kinds(p, 0, 1500, 0, (0, 0, 0) if t else (0, 3, 0), fams=([], [3, 5], [])) + functors(p, [3, 5, 9, 11], 1500) + probe(p, 0) + scale(p, [6, 9]) + tree_options(p, 40 if t else 4, 2500, [3, 5]) + [J(p, 'tu_cost_tree', c, 1200, defs=NOAS, weight=6) for c in (3, 15)]
    if p == 'C06': r += hashes(p, HASH_ALL, 2500) + kinds(p, 0, 0, 1500, (0, 0, 0) if t else (0, 0, 4)) + functors(p, [12, 13], 4000) + embed(p, range(2, 6), 3000) + scale(p, range(10, 14)) + hash_options(p, 80 if t else 8, 2500) + hashes(p, HASH_ALL if t else [5, 14, 15], 800, **NV)
    if p == 'C07': r += hashes(p, HASH_ALL, 2500) + kinds(p, 0, 0, 1500, (0, 0, 0) if t else (0, 0, 4)) + embed(p, range(2, 6), 3000) + scale(p, range(10, 14)) + hash_options(p, 80 if t else 8, 2500)
    if p == 'C08': r += everything(p, 2500, 2500, 700, 800) + kinds(p, 1200, 500, 500, (0, 0, 0) if t else (6, 8, 6)) + probe(p, 2) + tree_options(p, 24 if t else 3, 600) + hash_options(p, 32 if t else 4, 700)
    if p == 'C09': r += lists(p, [2, 5], 8000) + slists(p, SLIST_AUTO, 8000) + trees(p, [c for c in TREE_ALL if c % 4 == 3], 4000) + hashes(p, [8, 9, 13], 5000) + probe(p, 1) + kinds(p, 3000, 1500, 1500, (0, 0, 0), only=AUTO_KINDS, fams=([0, 1], range(4), range(4))) + tree_options(p, 24 if t else 4, 2000, range(4), link=2) + hash_options(p, 40 if t else 5, 2000, link=2)
    if p == 'C10': r += everything(p, 2500, 2500, 700, 800) + kinds(p, 1200, 500, 500, (0, 0, 0) if t else (6, 8, 6)) + tree_options(p, 24 if t else 3, 600) + hash_options(p, 32 if t else 4, 700)
    if p == 'C11': r += everything(p, 1500, 1500, 700, 800) + sgdeep(p, 800) + kinds(p, 1000, 500, 500, (0, 0, 0) if t else (6, 8, 6)) + functors(p, range(16), 800) + vtraits(p, range(25), 1500) + tree_options(p, 24 if t else 3, 600) + hash_options(p, 32 if t else 4, 700)
    if p == 'C12': r += lists(p, LIST_CFGS, 1500) + slists(p, SLIST_CFGS, 1500) + trees(p, TREE_ALL, 500, defs=NOAS) + hashes(p, HASH_ALL, 800) + tree_options(p, 24 if t else 3, 400, defs=NOAS) + hash_options(p, 32 if t else 4, 700, defs=NOAS)
    if p == 'C13': r += trees(p, TREE_ALL, 1500, defs=NOAS) + hashes(p, HASH_ALL, 1500) + tree_options(p, 24 if t else 3, 1000, defs=NOAS) + hash_options(p, 32 if t else 4, 1200, defs=NOAS)
    if p == 'C14': r += everything(p, 2500, 2500, 700, 800) + kinds(p, 1200, 500, 500, (0, 0, 0) if t else (6, 8, 6)) + vtraits(p, range(25) if t else range(0, 25, 2), 800) + tree_options(p, 24 if t else 3, 600) + hash_options(p, 32 if t else 4, 700)
    if p == 'C15': r += everything(p, 2500, 2500, 800, 1000) + sgdeep(p, 800) + kinds(p, 1200, 500, 500, (0, 0, 0) if t else (6, 8, 6)) + vtraits(p, range(25), 1500) + probe(p, 4) + tree_options(p, 24 if t else 3, 600) + hash_options(p, 32 if t else 4, 700)
    if p == 'C16': r += [J(p, 'tu_algo_list', c, 12000, weight=3) for c in range(6)] + [J(p, 'tu_algo_tree', c, 6000, weight=4) for c in range(12)]
    if p == 'C17': r += [J(p, 'tu_multi', c, 2500, weight=30, need=['hook-swaps'] if c < 2 else []) for c in range(4)] + kinds(p, 1500, 700, 700, (0, 0, 0) if t else (2, 2, 2)) + vtraits(p, range(25), 800) + embed(p, range(2), 2500)
    if p == 'C18': r += everything(p, 2500, 2500, 800, 1000) + kinds(p, 1200, 500, 500, (0, 0, 0) if t else (6, 8, 6)) + tree_options(p, 24 if t else 3, 600) + hash_options(p, 32 if t else 4, 700)
    if p == 'C19': r += [J(p, 'tu_const', c, 1200, weight=5, need=['protected-const-operations']) for c in range(28)] + [J(p, 'tu_const', c, 600, weight=5, san='tsan', defs=['VF_THREADS'], suffix='-threads', need=['operations-while-others-active'], both=False) for c in range(28)]
    if p == 'C20': r += [J(p, 'tu_cost_seq', c, 2500, defs=NOAS, weight=4) for c in range(16)] + [J(p, 'tu_cost_tree', c, 1200, defs=NOAS, weight=6) for c in range(24) if c not in (10, 22)] + [J(p, 'tu_cost_hash', c, 2000, defs=NOAS, weight=6) for c in range(10)] + [J(p, 'tu_algo_list', c, 6000, weight=3) for c in range(3)] + [J(p, 'tu_algo_tree', c, 3000, weight=4) for c in range(6)] + hashes(p, HASH_ALL, 800)
    if p == 'C21': r += [J(p, 'tu_math', 0, 20000, weight=2), J(p, 'tu_math', 1, 8000, weight=5), J(p, 'tu_math', 2, 12000, weight=6), J(p, 'tu_math', 3, 8000, weight=3)] + probe(p, 3)
    if p == 'C22': r += [J(p, 'tu_check', c, 4000, weight=4, need=['damage-detected', 'intact-accepted']) for c in range(26)]
    if t:
        extra = []
        for j in r:
            if j.get('san', 'asan') == 'asan' and j.get('both', True):
                k = dict(j); k.update(cxx='g++', opt='-O2', name=j['name'] + '-gcc'); extra.append(k)
        r += extra
    return r
NA = {}
