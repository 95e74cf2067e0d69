import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs=None,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=["src/"+f for f in files],state=state or [],mechanism=[dict(name=m.split('@')[0].strip(),where="src/"+m.split('@')[1].strip()) for m in mech],observe_at=obs or [],hook_needed=None)))
p("C01","Union-find tracks exactly the merged partition",
 "After any sequence of operations on a disjoint-set structure of n elements, two elements are reported as belonging to the same set exactly when a chain of join calls connects them; join returns true exactly when it merged two different sets. The reported size of an element's set and the listing of all groups agree with that partition (every element in exactly one group, no empty group), and queries never change it.",
 ["histories"],"every n, every interleaving of find/is_same/join/size/groups calls with in-range elements",
 "Histories: the tests run one short sequence; they passed although join linked the arguments instead of their roots.",
 ["data_structure/union_find.rs"],["UnionFind::find path compression@data_structure/union_find.rs","UnionFind::join union by size@data_structure/union_find.rs"],["return values of find, is_same, join, size, groups"],
 [dict(name="fa",meaning="parent forest",where="src/data_structure/union_find.rs"),dict(name="sz",meaning="set size at roots",where="src/data_structure/union_find.rs")])
p("C02","Fenwick tree sums equal sums over the logical array",
 "A Fenwick tree built from a slice, or built empty and updated by any sequence of point additions, behaves as the array holding those values: the prefix query at idx returns the sum of the first idx elements and the range query the sum of elements l..r, for every 0 <= l <= r <= n, provided element addition is associative and commutative and does not overflow. The linear-time construction is indistinguishable from adding the elements one by one.",
 ["inputs","histories"],"every length, every initial content, every sequence of add/pref/sum calls, every index",
 "Inputs and histories: the tests compare a few arrays of one or two fixed lengths.",
 ["data_structure/fenwick_tree.rs"],["from: linear propagation to i + lowbit(i)@data_structure/fenwick_tree.rs","add / pref lowbit walks@data_structure/fenwick_tree.rs"],["pref, sum, add, from"],
 [dict(name="ary",meaning="ary[i-1] = sum of data over (i-lowbit(i), i]",where="src/data_structure/fenwick_tree.rs")])
p("C03","Fenwick partition point finds the prefix-sum boundary",
 "For a predicate that is monotone along the prefix sums (true then false), the partition-point query returns the number of leading non-empty prefixes whose sum satisfies the predicate, a value in 0..=n, including n = 0, n a power of two and predicates that are always true or always false. The search query returns the first index whose prefix sum is at least the target, for data whose prefix sums are non-decreasing.",
 ["inputs"],"every length including 0, every content, every monotone predicate / target",
 "Inputs: the tests sample a handful of arrays and targets; an empty tree was never tried.",
 ["data_structure/fenwick_tree.rs"],["partition_point binary descent@data_structure/fenwick_tree.rs"],["partition_point, search"])
p("C04","Segment tree point updates and range products are exact",
 "A segment tree over any monoid, built from a vector (or of n identities) and updated by any sequence of point assignments, answers get(p) with the last value assigned to p, prod(l, r) with the ordered product a[l]*...*a[r-1] (identity when l = r) and all_prod with the product of all elements, for all 0 <= l <= r <= n. Operand order is respected, so the monoid need not be commutative.",
 ["inputs","histories"],"every monoid, every length (powers of two or not, 0, 1), every update/query sequence",
 "Inputs and histories: tests use fixed sizes and one monoid family; any boundary, padding or operand-order slip outside them is unseen.",
 ["data_structure/segtree.rs","misc/util.rs"],["prod: two-sided bottom-up walk@data_structure/segtree.rs","set: recompute ancestors@data_structure/segtree.rs","From<Vec>: padding to a power of two@data_structure/segtree.rs"],["get, prod, all_prod"],
 [dict(name="d",meaning="d[k] = d[2k]*d[2k+1]; leaves at size..",where="src/data_structure/segtree.rs")])
p("C05","Segment tree boundary searches return exact boundaries",
 "For a predicate true on the identity, max_right(l, f) returns r in l..=n such that f holds on the product of l..r, and either r = n or f fails on the product of l..r+1; min_left(r, f) returns l in 0..=r such that f holds on the product of l..r, and either l = 0 or f fails on the product of l-1..r. For monotone predicates these are the maximal r and the minimal l.",
 ["inputs","histories"],"every monoid, length, content, starting index 0..=n and deterministic predicate",
 "Inputs: tests try small sizes with threshold predicates on one monoid.",
 ["data_structure/segtree.rs"],["max_right climb and descend@data_structure/segtree.rs","min_left climb and descend@data_structure/segtree.rs"],["max_right, min_left"])
p("C06","Lazy segment tree matches element-wise range updates",
 "For any monoid and lawful family of maps (maps are homomorphisms of the monoid, composition and identity behave as functions), any sequence of set, apply, apply_range, get, prod and all_prod on a lazy segment tree gives the same answers as performing each update element by element on a plain array; prod is the ordered product, the identity when l = r. Queries and deferred propagation never change the logical contents.",
 ["inputs","histories"],"every lawful monoid/map pair, every length, every operation sequence, every range including empty ones",
 "Histories: pending-tag bugs need particular sequences of overlapping updates and queries that few tests reach.",
 ["data_structure/lazy_segtree.rs"],["push / all_apply tag propagation@data_structure/lazy_segtree.rs","apply_range boundary pushes and updates@data_structure/lazy_segtree.rs","update recomputation@data_structure/lazy_segtree.rs"],["get, prod, all_prod"],
 [dict(name="lz",meaning="pending map of both children",where="src/data_structure/lazy_segtree.rs")])
p("C07","Lazy segment tree boundary searches return exact boundaries",
 "With any pending updates, max_right(l, g) on a lazy segment tree returns r in l..=n such that g holds on the product of l..r and either r = n or g fails on the product of l..r+1; min_left(r, g) is the mirror image; both leave the logical contents unchanged. g must hold on the identity.",
 ["inputs","histories"],"every lawful monoid/map pair, length, history of updates, starting index and deterministic predicate",
 "Histories: needs pending tags on the descent path, which the sampled tests rarely build.",
 ["data_structure/lazy_segtree.rs"],["max_right climb/descend with push@data_structure/lazy_segtree.rs","min_left climb/descend with push@data_structure/lazy_segtree.rs"],["max_right, min_left, then get/prod"])
p("C08","Sparse table answers idempotent range queries exactly",
 "A sparse table built from any non-empty slice with an associative, idempotent operation returns for every l < r <= n exactly the fold of the operation over elements l..r; the filler value never influences an answer.",
 ["inputs"],"every non-empty slice, every associative idempotent operation, every range",
 "Inputs: tests compare one operation on a few lengths.",
 ["data_structure/sparse_table.rs","misc/util.rs"],["from: doubling levels@data_structure/sparse_table.rs","get: two overlapping blocks@data_structure/sparse_table.rs"],["get"])
p("C09","Min-heap pops the multiset in ascending order",
 "The min-heap holds exactly the multiset of pushed and not yet popped elements: peek and pop return a least element (None exactly when empty), len and is_empty count the elements, append moves all elements of the other heap and empties it, clear removes all, and into_sorted_vec yields all elements in descending order, the reverse of the order in which pop would return them.",
 ["histories"],"every totally ordered element type and every sequence of operations",
 "Histories: only a couple of short push/pop sequences are run.",
 ["data_structure/min_heap.rs"],["Reverse-wrapped BinaryHeap@data_structure/min_heap.rs"],["pop, peek, len, is_empty, into_sorted_vec"])
p("C10","Dijkstra returns exact shortest distances",
 "For any directed graph with non-negative integer weights (self loops, parallel and zero-weight edges included) and any source, the result holds, for each vertex, the least total weight over all walks from the source, and None exactly for unreachable vertices, provided path sums fit in usize.",
 ["inputs"],"every graph, every weight assignment without overflow, every source",
 "Inputs: two or three concrete graphs; wrong relaxation or stale-entry handling can hide on them.",
 ["graph/shortest_path.rs","data_structure/min_heap.rs"],["dijkstra relaxation and stale-entry test@graph/shortest_path.rs"],["returned vector"])
p("C11","Binary lifting gives ancestor, LCA and distance of any tree",
 "For any rooted tree given as adjacency lists (with or without parent back edges), is_ancestor(u, v) holds exactly when u lies on the path from the root to v (u itself included), lca(u, v) is the deepest common ancestor and dis(u, v) the number of edges on the path between u and v, for all pairs of vertices.",
 ["inputs"],"every tree shape, size, root, vertex numbering and pair of vertices",
 "Inputs: one small sample tree; deep or long-chain shapes at power-of-two depths are not sampled.",
 ["graph/binary_lifting.rs","misc/util.rs"],["dfs Euler times and jump table@graph/binary_lifting.rs","lca descending jumps@graph/binary_lifting.rs"],["is_ancestor, lca, dis"])
p("C12","Heavy-light decomposition answers path and subtree queries",
 "For any rooted tree and commutative monoid with lawful maps, vertex set/get, path updates and products between any two vertices (both ends included) and subtree updates and products behave as if performed vertex by vertex on the vertices of that path or subtree, under every sequence of operations and every initial assignment.",
 ["inputs","histories"],"every tree, root, initial values, sequence of path/subtree/point operations",
 "Inputs and histories: a couple of fixed trees and operations.",
 ["graph/heavy_light_decomp.rs","data_structure/lazy_segtree.rs"],["dfs1/dfs2 layout@graph/heavy_light_decomp.rs","chain climbing in apply_path/path_prod@graph/heavy_light_decomp.rs"],["path_prod, subtree_prod, get"])
p("C13","Bipartite matching is maximum",
 "For any bipartite graph, solve returns the size of a maximum matching, the largest number of edges no two of which share an endpoint; repeated calls, also after adding further edges, keep returning the maximum for the current graph.",
 ["inputs","histories"],"every bipartite graph (empty sides, parallel edges), every edge order, repeated solve/add_edge",
 "Inputs: a few sample graphs; augmentation bugs need alternating paths in specific edge orders.",
 ["graph/bipartite_matching.rs"],["dfs augmentation with visit marks@graph/bipartite_matching.rs","solve phases@graph/bipartite_matching.rs"],["solve"])
p("C14","SCC numbering is exact and reverse topological",
 "For any directed graph, scc assigns two vertices the same number exactly when each is reachable from the other, uses exactly the numbers 0..count with none unused, and every edge leads from a component to one with an equal or smaller number.",
 ["inputs"],"every directed graph including self loops, parallel edges, disconnected parts, any vertex numbering",
 "Inputs: one or two sample graphs; low-link errors need specific back/cross edge patterns.",
 ["graph/tarjan.rs"],["dfs low-link and stack@graph/tarjan.rs","component numbering@graph/tarjan.rs"],["scc"])
p("C15","Max flow equals the minimum cut",
 "For any network with non-negative integer capacities (parallel edges, loops and anti-parallel edges included) and distinct source and sink, the returned value is the maximum flow, that is the minimum total capacity of edges leaving a vertex set that contains the source and not the sink, provided totals fit the capacity type.",
 ["inputs"],"every network, capacities, source and sink",
 "Inputs: two sample networks; errors in residual updates need flow to be rerouted over reverse edges.",
 ["graph/max_flow.rs"],["bfs levels, dfs blocking flow, residual update e[j^1]@graph/max_flow.rs"],["get_max_flow"])
p("C16","gcd, lcm and extended gcd satisfy their defining identities",
 "For all non-negative integers gcd(a, b) is the greatest common divisor (gcd(0, 0) = 0), and lcm(a, b), for a, b not both zero and product in range, is their least common multiple (0 if one is 0). ex_gcd(a, b) returns (x, y, g) with a*x + b*y = g exactly and g dividing both (equal to the gcd for non-negative inputs), for every signed input for which the intermediate values are representable.",
 ["inputs"],"all values of all integer types within the stated ranges",
 "Inputs: a few pairs; sign and zero cases are mostly untested.",
 ["math/number_theory.rs"],["gcd loop, ex_gcd recursion@math/number_theory.rs"],["gcd, lcm, ex_gcd"])
p("C17","Extended CRT solves congruence systems exactly",
 "Given congruences a[i]*x = b[i] (mod m[i]) with m[i] > 0, not necessarily coprime and with coefficients of any sign, ex_crt returns None exactly when no integer satisfies all of them; otherwise (s, L) with L > 0, 0 <= s < L, and the integers satisfying all congruences are exactly those congruent to s modulo L. This holds whenever the magnitudes of the intermediate products and of b[i] - a[i]*x fit in i64.",
 ["inputs"],"every system (empty, negative or zero coefficients, non-coprime moduli) within the stated range",
 "Inputs: a few systems with positive coefficients; they passed although negative coefficients gave a negative modulus.",
 ["math/number_theory.rs"],["ex_crt merging step@math/number_theory.rs"],["ex_crt"])
p("C18","Modular integers perform exact arithmetic modulo m",
 "For every static modulus 1 <= m <= 2^31, constructing from any primitive integer (signed or unsigned, any width) yields its residue in 0..m, and +, -, *, unary minus, their assignment, reference and mixed-integer forms, sums, products and pow(n) for every n give the residue of the exact integer result; parsing a decimal text that fits i64 gives the residue of that number, and printing a value prints its residue; the stored value is always below m.",
 ["inputs"],"all moduli in range, all operand values, all exponents, all source integer types",
 "Inputs: tests use a few moduli and values; wrap-around at the extremes and width truncation are not covered.",
 ["misc/modint.rs"],["RemEuclidU32 conversions@misc/modint.rs","add_impl/sub_impl/mul_impl/neg_impl, pow@misc/modint.rs","operator macros@misc/modint.rs"],["val() of results"])
p("C19","Run-time modulus multiplication by Barrett reduction is exact",
 "For every modulus 1 <= m <= 2^31 set at run time and all operands, arithmetic on dynamic modular integers (construction, parsing of a decimal text that fits i64, +, -, *, negation, pow) gives the residue of the exact result in 0..m, in particular the Barrett-reduced product always equals a*b mod m, and the modulus reported is the one last set.",
 ["inputs","configurations"],"all moduli 1..=2^31, all operand pairs",
 "Inputs: about 2^93 (a, b, m) triples; off-by-one errors in the reciprocal affect only rare triples.",
 ["misc/modint.rs","math/internal_math.rs"],["Barrett::new/update reciprocal@misc/modint.rs","mul_mod@math/internal_math.rs"],["val() of products"])
p("C20","Modular inverse and division are exact",
 "For a modulus m and a value a coprime to m, a.inv() returns the unique element with a * inv = 1 (mod m) in 0..m, and x / a equals x * inv, both for prime-hinted and general moduli, static or run-time; when no inverse exists the call panics rather than returning a value.",
 ["inputs","configurations"],"all moduli 1 <= m <= 2^31 (prime-hinted only if prime), all values",
 "Inputs: tests try a few small moduli.",
 ["misc/modint.rs","math/internal_math.rs"],["inv via Fermat power@misc/modint.rs","inv_gcd extended Euclid@math/internal_math.rs"],["inv, /"])
p("C21","Factorial tables give exact binomials and permutations",
 "For a prime modulus p and any table size n < p, choose(a, b) is the binomial coefficient and perm(a, b) the falling factorial a!/(a-b)!, modulo p, for all 0 <= b <= a <= n.",
 ["inputs"],"all prime moduli, table sizes below the modulus and index pairs",
 "Inputs: a few values under one modulus.",
 ["math/factorial.rs","misc/modint.rs"],["factorial and inverse-factorial recurrences@math/factorial.rs"],["choose, perm"])
p("C22","Z-function lists exact longest common prefixes",
 "For every sequence s, entry i >= 1 of the z-function is the length of the longest common prefix of s and s[i..]; entry 0 is 0 and the result has the length of s (also when s is empty).",
 ["inputs"],"every sequence over every element type with lawful equality",
 "Inputs: three sample strings; window-reuse errors need specific periodic structure.",
 ["string/z_algorithm.rs"],["[l, r] window reuse@string/z_algorithm.rs"],["z_function"])
p("C23","Prefix function lists exact longest borders",
 "For every sequence s, entry i of the prefix function is the length of the longest proper prefix of s[..=i] that is also its suffix; the result has the length of s (also when s is empty).",
 ["inputs"],"every sequence over every element type with lawful equality",
 "Inputs: a few sample strings; failure-link errors need nested borders.",
 ["string/kmp.rs"],["failure-link walk@string/kmp.rs"],["kmp"])
p("C24","Aho-Corasick reports exactly the pattern occurrences",
 "For any set of distinct non-empty patterns over the automaton's alphabet and any text over it, find_all lists at each text position exactly the patterns ending there, each once and longest first, and find_cnt gives for every pattern its total number of (possibly overlapping) occurrences. find reports at a position a pattern index exactly when the longest suffix of the text so far that is a prefix of some pattern is itself a pattern.",
 ["inputs"],"every pattern set and text, every alphabet offset and size",
 "Inputs: a few pattern sets; suffix/output-link errors need nested and overlapping patterns.",
 ["string/aho_corasick.rs"],["insert trie, build failure/output links@string/aho_corasick.rs","find/find_all/find_cnt scans@string/aho_corasick.rs"],["find, find_all, find_cnt"])
p("C25","The supplied monoids are lawful monoids",
 "Max, Min, Additive and Multiplicative obey the monoid laws over the primitive integers: the identity is neutral on both sides for every value of the type and the operation is associative where defined; they compute the maximum, minimum, sum and product. The zero, one, min_value and max_value constants of every primitive integer type are the true ones.",
 ["inputs"],"all twelve primitive integer types and all their values",
 "Inputs: identities are only exercised on positive values of one or two types.",
 ["misc/monoids.rs","traits/numeric.rs"],["Monoid impls@misc/monoids.rs","impl_integral constants@traits/numeric.rs"],["identity, binary_operation, zero/one/min_value/max_value"])
p("C26","Integer logarithms are exact",
 "For every i >= 1, lg(i) is the unique r with 2^r <= i < 2^(r+1); for every n, ceil_lg(n) is the least r with n <= 2^r.",
 ["inputs"],"all 2^64 - 1 and 2^32 arguments",
 "Inputs: about a dozen arguments of ceil_lg are sampled and none of lg.",
 ["misc/util.rs"],["leading_zeros arithmetic@misc/util.rs"],["lg, ceil_lg (used by every tree structure)"])
p("C27","Input reader yields whitespace-separated tokens in order",
 "Reading from the input reader yields the whitespace-separated tokens of the text in order, each parsed as the requested type; checked reads report exhaustion with None instead of panicking, and reading a vector consumes exactly the requested number of tokens.",
 ["inputs"],"every input text and sequence of read calls",
 "Inputs: texts and read sequences are unbounded.",
 ["misc/input.rs"],["SplitWhitespace iterator@misc/input.rs"],["read, checked_read, vec, bytes, chars"])
p("C28","Recursive closures behave as ordinary recursive functions",
 "A closure wrapped as a recursive function, when called, computes the same value as the equivalent named recursive function, for every number of arguments supported and every captured state.",
 ["programs"],"every closure, arity and recursion pattern",
 "Programs: quantifies over user closures.",
 ["misc/recursive_function.rs"],["UnsafeCell self-reference through dyn trait@misc/recursive_function.rs"],["call"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80
    n=x['statement'].count('. ')
    if n>2: print(x['id'],n)
