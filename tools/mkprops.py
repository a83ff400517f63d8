import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Boolean operators compute exactly the Boolean function they name",
 "For all operands, Not, And, Or, Imp, Equiv, Ite, From, True, False and Apply with each of its ten operators return a node denoting exactly the Boolean combination of the operands (And() is True, Or() is False, And(n)=Or(n)=n), and never set the error status on valid operands. This holds whatever was computed before, whatever the caches contain, whichever operands coincide or are constants, and wherever garbage collections and table resizes fall inside the operation.",
 ["inputs","histories","configurations"],
 "all pairs/triples of Boolean functions over any set of variable levels, all ten operators, after any history of operations, with a garbage collection or a resize at any allocation inside the operation, both implementations",
 "The tests use And/Or/Not/Imp/Equiv on a few fixed formulas with one final count; OPxor, OPnand, OPnor, OPless, OPinvimp are never applied, OPdiff only in a test whose verdict is discarded, and Ite once. No test compares a result with a truth table.",
 ["operations.go","bdd.go","operator.go","cache.go"],
 [("apply terminal cases and opres table","operations.go:apply, operator.go:opres"),("apply/not/ite caches keyed by operands and operator","cache.go"),("refstack protection of intermediate nodes","operations.go, bdd.go:Pushref"),("level selection in ite","operations.go:iteLow/iteHigh/min3")],
 ["value of the returned node (Low/High/Label, Allnodes, Allsat)"])
p("C02","Canonicity: two nodes are Equal exactly when their functions are equal",
 "Within one BDD, two nodes obtained by any computations are Equal if and only if they denote the same Boolean function, and a result that is constant is the very same pointer as True() or False(). At every moment the active nodes form a reduced ordered diagram: no node has equal branches, levels strictly increase from a node to its branches, every branch is itself an active node or a constant, and no two nodes share the same (level, low, high).",
 ["inputs","histories","configurations"],
 "all histories of operations, with garbage collections and resizes anywhere, for all numbers of variables up to the documented maximum and for large node identifiers; both implementations",
 "Tests compare a handful of pairs on fresh, small tables; they never compare the same function rebuilt by different routes before and after collections or resizes, nor use levels above 480 with structure checks.",
 ["hkernel.go","bkernel.go","hudd.go","buddy.go","bdd.go"],
 [("unicity table: byte-encoded triplet map (hudd), hash chains (buddy)","hudd.go:huddhash/setnode/delnode, bkernel.go:makenode/gbc/noderesize"),("low==high elimination","makenode"),("unique constant pointers","Retnode")],
 ["Equal, pointer comparison with True()/False(), Allnodes()"])
p("C03","Exist, AppEx and AndExist compute exact existential quantification",
 "Exist(n, v) denotes n existentially quantified over exactly the variables of the set v; AppEx(n1, n2, op, v) for and, xor, or, nand (and AndExist) denotes the quantification of (n1 op n2) over v. This holds for every set of variables built with Makeset or an equivalent conjunction, including the empty set, all the variables and variables outside the support, and for any interleaving of calls that use different sets and operators on the same operands.",
 ["inputs","histories","configurations"],
 "all operands, operators and variable sets, after any history of quantifications with other sets/operators and any garbage collection or resize inside the operation",
 "Tests quantify over one fixed set per BDD (Milner) with OPand only, and observe only the final count; xor/or/nand, the empty set, alternating sets and cache reuse between sets are never exercised.",
 ["operations.go","cache.go"],
 [("quantset marking with generation ids and last level","cache.go:quantset2cache"),("quant and appex cache ids","operations.go:AppEx/Exist, cache.go"),("bottom-up or-combination","operations.go:quant/appquant")],
 ["value of the returned node"])
p("C04","Replace is exact simultaneous substitution of variables",
 "For a replacer accepted by NewReplacer, Replace(n, r) denotes n with every old variable substituted simultaneously by its new variable, whatever the relative order of old and new levels, whichever other replacers were used before, and wherever memory management happens inside the call. If the substitution cannot be represented because a new variable already occurs in n, Replace either returns the exact substitution or returns nil and sets the error status; it never returns another function, never panics, and leaves all other nodes intact. NewReplacer accepts every pair of slices of equal length with no repeated index, in-range indices and no variable that is both old and new.",
 ["inputs","histories","configurations"],
 "all functions, all partial renamings (order-preserving, order-reversing, crossing levels), all interleavings of several replacers on the same nodes",
 "The only replacer in the tests maps primed to adjacent unprimed variables, order-preserving, one replacer per BDD, so the re-ordering path (correctify) and cache separation between replacers are never checked.",
 ["replace.go","operations.go","cache.go"],
 [("per-replacer cache id","replace.go:NewReplacer, cache.go:replacecache"),("re-insertion of a variable at the right level","operations.go:correctify"),("image/last lookup","replace.go:Replace")],
 ["value of the returned node, Errored()"])
p("C05","Variables, sets, cubes and cofactors mean what they say",
 "Ithvar(i)/NIthvar(i) denote variable i and its negation for every i below Varnum(); Makeset(a) denotes the conjunction of the variables listed in a (in any order, repetitions allowed) and Scanset of it returns those variables in increasing order; Makecube denotes the conjunction of literals with the given polarities for increasing indices. The slices given as arguments are left unchanged and are not kept. For a non-constant node, Label is the first variable its function depends on, and Low/High are its cofactors for that variable false/true.",
 ["inputs","histories","configurations"],
 "all variable counts up to the maximum, all index lists and polarities, all nodes, on any history and with collections or resizes in the middle of building a set",
 "Tests only build a few sets on small fresh BDDs; Makecube, Label, Low, High and Scanset are never called by any test.",
 ["bdd.go","operations.go"],
 [("varset table of literals","bdd.go:Ithvar/NIthvar, New"),("bottom-up construction with refstack","operations.go:Makeset/Makecube"),("Label/Low/High","bdd.go")],
 ["returned nodes and slices"])
p("C06","Satcount is the exact number of satisfying assignments",
 "Satcount(n) is exactly the number of assignments of all Varnum() variables that satisfy n, in arbitrary precision, for every node including constants and nodes whose support starts or ends anywhere. It changes nothing in the BDD, and the returned integer is the caller's own: modifying it never affects later results.",
 ["inputs","configurations","histories"],
 "all functions over any number of variables, with skipped levels above, between and below nodes, counts beyond 64 bits",
 "Tests compare about ten counts of symmetric problems; level-gap factors on arbitrary supports and metamorphic laws (complement, inclusion-exclusion) are not tested.",
 ["operations.go"],
 [("memoised count weighted by level gaps","operations.go:Satcount/satcount")],
 ["returned big.Int"])
p("C07","Allsat enumerates exactly the satisfying assignments, once each",
 "Allsat(f, n) calls f with slices of length Varnum() over {0,1,-1} that are pairwise incompatible and whose union is exactly the set of assignments satisfying n (no call for False). If f returns an error the enumeration stops immediately and Allsat returns an error; otherwise it returns nil. The callback may itself compute with the BDD, even triggering garbage collections, without disturbing the enumeration.",
 ["inputs","histories","configurations"],
 "all functions, including don't-care variables above, between and below nodes; an error returned at any call; callbacks that allocate nodes while the Go collector runs",
 "TestOperations compares the enumeration but throws the verdict away, one example counts calls; errors from the callback are never tested and n is always kept alive by the test.",
 ["operations.go"],
 [("profile reset between levels","operations.go:allsat"),("error propagation","operations.go:allsat")],
 ["sequence of slices passed to f, returned error"])
p("C08","Allnodes visits exactly the reachable nodes, once, with true fields",
 "Allnodes(f, n...) calls f exactly once for each non-constant node reachable from its arguments and for nothing unreachable, with the id, level and successor ids that describe the node; with no node argument it covers all active nodes of the BDD. If f returns an error the visit stops and an error is returned. A visit, complete or interrupted, leaves no trace: all later operations, collections and visits behave as if it had not happened, even if the callback itself uses the BDD.",
 ["inputs","histories","configurations"],
 "all sets of root nodes (shared, repeated, constant), an error returned at any call, any operations before, during and after the visit",
 "One example counts nodes of one BDD on one root; sharing, several roots, interrupted visits, leftover marks and later garbage collections are not tested.",
 ["operations.go","hudd.go","buddy.go","hkernel.go","bkernel.go"],
 [("mark bits in node fields","hudd.go/buddy.go:marknode/unmarknode"),("markrec/unmarkall","hkernel.go, bkernel.go")],
 ["tuples passed to f, returned error, later results"])
p("C09","Print and Dot output describe exactly the diagram they are given",
 "The text written by Print and by Dot for given roots contains exactly the non-constant nodes reachable from them (all active nodes if none is given), with their levels and low/high successors, so that the functions of the roots can be rebuilt from the text. A single constant prints as True or False, Dot omits only edges to False, and when the BDD is in error both report the error instead.",
 ["inputs","histories"],
 "all diagrams and root lists, with and without error status",
 "No test calls Print or Dot.",
 ["stdio.go","operations.go"],
 [("sorted node table","stdio.go:Print/printSet"),("edge emission","stdio.go:Dot")],
 ["bytes written"])
p("C10","Nodes held by the program survive all memory management unchanged",
 "As long as the program holds a Node, the node and everything reachable from it stay valid, keep their identity and denote the same function, whatever garbage collections (of the BDD or of the Go runtime), table resizes and cache resets occur. This holds however many references to the same node are created and in whatever order they are dropped, for nodes held only through a parent or a descendant, and for nodes passed to a call whose argument is the last reference. The results of later operations do not depend on whether, when or how often any of this happened.",
 ["histories","schedules","inputs"],
 "all histories of creating, copying and dropping references interleaved with runtime collections, BDD collections and resizes, including more than a thousand references to one node",
 "Tests rely on collections happening by chance during one monotone computation; they never drop references on purpose, never saturate a reference count and never recheck a held node after a collection.",
 ["hkernel.go","bkernel.go","hudd.go","buddy.go","bdd.go"],
 [("external reference counts with finalizers","Retnode, nodefinalizer in New"),("mark from refcount>0 and refstack, sweep","gbc/markrec"),("table copy and free list on resize","noderesize"),("cache reset after collection","bdd.go:Makenode")],
 ["function of each held node after each step"])
p("C11","Nodes no longer referenced are reclaimed and reused",
 "Once the program has dropped its references to nodes and the Go runtime has noticed, the next BDD garbage collection reclaims every node not reachable from a held node, a variable, an operation in progress or a node that once had more than a thousand simultaneous references, and reuses the space. Consequently a computation that runs forever with a bounded set of held nodes runs in a node table of bounded size.",
 ["histories"],
 "all histories of building and dropping functions with runtime collections in between",
 "A leak only makes tests slower or bigger; no test measures table occupancy.",
 ["hkernel.go","bkernel.go","hudd.go","buddy.go"],
 [("finalizers decrement reference counts","New:nodefinalizer"),("sweep rebuilds free list","gbc")],
 ["Allnodes() count and Stats() after collection"])
p("C12","Tuning options and build tags never change results",
 "For the same sequence of operations, every choice of Nodesize, Cachesize, Cacheratio, Maxnodeincrease and Minfreenodes, and each build tag (default, buddy, debug), yields nodes denoting the same functions, the same equalities, counts, enumerations and error status. In particular no such choice makes a valid operation fail, panic or not return, apart from exhausting the machine's memory.",
 ["configurations","histories","inputs"],
 "all valid option combinations, from minimal tables and caches of a few entries to large ones, times all operation histories",
 "Tests use three fixed option combinations on one computation each and never compare runs.",
 ["config.go","hkernel.go","bkernel.go","cache.go","primes.go","hudd.go","buddy.go"],
 [("table growth policy","noderesize"),("prime sizing","primes.go"),("cache sizing/resizing and full-key comparison","cache.go")],
 ["canonical form of all results across configurations and builds"])
p("C13","Maxnodesize bounds the node table; failures are clean",
 "With Maxnodesize(m) (m not smaller than the requested initial table) the node table never exceeds m nodes. An operation that would need more returns nil (or, for enumerating calls, an error) and sets the error status, and this happens only when the table has reached the limit. After such a failure all held nodes are intact and, once references have been dropped, operations that fit succeed with correct results.",
 ["histories","configurations","fault_sequences"],
 "all limits and all operation sequences, with the exhaustion falling at any allocation inside any operation",
 "No test uses Maxnodesize.",
 ["config.go","hkernel.go","bkernel.go","bdd.go","operations.go"],
 [("limit test in noderesize","noderesize"),("errMemory propagation","makenode, bdd.go:Makenode"),("cache reset after collection","bdd.go:Makenode")],
 ["nil results, Errored(), node ids, Stats(), functions of held nodes"])
p("C14","Invalid arguments give an error result, never a panic or corruption",
 "Calls with invalid arguments (nil or illegal nodes, out-of-range variables, mismatched or repeated index lists, a variable both replaced and new in NewReplacer, unsupported operators, a bad number of variables, Label of a constant) return the documented failure value (nil node, -1, zero count, nil slice, False for Makeset, or an error), set the error status when the BDD has one to set, and never panic. Because failures yield nil nodes, any chain of further calls on them also fails the same way, and valid nodes and later valid operations are unaffected. A BDD on which only valid calls were made has no error.",
 ["inputs","histories"],
 "all invalid values in every argument position of every exported function, at any point of a history, followed by any valid operations",
 "No test makes an invalid call.",
 ["bdd.go","operations.go","errors.go","replace.go","hudd.go","buddy.go"],
 [("checkptr","bdd.go:checkptr"),("sticky error","errors.go:seterror"),("argument validation","Ithvar, NIthvar, Makeset, Makecube, NewReplacer, New, AppEx")],
 ["return values, Error(), Errored()"])
p("C15","Automatic reference management is free of data races",
 "A program that uses a BDD from a single goroutine never exhibits a data race with the reference management that the Go runtime runs in the background, whatever the timing of the Go garbage collector and of finalizers. So no reference count update is lost and no held node is ever reclaimed.",
 ["schedules","histories"],
 "all timings of the Go collector relative to any sequence of operations, both implementations",
 "Tests are not run under the race detector and never check held nodes against concurrent finalizers.",
 ["hkernel.go","bkernel.go","hudd.go","buddy.go"],
 [("finalizer closure under lock","New:nodefinalizer"),("reference count increment","Retnode"),("table swap","noderesize")],
 ["race detector reports, functions of held nodes"])
p("C16","BDDs are isolated from one another",
 "Several BDDs, possibly with different numbers of variables and options, can be used in any interleaving, or each from its own goroutine, and each behaves exactly as if it were alone. This includes results, error status, reference management and replacers.",
 ["histories","schedules","configurations"],
 "all interleavings of operation sequences over several BDDs in one goroutine, and all schedules of one goroutine per BDD",
 "Tests use one BDD at a time (two sequentially in Milner) and no goroutines.",
 ["bdd.go","replace.go","hudd.go","buddy.go","cache.go"],
 [("all state under *BDD","bdd.go:BDD, tables, caches"),("process-wide replacer identifiers","replace.go:_REPLACEID"),("shared constant nodes","bdd.go:bddone/bddzero")],
 ["results compared with a solo run; race detector"])
p("C17","User-defined operations on the kernel API are safe under collection",
 "Makenode(level, low, high) returns the existing node for the triple, or low when both branches are equal, or a new node with those fields; nodes pushed with Pushref after Initref, and all they reach, survive any collection until popped, in stack order. So an operation written by a user in this style, ending with Retnode, yields the node of the function it computes, Equal to the one obtained through the built-in operations.",
 ["programs","histories","configurations"],
 "all bottom-up constructions through the kernel functions with a collection or resize at any allocation",
 "Kernel functions are exported but only called by the library itself in tests.",
 ["bdd.go","hkernel.go","bkernel.go"],
 [("private reference stack","bdd.go:Initref/Pushref/Popref"),("makenode lookup before insert","makenode"),("external wrapping","Retnode")],
 ["returned ids and nodes"])
p("C18","Stats reports the true state of the node table",
 "At any time Stats() reports the number of variables and node counts that agree with observation: Used equals the number of active nodes, Allocated equals Used plus Free and bounds every node id, Produced and the number of garbage collections never decrease, and Produced counts exactly the nodes created: lookups, and creations that fail, add nothing. With the build tag debug the number of external references grows by one for each reference obtained to a node that is not permanent, and those that were dropped are counted as reclaimed, after the Go runtime notices and a collection.",
 ["histories","configurations"],
 "all histories of operations, collections and resizes, both implementations",
 "One example logs Stats() without looking at it.",
 ["hudd.go","buddy.go","hkernel.go","bkernel.go","bdd.go"],
 [("freenum/produced counters","makenode/setnode, gbc, noderesize"),("gc history","gbc")],
 ["text of Stats() compared with Allnodes()"])
p("C19","Cost follows the size of the diagrams, not the number of their paths",
 "Not, Apply, Ite, Exist, AppEx, Replace with an order-preserving renaming, Satcount, Allnodes, Print and Dot remember the subproblems they have solved, so that with caches larger than the number of distinct subproblems they return promptly on operands with few nodes, however astronomically many paths these have. This holds whatever was computed before and when collections, growths of the table or growths of the caches fall inside the operation.",
 ["inputs","histories","configurations"],
 "all operands with small diagrams and exponentially many paths (parity, modular counters and their combinations), all operators, sets and order-preserving renamings, any history, collections and growths inside the call",
 "An operation that forgets subproblems only makes the small problems of the tests a little slower; no test has operands whose paths cannot be enumerated for each operation.",
 ["operations.go","cache.go","hkernel.go","bkernel.go","stdio.go"],
 [("operation caches, their keys and hash functions","cache.go"),("memo table of satcount","operations.go:satcount"),("mark bits of Allnodes","markrec"),("resizing of caches with the table","bdd.go:cacheresize")],
 ["return of the call within processor and memory limits thousands of times larger than needed"])
p("C20","The node table and caches are sized as the options document",
 "The table starts with the requested number of nodes (at least two per variable plus two), is collected only when no free node is left, and grows after a collection exactly when fewer than Minfreenodes percent of its nodes are free. A growth doubles the table, limited by Maxnodeincrease and Maxnodesize (up to rounding to a prime), and the table never shrinks or grows otherwise. Caches have Cachesize entries (default 10 000) until the table grows and then, if Cacheratio is set, that percentage of the table.",
 ["configurations","histories"],
 "all combinations of the options and all histories of allocations, references and collections, both implementations; cache sizes with the build tag debug, which reports them",
 "No test looks at the size of a table or of a cache; only three combinations of options are used.",
 ["config.go","hkernel.go","bkernel.go","cache.go","primes.go","hudd.go","buddy.go"],
 [("collection and growth decision","hkernel.go/bkernel.go:makenode"),("new size","noderesize"),("cache sizes","cache.go:init/resize, cacheinit"),("defaults","config.go:makeconfigs")],
 ["Stats() before and after each allocation"])
p("C21","The library behaves identically on 32-bit and 64-bit platforms",
 "Both implementations compile for 32-bit platforms (GOARCH=386), and every operation gives there the same result as on a 64-bit platform: the same functions, counts of any size, node identities, texts, errors and memory management, for any number of variables and nodes that fits. Nothing observable depends on the width of int.",
 ["inputs","histories","configurations"],
 "all histories of valid and invalid calls whose tables fit a 32-bit address space, on both word sizes, both implementations",
 "The tests run on the platform of the developer only. Arithmetic on identifiers, levels and weights that overflows 31 bits, or a byte encoding of nodes made for 64 bits, shows only there.",
 ["hudd.go","buddy.go","cache.go","operations.go","hkernel.go","bkernel.go","kernel.go"],
 [("node key of 12 or 20 bytes","hudd.go:huddhash, kernel.go:huddsize"),("pairing hash in uint64","cache.go:_PAIR"),("weights in big.Int","operations.go:satcount"),("size limits","noderesize")],
 ["results of a 386 build compared with the model and with the native build"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
