#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when the property list changes)."""
import json, os
H = "Every hash function, element identity and operation sequence"
P = []
def p(id, title, stmt, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
T = "internal/pkg/tree/"
tree = [T+"tree.go", T+"branch.go", T+"leaf1.go", T+"leaf2.go", T+"twig.go", T+"packer.go", T+"hasher.go"]
p("C01", "Set updates and lookups behave as a mathematical set",
  "After any sequence of set construction, element additions and removals, membership of any value, the element count and emptiness are exactly those of the mathematical set the sequence denotes. This holds for every element type whose equality and hash are consistent, however badly the hash distributes or collides, and no operation panics.",
  ["inputs", "histories"], "All histories of New/With/Without over all element identities and all hash functions consistent with equality, including full collisions.",
  "Existing tests use a handful of int histories with one well-behaved hash; colliding hashes and deep shared hash prefixes are never sampled systematically.",
  ["set.go"]+tree, [("hash-array-mapped trie insert/remove", T+"branch.go"), ("leaf splitting and collision lists", T+"leaf2.go, twig.go")], ["Set.Has", "Set.Count", "Set.IsEmpty"])
p("C02", "Set algebra matches mathematical union, intersection and differences",
  "Union, intersection, difference and symmetric difference of any sets (binary and n-ary forms) contain exactly the elements the mathematical operation prescribes, with the right count. None of them panics on any pair of sets, including sets whose elements have colliding hashes.",
  ["inputs", "histories"], "All pairs (and n-tuples) of sets reachable by any construction, over all hash functions.",
  "Tests combine ranges of ints under one hash; structural cases such as leaf-vs-branch and collision-list-vs-leaf merges depend on hash patterns they do not reach.",
  ["set.go", "set_ops.go"]+tree, [("structural combine/intersect/difference on node pairs", T+"branch.go, leaf1.go, leaf2.go, twig.go")], ["Set.Union", "Set.Intersection", "Set.Difference", "Set.SymmetricDifference", "Union", "Intersection"])
p("C03", "Set equality and subset tests are extensional",
  "Two sets compare equal exactly when they have the same elements, and one is reported a subset of another exactly when each of its elements is in the other, regardless of how each set was built. The untyped comparison agrees with the typed one and is false for values of other types.",
  ["inputs", "histories"], "All pairs of sets built by any two histories, over all hash functions.",
  "Different histories can yield different internal shapes for the same set; tests compare few shapes and one hash.",
  ["set.go"]+tree, [("structural equality and subset", T+"branch.go, leaf*.go, twig.go")], ["Set.Equal", "Set.Same", "Set.IsSubsetOf"])
p("C04", "Sets and maps are immutable: no operation changes an existing value",
  "Once obtained, a set or map keeps the same contents for ever: no update, algebraic operation, traversal or builder applied to it or to any value derived from it changes what it contains. Two values derived from the same ancestor never affect each other.",
  ["inputs", "histories"], "All histories that branch from a shared value and keep using old versions, over all hash functions.",
  "Aliasing shows only when two descendants share storage and both write; tests seldom re-inspect old versions after branching, and not with collision lists.",
  ["set.go", "map.go"]+tree+[T+"builder.go"], [("copy-on-write of nodes", T+"branch.go, packer.go"), ("in-place mutation reserved to builders", T+"builder.go")], ["Set.With", "Set.Union", "Map.With", "Map.Merge", "SetBuilder", "MapBuilder"])
p("C05", "Traversing a set yields every element exactly once",
  "A traversal of any set visits each element exactly once and nothing else, and the element list agrees with it. Picking one arbitrary element returns a member, and picking n arbitrary elements returns min(n, count) distinct members.",
  ["inputs", "histories"], "All reachable sets, all n, all hash functions.",
  "Tests traverse sets of consecutive ints under one hash.",
  ["set.go", T+"iterator.go", T+"packer_iter.go"]+tree, [("trie iterator stack", T+"packer_iter.go")], ["Set.Range", "Set.Elements", "Set.Any", "Set.AnyN"])
p("C06", "Filtering, mapping, reducing and grouping sets are elementwise",
  "Filtering keeps exactly the members satisfying the predicate; mapping yields exactly the images; grouping partitions the members by key; conversion of the element type preserves the members. Reduction with an associative and commutative function equals folding all members, and reports absence exactly on the empty set.",
  ["inputs", "histories"], "All sets, all predicates, all mapping, key and associative-commutative reduction functions, all hash functions.",
  "Tests fix one predicate or function and a few int ranges.",
  ["set.go", T+"tree.go", T+"branch.go", T+"leaf2.go", T+"twig.go"], [("per-node where/map/reduce", T+"branch.go")], ["Set.Where", "SetMap", "Set.Reduce", "Set.Reduce2", "SetGroupBy", "SetAs", "Set.AsSetAny"])
p("C07", "Ordered traversal and selection follow the given order",
  "Ordered listing and traversal return all members, each once, sorted by the supplied strict weak order; taking the first n returns the n least members (all of them if fewer). Taking the first element returns a least member.",
  ["inputs", "histories"], "All sets, all strict total orders on the members, all n, all hash functions.",
  "Tests order ints ascending under one hash.",
  ["set.go", T+"tree.go"], [("heap-based ordered iterator", T+"tree.go, builder.go")], ["Set.OrderedElements", "Set.OrderedRange", "Set.OrderedFirstN", "Set.First", "Set.FirstN"])
p("C08", "Set builders denote the set of their operations and reset on finish",
  "At every point a set builder's count and membership equal those of the set denoted by the additions and removals since its creation or last finish, and finishing returns exactly that set. A finished set is unaffected by any later use of the builder, which then starts from empty.",
  ["inputs", "histories"], "All interleavings of add, remove, query and finish, over all hash functions.",
  "Tests build and finish once; reuse after finish and collision-list in-place updates are not covered.",
  ["set_builder.go", T+"builder.go"]+tree, [("in-place builder updates", T+"builder.go")], ["SetBuilder.Add", "SetBuilder.Remove", "SetBuilder.Has", "SetBuilder.Count", "SetBuilder.Finish"])
p("C09", "Map updates and lookups behave as a finite function",
  "After any sequence of map construction, key bindings and removals, every lookup form returns the most recent binding of its key or reports absence, and the count is the number of bound keys. This holds for every key type whose equality and hash are consistent, including colliding hashes.",
  ["inputs", "histories"], "All histories of New/With/Without over all keys, values and hash functions.",
  "Tests use a handful of int or string keys under one hash.",
  ["map.go", "mapEntry.go"]+tree, [("entries keyed by key only", "mapEntry.go")], ["Map.With", "Map.Without", "Map.Get", "Map.Has", "Map.MustGet", "Map.GetElse", "Map.GetElseFunc", "Map.Count"])
p("C10", "Map merge and update resolve conflicts as specified",
  "Updating one map with another binds every key of either, the second map winning on common keys, whichever is larger. Merging binds keys present in one map only unchanged, and each common key to the resolver applied to that key, the first map's value and the second map's value, in that order.",
  ["inputs", "histories"], "All pairs of maps, all resolver functions, all hash functions.",
  "Which side is treated as receiver depends on relative size and node shape; tests use symmetric resolvers or few shapes.",
  ["map.go"]+tree+[T+"nodeArgs.go"], [("combine with flipped arguments", T+"nodeArgs.go")], ["Map.Update", "Map.Merge"])
p("C11", "Operations derived from a map agree with its bindings",
  "Key set, value set, projection onto keys, filtering, value mapping, traversal, conversion to and from Go maps, and construction from a key set each contain exactly the bindings prescribed by the source. Traversal visits each binding exactly once.",
  ["inputs", "histories"], "All maps, predicates, functions and key lists, all hash functions and Go map iteration orders.",
  "Tests use fixed small maps.",
  ["map.go"], [("builders fed by traversal", "map.go")], ["Map.Keys", "Map.Values", "Map.Project", "Map.Where", "MapMap", "Map.Range", "MapToGoMap", "NewMapFromGoMap", "NewMapFromKeys", "Map.Any"])
p("C12", "Map builders and map equality are faithful",
  "At every point a map builder's count and lookups equal those of the map denoted by its operations since creation or last finish, and finishing returns exactly that map, unaffected by later use of the builder. Maps compare equal exactly when they bind the same keys to equal values, however built.",
  ["inputs", "histories"], "All builder histories and pairs of maps, all hash functions.",
  "Tests build once and compare maps from one construction path.",
  ["map_builder.go", "map.go", T+"builder.go"], [("builder", T+"builder.go"), ("entry equality", "mapEntry.go")], ["MapBuilder", "Map.Equal", "Map.Same"])
p("C13", "Equal values have equal hashes",
  "Whenever two sets, maps, key-value pairs, integer sets or lazy sets compare equal, their hashes under any seed are equal, so that they can serve as elements and keys of one another. This does not depend on how each was built.",
  ["inputs", "histories"], "All pairs of equal values built by different histories, all seeds, all element hash functions.",
  "Only pairs with different construction histories and traversal orders can expose a violation; tests do not generate them.",
  ["set.go", "map.go", "kv.go", "intset.go", "lazy/set_base.go"], [("order-independent accumulation", "set.go, map.go")], ["Set.Hash", "Map.Hash", "KeyValue.Hash", "IntSet.Hash", "lazy Set.Hash"])
p("C14", "Integer sets are exact for every integer type and value",
  "Integer sets over every supported integer type behave as mathematical sets for all values of the type, including negative and extreme ones: construction, membership, addition, removal, count, traversal, union, intersection, subset, equality, filtering and mapping are all exact.",
  ["inputs", "histories"], "All values of each integer type, all histories, predicates and functions.",
  "Tests use small non-negative ints; word-boundary, negative and extreme values are rare inputs.",
  ["intset.go", "intset_iter.go"], [("cell index and bit mask arithmetic", "intset.go")], ["IntSet"])
p("C15", "Bit iterators represent subsets of 64 bit positions",
  "A bit iterator value denotes the set of its one bits: has, with, without, count, lowest index and advancing act on that set exactly, for every 64-bit value and every position. Stepping through a value yields each set position once in increasing order.",
  ["inputs"], "All 2^64 values and all 64 positions.",
  "Tests try a few masks.",
  ["bititer.go", "internal/pkg/iterator/bititer.go"], [("bit arithmetic", "bititer.go")], ["BitIterator"])
p("C16", "Integer ranges and mask sets contain exactly the specified numbers",
  "A range set built from start, stop and step contains exactly start, start+step, ... strictly before stop for positive and negative steps, and construction terminates for every argument triple whose result is representable, without wrapping around. The set built from a 64-bit mask contains exactly its one-bit positions.",
  ["inputs"], "All start/stop/step triples (with bounded cardinality) and all masks (with bounded population).",
  "Tests use small positive ranges; values near the integer limits are not sampled.",
  ["set_extra.go"], [("counting loops", "set_extra.go")], ["Iota", "Iota2", "Iota3", "NewSetFromMask64"])
p("C17", "The powerset contains exactly all subsets",
  "The powerset of a set of n elements contains exactly 2^n sets: every subset of the source, including the empty set and the source itself, and nothing else.",
  ["inputs", "histories"], "All sets within the size bound, all hash functions for elements and for sets.",
  "Tests compare counts or a fixed small set under one hash.",
  ["set.go"], [("Gray-code enumeration", "set.go")], ["Powerset"])
p("C18", "Parallel evaluation equals sequential evaluation",
  "Whatever degree of internal parallelism is configured and however the goroutines are scheduled, every set and map operation terminates with the same result as sequential evaluation, without data races, deadlocks or panics.",
  ["schedules", "inputs", "configurations"], "All schedules within the preemption bound, all concurrency settings, all operands within the bounds.",
  "The tests run one schedule per run and their sets are mostly too small to trigger parallel evaluation.",
  ["internal/pkg/depth/gauge.go", T+"branch.go", T+"nodeArgs.go", "set.go", "map.go"], [("fan-out of child operations to goroutines", "internal/pkg/depth/gauge.go")], ["Set.Union", "Set.Intersection", "Set.Equal", "Set.IsSubsetOf", "Set.Where", "Set.Reduce", "Map.Merge", "Map.Update", "Map.Equal"])
p("C19", "Values may be shared between goroutines without synchronisation",
  "Any number of goroutines may concurrently query, traverse, combine and derive new values from the same sets and maps; there is no data race, and each obtains the result it would obtain alone.",
  ["schedules", "inputs"], "All pairs of operations on shared values, all schedules within the preemption bound.",
  "No test runs concurrent readers; races depend on lazily written shared state.",
  ["set.go", "map.go"]+tree, [("no hidden mutation of shared nodes", T+"*.go")], ["Set", "Map", "IntSet"])
p("C20", "Lazy set expressions denote the set their eager counterparts do",
  "A lazy set expression built from filtering, mapping, union, intersection, differences, element addition and removal, and powerset denotes the same set as the eager evaluation: membership, emptiness, count, traversal, equality, subset and freezing all agree with it.",
  ["inputs", "programs"], "All expression trees within the depth bound over all operand sets, predicates and mappers.",
  "Tests check chosen expressions on fixed operands.",
  ["lazy/set_base.go", "lazy/set_diff.go", "lazy/set_union.go", "lazy/set_intersection.go", "lazy/set_where.go", "lazy/set_transform.go", "lazy/set_powerset.go", "lazy/set_empty.go", "lazy/set_frozen.go", "lazy/set_memo.go"], [("one type per operator over a common base", "lazy/*.go")], ["lazy.Set"])
p("C21", "Fast lazy answers agree with the exact ones",
  "Whenever a lazy set offers a constant-time answer for emptiness, count, bounded count or membership, that answer equals the exact one, and a bounded count is always the smaller of the count and the limit.",
  ["inputs", "programs"], "All expression trees within the depth bound, all operands, limits and elements.",
  "Tests call the fast variants on a few expressions, and codify some wrong answers.",
  ["lazy/set_*.go"], [("Fast* methods per operator", "lazy/*.go")], ["FastIsEmpty", "FastCount", "FastCountUpTo", "FastHas", "CountUpTo"])
p("C22", "Traversing or memoising a lazy set never changes what it denotes",
  "Traversals of a lazy set, complete, partial, repeated, continued past the end or running concurrently, never change the elements that any later or simultaneous query of that set or of sets derived from it reports, and race with nothing.",
  ["schedules", "histories", "inputs"], "All traversal histories and pairs of concurrent traversals within the bounds.",
  "Tests traverse once from start to end in one goroutine.",
  ["lazy/set_memo.go", "lazy/set_powerset.go"], [("replacement of the source by a memo on exhaustion", "lazy/set_memo.go")], ["lazy.Set.Range", "lazy.Set.Freeze"])
p("C23", "Relational join, product and projection are exact",
  "The join of relations consists of exactly the tuples whose projections onto each relation's attributes belong to it; the product and projection likewise follow their set definitions; a relation built from rows contains exactly those rows. The result does not depend on operand order and an empty operand yields an empty result.",
  ["inputs"], "All relations within the size bound over all attribute values.",
  "Tests cover two examples and an exhaustive 2-bit family without empty operands.",
  ["pkg/rel/relation.go"], [("group by common attributes", "pkg/rel/relation.go")], ["rel.New", "rel.Join", "rel.CartesianProduct", "rel.Project"])
p("C24", "Nesting and unnesting relations are exact and inverse",
  "Nesting groups tuples by the attributes not nested and replaces the nested attributes by the relation of their values; unnesting replaces a nested relation by its tuples; unnesting a nested relation gives back the original relation.",
  ["inputs"], "All relations within the size bound, single and multiple nestings.",
  "Tests nest one example with one attribute.",
  ["pkg/rel/relation.go"], [("group, project, join", "pkg/rel/relation.go")], ["rel.Nest", "rel.Unnest"])
p("C25", "JSON encodings contain exactly the contents",
  "Encoding a set as JSON yields an array with exactly one entry per element; encoding a map with string keys yields an object with exactly its bindings, and with other keys an array of key-value pairs; encoding never fails for encodable contents.",
  ["inputs", "histories"], "All sets and maps within the bounds over small alphabets, all hash functions.",
  "Tests encode one or two fixed values.",
  ["set_extra.go", "map_extra.go"], [("proxy slices and maps", "set_extra.go, map_extra.go")], ["Set.MarshalJSON", "Map.MarshalJSON"])
p("C26", "Formatting never panics and shows exactly the contents",
  "Formatting any set, map, builder or integer set with any common verb and flag terminates without panicking, and the plain form lists exactly the elements or bindings, each once.",
  ["inputs", "histories"], "All reachable values within the bounds including empty ones, the verbs v, +v, s and widths, all hash functions.",
  "Tests format a few non-empty values with the plain verb.",
  ["set.go", "map.go", "intset.go", T+"tree.go", T+"branch.go", T+"twig.go", "internal/pkg/fu/fu.go"], [("Format methods", "set.go, map.go, tree/*.go")], ["Set.String", "Map.String", "fmt verbs"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
