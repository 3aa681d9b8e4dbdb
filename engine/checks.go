package main

import (
	"fmt"
	"sort"
	"strings"
)

type checkSpec struct {
	Title  string
	Bounds string
	Assume []string
	Runs   func(tier string) []*RunCfg
}

const relAssume = "relations are uniform: all tuples have the attributes of the header; products are of relations with different attributes"

const showAssume = "element and key identities are fixed distinct values (their hashes are arbitrary); fmt and encoding/json are modelled in harness/fmtm and their results compared with the real ones on sampled paths"

const lazyAssume = "predicates and mapping functions are arbitrary pure functions (uninterpreted), as the package requires"

const schedAssume = "schedules are sequentially consistent, switch goroutines only at synchronisation and memory accesses that matter, and have at most the stated number of preemptions; data races are reported separately"

var commonAssumptions = []string{
	"z3 5.3.2 (z3-new) and the Go SSA builder (golang.org/x/tools v0.52.0) are correct; the interpreter of that SSA is checked against native runs of sampled paths",
	"hash functions are arbitrary functions with values in the stated window of free bits; hash.Any on built-in types is such a function",
}

// Hash windows: free bits and fixed bits of a 64-bit hash. A tree consumes
// three bits per level, most significant first.
var hashProfiles = map[string][2]uint64{
	"top3":  {7 << 61, 0},
	"top1":  {1 << 61, 0},
	"top2":  {3 << 61, 0},
	"two":   {3<<61 | 1<<58, 0},
	"l2":    {1<<61 | 1<<58, 0},
	"const": {0, 0},
	"last":  {1, 0xfffffffffffffff0},
	"mid":   {3 << 58, 5 << 61},
	"deep":  {3 << 1, 2 << 61},
}

// R is one run of a check: a harness, a hash window, parameters, and the tier
// it belongs to ("q" both tiers, "t" thorough only).
func q(harness, opts string) *RunCfg { return mkRun(false, harness, opts) }
func t(harness, opts string) *RunCfg { return mkRun(true, harness, opts) }

func mkRun(thorough bool, harness, opts string) *RunCfg {
	c := &RunCfg{Harness: harness, Params: map[string]int{}, Env: map[string]string{}, Procs: 8, thorough: thorough}
	c.HashMask, c.HashBase = hashProfiles["top1"][0], hashProfiles["top1"][1]
	c.Name = harness
	for _, f := range strings.Fields(opts) {
		kv := strings.SplitN(f, "=", 2)
		if err := c.set(kv[0], kv[1]); err != nil {
			panic(err)
		}
		c.Name += " " + f
	}
	return c
}

func (c *RunCfg) set(k, v string) error {
	n := 0
	_, err := fmt.Sscanf(v, "%d", &n)
	switch k {
	case "hash":
		h, ok := hashProfiles[v]
		if !ok {
			return fmt.Errorf("no hash window %s", v)
		}
		c.HashMask, c.HashBase = h[0], h[1]
		return nil
	case "conc":
		c.Env["FROZEN_CONCURRENCY"] = v
		return nil
	case "solver":
		c.Solver = v
		return nil
	case "sec":
		_, err = fmt.Sscanf(v, "%f", &c.Sec)
	case "procs":
		c.Procs = n
	case "sched":
		c.Sched = n
	case "maporder":
		c.MapOrder = n == 1
	case "steps":
		c.Steps = int64(n)
	default:
		c.Params[k] = n
	}
	return err
}

func runs(rs ...*RunCfg) func(string) []*RunCfg {
	return func(tier string) []*RunCfg {
		var out []*RunCfg
		for _, r := range rs {
			if tier == "thorough" || !r.thorough {
				out = append(out, r)
			}
		}
		return out
	}
}

const (
	treeAssume = "element identities are arbitrary (256 values, more than any bound can tell apart); Equal and Hash of the element type are consistent"
	seqAssume  = "operations run sequentially (parallel evaluation is C18)"
)

func checkIDs() []string {
	var ids []string
	for id := range checkSpecs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

var checkSpecs = map[string]*checkSpec{
	"C01": {
		Title:  "Set updates and lookups",
		Bounds: "histories of up to 5 initial elements and up to 4 updates with arbitrary elements, over hash windows of up to 3 free bits at the first, second, middle and last tree levels and with total collision; 20- and 40-element trees with two further updates",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("SetHistory", "init=2 ops=2 list=1 hash=top1"),
			q("SetHistory", "init=3 ops=1 list=1 hash=two"),
			q("SetHistory", "init=4 ops=1 list=1 hash=const"),
			q("SetHistory", "init=4 ops=1 list=1 hash=last"),
			q("SetHistory", "init=3 ops=2 hash=const"),
			q("SetHistory", "bulk=20 spread=1 ops=1 list=1"),
			q("SetHistory", "init=5 ops=1 list=1 hash=const"),
			q("SetHistory", "init=5 ops=1 list=1 hash=last"),
			q("SetKinds", "type=-2 part=0 n=3 hash=top1"),
			q("SetKinds", "type=-2 part=0 n=4 hash=const"),
			q("SetKinds", "type=-3 part=0 n=3 hash=const"),
			q("SetKinds", "type=-1 part=0 n=3 route=1 hash=last"),
			q("SetKinds", "type=-3 part=0 n=2 hash=top1"),
			t("SetHistory", "init=0 ops=4 list=1 hash=top1"),
			t("SetHistory", "init=3 ops=1 list=1 hash=top3 sec=100"),
			t("SetHistory", "init=3 ops=2 list=1 hash=l2 sec=100"),
			t("SetHistory", "init=5 ops=1 list=1 hash=top1 sec=100"),
			t("SetHistory", "init=5 ops=2 list=1 hash=const sec=100"),
			t("SetHistory", "init=4 ops=2 list=1 hash=last sec=100"),
			t("SetHistory", "init=3 ops=2 list=1 hash=deep sec=80"),
			t("SetHistory", "init=3 ops=2 list=1 hash=mid sec=80"),
			t("SetHistory", "bulk=40 stride=3 spread=1 ops=2 sec=100"),
			q("SetHistory", "bulk=24 spread=2 ops=1 list=1"),
			q("SetHistory", "bulk=12 hash=const ops=1 list=1"),
			q("SetHistory", "bulk=150 spread=1 ops=1 list=1 ids=4 idbase=148"),
			q("SetHistory", "bulk=40 stride=3 spread=1 ops=2 ids=4 idbase=116"),
			t("SetHistory", "bulk=254 spread=1 ops=2 ids=4 idbase=252 sec=60"),
			t("SetHistory", "bulk=24 spread=2 ops=2 list=1 ids=8 idbase=20 sec=60"),
		),
	},
	"C02": {
		Title:  "Set algebra",
		Bounds: "operands of up to 4 arbitrary elements each (up to 3 with every size combination), results updated further; trees of up to 24 elements with overlaps; n-ary forms of up to 4 operands",
		Assume: []string{treeAssume, seqAssume, "elements inside one operand are chosen pairwise different (duplicates at construction are C01)"},
		Runs: runs(
			q("SetAlgebra", "a=3 b=3 upto=1 hash=top1"),
			q("SetAlgebra", "a=3 b=3 upto=1 after=1 hash=const"),
			q("SetAlgebra", "a=3 b=2 probe=1 hash=top1"),
			q("SetAlgebra", "a=4 b=3 hash=last"),
			q("SetAlgebra", "a=2 b=4 hash=const"),
			q("SetAlgebra", "bulk=24 spread=1 a=1 b=0"),
			q("SetNary", "n=3 size=1 hash=top1"),
			q("SetNary", "n=3 size=2 hash=const"),
			q("SetAlgebra", "a=4 b=4 hash=const"),
			q("SetAlgebra", "a=5 b=1 hash=const"),
			q("SetAlgebra", "a=1 b=5 hash=const"),
			q("SetKinds", "type=-2 part=1 n=3 hash=top1"),
			q("SetKinds", "type=-2 part=1 n=4 hash=const"),
			q("SetKinds", "type=-3 part=1 n=3 hash=const"),
			q("SetKinds", "type=-1 part=1 n=3 route=1 hash=last"),
			q("SetKinds", "type=-3 part=1 n=2 hash=top1"),
			t("SetAlgebra", "a=3 b=3 upto=1 probe=1 after=1 hash=top1 sec=100"),
			t("SetAlgebra", "a=3 b=3 hash=top3 sec=120"),
			t("SetAlgebra", "a=3 b=3 hash=two sec=100"),
			t("SetAlgebra", "a=4 b=4 hash=top1 sec=120"),
			t("SetAlgebra", "a=5 b=4 hash=const sec=60"),
			t("SetAlgebra", "a=4 b=4 after=1 hash=last sec=100"),
			t("SetAlgebra", "a=3 b=3 routeA=3 routeB=2 hash=deep sec=60"),
			t("SetAlgebra", "bulk=24 spread=1 a=1 b=1 sec=100"),
			t("SetNary", "n=4 size=2 hash=top1 sec=60"),
			q("SetAlgebra", "bulk=24 spread=2 a=1 b=1 ids=8 idbase=20"),
			q("SetAlgebra", "bulk=16 hash=const a=1 b=1"),
			q("SetAlgebra", "bulk=150 spread=1 a=1 b=1 ids=4 idbase=110"),
			t("SetAlgebra", "bulk=24 spread=2 a=1 b=1 sec=60"),
			t("SetAlgebra", "bulk=150 spread=1 a=2 b=1 ids=4 idbase=110 sec=60"),
			t("SetAlgebra", "bulk=250 spread=1 a=1 b=1 after=1 ids=4 idbase=186 sec=60"),
		),
	},
	"C03": {
		Title:  "Set equality and subset",
		Bounds: "operands of up to 4 arbitrary elements, each built by construction, by updates, with a detour through removal, by builder or by union; trees of up to 24 elements",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("SetEquality", "a=3 b=3 upto=1 hash=top1"),
			q("SetEquality", "a=3 b=3 upto=1 routeA=1 hash=const"),
			q("SetEquality", "a=2 b=3 routeA=2 routeB=1 hash=top1"),
			q("SetEquality", "a=3 b=3 routeA=3 routeB=4 hash=top1"),
			q("SetEquality", "a=4 b=4 routeA=4 routeB=0 hash=const"),
			q("SetEquality", "a=3 b=3 routeA=2 routeB=3 hash=last"),
			q("SetEquality", "bulk=24 spread=1 a=1 b=1"),
			q("SetEquality", "a=4 b=4 upto=1 hash=const"),
			q("SetEquality", "a=5 b=5 routeB=1 hash=const"),
			q("SetKinds", "type=-2 part=2 n=3 hash=top1"),
			q("SetKinds", "type=-2 part=2 n=4 hash=const"),
			q("SetKinds", "type=-3 part=2 n=3 hash=const"),
			q("SetKinds", "type=-1 part=2 n=3 route=1 hash=last"),
			q("SetKinds", "type=-3 part=2 n=2 hash=top1"),
			t("SetEquality", "a=3 b=3 routeA=2 routeB=3 hash=two sec=120"),
			t("SetEquality", "a=4 b=4 upto=1 hash=top1 sec=120"),
			t("SetEquality", "a=3 b=3 upto=1 hash=top3 sec=120"),
			t("SetEquality", "a=5 b=5 hash=const sec=60"),
			t("SetEquality", "a=4 b=4 routeA=3 routeB=1 hash=deep sec=120"),
			t("SetEquality", "bulk=24 stride=5 spread=1 a=2 b=1 routeA=4 sec=120"),
			q("SetEquality", "a=4 b=4 hash=last"),
			q("SetEquality", "bulk=24 spread=2 a=1 b=1"),
			q("SetEquality", "bulk=150 spread=1 a=1 b=1 ids=4 idbase=110"),
			q("SetEquality", "bulk=16 hash=const a=1 b=1"),
			t("SetEquality", "bulk=24 spread=2 a=2 b=1 routeA=1 ids=8 idbase=16 sec=60"),
			t("SetEquality", "bulk=250 spread=1 a=1 b=1 routeB=1 ids=4 idbase=186 sec=60"),
			q("SetEquality", "a=3 b=3 routeA=5 hash=last"),
			q("SetEquality", "a=3 b=3 routeA=7 routeB=6 hash=const"),
			q("SetEquality", "a=3 b=3 routeA=6 hash=top1"),
			q("SetEquality", "a=3 b=3 routeA=8 hash=last"),
			q("SetEquality", "a=2 b=3 routeA=9 hash=top1"),
			q("SetEquality", "a=3 b=3 routeA=7 hash=last"),
			t("SetEquality", "a=3 b=3 routeA=5 routeB=7 hash=top1 sec=60"),
			t("SetEquality", "a=3 b=3 routeA=9 hash=last sec=60"),
		),
	},
	"C04": {
		Title:  "Immutability of sets and maps",
		Bounds: "families of up to 4 versions: each step picks any earlier version and any of seven kinds of operation; 3 to 5 initial elements; then every version and every iterator opened earlier is read again",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("SetVersions", "init=4 ops=2 kinds=7 hash=const"),
			q("SetVersions", "init=2 ops=2 kinds=7 hash=top1"),
			q("SetVersions", "init=4 ops=2 kinds=2 routeA=2 hash=const"),
			q("SetVersions", "init=5 ops=2 kinds=2 routeA=4 hash=last"),
			q("MapVersions", "init=3 ops=2 kinds=4 hash=const"),
			q("MapVersions", "init=2 ops=2 kinds=7 hash=const"),
			q("SetVersions", "bulk=12 spread=1 ops=1 kinds=7"),
			t("SetVersions", "init=4 ops=3 kinds=3 hash=const sec=120"),
			t("SetVersions", "init=3 ops=3 kinds=7 hash=const sec=150"),
			t("SetVersions", "init=3 ops=2 kinds=7 hash=two sec=120"),
			t("SetVersions", "bulk=12 spread=1 ops=2 kinds=7 sec=100"),
			t("MapVersions", "init=3 ops=2 kinds=7 hash=top1 sec=120"),
			t("MapVersions", "init=2 ops=3 kinds=4 hash=const sec=120"),
			q("SetVersions", "init=3 ops=2 kinds=12 hash=const"),
			q("SetVersions", "init=2 ops=2 kinds=12 hash=top1"),
			q("SetVersions", "bulk=12 spread=2 ops=1 kinds=12"),
			q("SetVersions", "bulk=60 spread=1 ops=1 kinds=12 ids=4 idbase=58"),
			q("SetVersions", "bulk=10 hash=const ops=1 kinds=12"),
			q("MapVersions", "init=2 ops=2 kinds=10 hash=const"),
			q("MapVersions", "bulk=8 spread=2 ops=1 kinds=10 ids=4 idbase=6 hash=const"),
			q("MapVersions", "bulk=40 spread=1 ops=1 kinds=10 ids=4 idbase=38 hash=const"),
			t("SetVersions", "init=4 ops=2 kinds=12 hash=const sec=100"),
			t("SetVersions", "bulk=10 spread=2 ops=2 kinds=12 ids=2 idbase=9 sec=100"),
			t("MapVersions", "init=3 ops=2 kinds=10 hash=const sec=100"),
		),
	},
	"C05": {
		Title:  "Traversal of sets",
		Bounds: "sets of up to 5 arbitrary elements built by five routes, and trees of up to 40 elements; every n for AnyN up to count+1",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("SetTraversal", "init=3 hash=two"),
			q("SetTraversal", "init=3 routeA=2 hash=top1"),
			q("SetTraversal", "init=4 hash=const"),
			q("SetTraversal", "init=4 routeA=4 hash=last"),
			q("SetTraversal", "bulk=17 spread=1 init=1"),
			q("SetTraversal", "bulk=9 stride=8 spread=1 init=1"),
			q("SetTraversal", "init=4 hash=top2"),
			q("SetTraversal", "init=5 routeA=2 hash=const"),
			q("SetTraversal", "init=6 hash=const"),
			q("SetTraversal", "bulk=40 stride=3 spread=1 init=1"),
			t("SetTraversal", "init=4 hash=top3 sec=150"),
			t("SetTraversal", "init=5 routeA=1 hash=two sec=150"),
			t("SetTraversal", "init=5 routeA=3 hash=deep sec=150"),
			t("SetTraversal", "bulk=40 stride=3 spread=1 init=1 sec=150"),
			t("SetTraversal", "bulk=40 stride=8 spread=1 init=2 sec=150"),
			q("SetTraversal", "bulk=60 spread=1 init=1 ids=4 idbase=58"),
			q("SetTraversal", "bulk=16 spread=2 init=1"),
			q("SetTraversal", "bulk=12 hash=const init=1"),
			q("SetTraversal", "bulk=150 spread=1 init=1 ids=2 idbase=149"),
			t("SetTraversal", "bulk=30 spread=2 init=2 ids=4 idbase=28 sec=100"),
		),
	},
	"C06": {
		Title:  "Where, SetMap, conversions, Reduce, GroupBy",
		Bounds: "sets of up to 5 arbitrary elements and trees of up to 20, arbitrary predicates, mapping functions with up to 4 images, grouping keys with up to 4 values",
		Assume: []string{treeAssume, seqAssume, "predicates, mapping and key functions are arbitrary pure functions (uninterpreted)"},
		Runs: runs(
			q("SetDerived", "init=3 hash=top1"),
			q("SetDerived", "init=4 hash=const"),
			q("SetDerived", "init=3 routeA=2 hash=last"),
			q("SetReduce", "init=4 hash=top1"),
			q("SetReduce", "init=4 hash=const"),
			q("SetReduce", "bulk=20 spread=1 init=1"),
			q("SetGroupBy", "init=3 groups=3 hash=top1"),
			q("SetGroupBy", "init=4 groups=1 hash=const"),
			q("SetDerived", "init=5 hash=const"),
			q("SetKinds", "type=-2 part=4 n=3 hash=top1"),
			q("SetKinds", "type=-2 part=4 n=4 hash=const"),
			q("SetKinds", "type=-3 part=4 n=3 hash=const"),
			q("SetKinds", "type=-1 part=4 n=3 route=1 hash=last"),
			q("SetKinds", "type=-3 part=4 n=2 hash=top1"),
			t("SetDerived", "init=4 hash=two sec=120"),
			t("SetDerived", "bulk=9 spread=1 init=1 sec=120"),
			t("SetReduce", "init=5 hash=two sec=100"),
			t("SetReduce", "bulk=40 stride=5 spread=1 init=1 sec=100"),
			t("SetGroupBy", "init=4 groups=3 hash=top1 sec=120"),
			t("SetGroupBy", "init=5 groups=3 hash=const sec=120"),
			q("SetReduce", "bulk=150 spread=1 init=1 ids=4 idbase=148"),
			q("SetReduce", "bulk=20 spread=2 init=1"),
			q("SetReduce", "bulk=12 hash=const init=1"),
			q("SetDerived", "bulk=7 spread=2"),
			q("SetDerived", "bulk=8 spread=1"),
			q("SetGroupBy", "bulk=8 spread=2 groups=1"),
			q("SetGroupBy", "bulk=5 spread=1 groups=2"),
			t("SetDerived", "bulk=11 spread=2 sec=100"),
			q("SetGroupBy", "bulk=12 spread=1 mod=256"),
			q("SetGroupBy", "bulk=40 spread=1 mod=32 init=1 ids=4 idbase=38"),
			q("SetGroupBy", "bulk=40 spread=1 mod=2"),
			q("SetGroupBy", "bulk=12 spread=2 mod=256"),
			t("SetGroupBy", "bulk=100 spread=1 mod=64"),
		),
	},
	"C07": {
		Title:  "Ordered traversal and selection",
		Bounds: "sets of up to 5 arbitrary elements and trees of 9, total orders and orders with ties (4 ranks), every n up to count+1",
		Assume: []string{treeAssume, seqAssume, "the order is an arbitrary ranking, which covers every strict weak order on that many elements"},
		Runs: runs(
			q("SetOrdered", "init=3 hash=top1"),
			q("SetOrdered", "init=3 ties=1 hash=top1"),
			q("SetOrdered", "init=4 hash=const"),
			q("SetOrdered", "init=4 ties=1 hash=const"),
			q("SetOrdered", "bulk=9 spread=1"),
			q("SetOrdered", "init=4 ties=1 hash=top1"),
			q("SetOrdered", "init=5 ties=1 hash=const"),
			q("SetOrdered", "bulk=17 spread=1"),
			t("SetOrdered", "init=4 ties=1 hash=two sec=200"),
			t("SetOrdered", "init=5 hash=const sec=200"),
			t("SetOrdered", "bulk=5 stride=9 ties=1 spread=1 sec=150"),
			q("SetOrdered", "bulk=60 spread=1"),
			q("SetOrdered", "bulk=20 spread=2"),
			q("SetOrdered", "bulk=12 hash=const init=1"),
			t("SetOrdered", "init=5 ties=1 hash=top1 sec=150"),
			t("SetOrdered", "bulk=150 spread=1 sec=100"),
		),
	},
	"C08": {
		Title:  "Set builders",
		Bounds: "up to 5 operations (add, remove, finish in any order) after up to 4 initial additions; trees of 20 elements with two further operations",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("SetBuilderHistory", "init=1 ops=3 hash=top1"),
			q("SetBuilderHistory", "init=3 ops=2 hash=const"),
			q("SetBuilderHistory", "init=3 ops=1 cap=1 hash=two"),
			q("SetBuilderHistory", "init=3 ops=2 hash=last"),
			q("SetBuilderHistory", "bulk=12 spread=1 ops=1"),
			q("SetBuilderHistory", "init=5 ops=1 hash=const"),
			q("SetKinds", "type=-2 part=3 n=3 hash=top1"),
			q("SetKinds", "type=-2 part=3 n=4 hash=const"),
			q("SetKinds", "type=-3 part=3 n=3 hash=const"),
			q("SetKinds", "type=-1 part=3 n=3 route=1 hash=last"),
			q("SetKinds", "type=-3 part=3 n=2 hash=top1"),
			t("SetBuilderHistory", "init=0 ops=5 hash=top1 sec=150"),
			t("SetBuilderHistory", "init=3 ops=3 nofinish=1 hash=const sec=150"),
			t("SetBuilderHistory", "init=3 ops=2 hash=two sec=150"),
			t("SetBuilderHistory", "init=4 ops=2 hash=deep sec=150"),
			t("SetBuilderHistory", "bulk=20 stride=3 spread=1 ops=2 nofinish=1 sec=150"),
			q("SetBuilderHistory", "bulk=150 spread=1 ops=1 ids=4 idbase=148"),
			q("SetBuilderHistory", "bulk=16 spread=2 ops=2 ids=4 idbase=14"),
			q("SetBuilderHistory", "bulk=10 hash=const ops=1"),
			t("SetBuilderHistory", "bulk=16 spread=2 ops=3 ids=4 idbase=14 sec=100"),
		),
	},
	"C09": {
		Title:  "Map updates and lookups",
		Bounds: "histories of up to 4 initial bindings and up to 3 updates with arbitrary keys and values; trees of 20 keys",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("MapHistory", "init=1 ops=2 list=1 hash=top1"),
			q("MapHistory", "init=3 ops=1 hash=const"),
			q("MapHistory", "init=2 ops=1 list=1 hash=top1"),
			q("MapHistory", "init=3 ops=0 list=1 hash=last"),
			q("MapHistory", "bulk=12 spread=1 ops=1"),
			q("MapHistory", "init=4 ops=1 list=1 hash=const"),
			q("MapKinds", "type=-2 part=0 n=3 v=2 hash=top1"),
			q("MapKinds", "type=-2 part=0 n=4 v=2 hash=const"),
			q("MapKinds", "type=-3 part=0 n=3 v=1 route=1 hash=const"),
			q("MapKinds", "type=-3 part=0 n=2 v=1 hash=top1"),
			t("MapHistory", "init=5 ops=1 hash=const"),
			t("MapHistory", "init=4 ops=1 list=1 hash=last sec=100"),
			t("MapKinds", "type=-1 part=0 n=3 v=2 route=1 hash=last sec=60"),
			t("MapKinds", "type=-1 part=0 n=4 v=2 hash=const sec=60"),
			t("MapHistory", "init=2 ops=2 list=1 hash=top1 sec=150"),
			t("MapHistory", "init=3 ops=2 list=1 hash=const sec=150"),
			t("MapHistory", "init=3 ops=1 hash=two sec=150"),
			t("MapHistory", "init=3 ops=1 hash=last sec=120"),
			t("MapHistory", "bulk=20 stride=5 spread=1 ops=2 sec=150"),
			q("MapHistory", "bulk=150 spread=1 ops=1 list=1 ids=4 idbase=148"),
			q("MapHistory", "bulk=16 spread=2 ops=2 ids=4 idbase=14"),
			t("MapHistory", "bulk=10 hash=const ops=1 list=1 sec=100"),
			q("MapKinds", "type=11 part=0 n=2 v=2 hash=const"),
			q("MapKinds", "type=12 part=0 n=2 v=2 route=1 hash=top1"),
		),
	},
	"C10": {
		Title:  "Map Merge and Update",
		Bounds: "operands of up to 4 arbitrary bindings each (up to 3 with every size combination), an arbitrary resolver; trees of up to 24 keys",
		Assume: []string{treeAssume, seqAssume, "the resolver is an arbitrary pure function (uninterpreted) of key, left and right value"},
		Runs: runs(
			q("MapMerge", "a=3 b=3 upto=1 operands=1 hash=const"),
			q("MapMerge", "a=3 b=3 upto=1 hash=top1"),
			q("MapMerge", "a=3 b=1 probe=1 hash=top1"),
			q("MapMerge", "a=4 b=3 hash=last"),
			q("MapMerge", "bulk=20 spread=1 a=1 b=0"),
			q("MapMerge", "a=4 b=4 hash=const"),
			q("MapMerge", "a=5 b=1 hash=const"),
			q("MapMerge", "a=1 b=5 hash=const"),
			q("MapKinds", "type=-2 part=1 n=3 v=1 hash=top1"),
			q("MapKinds", "type=-2 part=1 n=3 v=1 hash=const"),
			q("MapKinds", "type=-3 part=1 n=3 v=1 route=1 hash=const"),
			q("MapKinds", "type=-3 part=1 n=2 v=1 hash=top1"),
			t("MapKinds", "type=-1 part=1 n=3 v=2 route=1 hash=last sec=60"),
			t("MapKinds", "type=-1 part=1 n=4 v=2 hash=const sec=60"),
			t("MapMerge", "a=3 b=3 upto=1 probe=1 operands=1 hash=const sec=120"),
			t("MapMerge", "a=3 b=3 hash=top3 sec=150"),
			t("MapMerge", "a=4 b=4 hash=top1 sec=150"),
			t("MapMerge", "a=4 b=4 routeA=2 routeB=1 hash=last sec=120"),
			t("MapMerge", "bulk=20 spread=1 a=1 b=1 sec=120"),
			q("MapMerge", "bulk=150 spread=1 a=1 b=1 ids=4 idbase=110"),
			q("MapMerge", "bulk=16 spread=2 a=1 b=1 ids=8 idbase=12"),
			q("MapMerge", "bulk=12 hash=const a=1 b=1 ids=8 idbase=8"),
			t("MapMerge", "bulk=16 spread=2 a=1 b=1 operands=1 probe=1 ids=8 idbase=8 sec=100"),
			q("MapKinds", "type=12 part=1 n=2 v=2 hash=const"),
		),
	},
	"C11": {
		Title:  "Operations derived from a map",
		Bounds: "maps of up to 4 arbitrary bindings built by four routes, trees of 12 keys; arbitrary predicates and mapping functions; projection onto up to 3 arbitrary keys",
		Assume: []string{treeAssume, seqAssume, "predicates and mapping functions are arbitrary pure functions (uninterpreted)"},
		Runs: runs(
			q("MapDerived", "init=3 proj=2 hash=top1"),
			q("MapDerived", "init=3 proj=2 routeA=1 hash=const"),
			q("MapDerived", "init=2 proj=2 routeA=2 hash=top1"),
			q("MapDerived", "init=4 proj=1 hash=last"),
			q("MapDerived", "bulk=12 spread=1 proj=1"),
			q("MapDerived", "init=5 proj=1 hash=const"),
			q("MapKinds", "type=-2 part=2 n=3 v=2 hash=top1"),
			q("MapKinds", "type=-2 part=2 n=4 v=2 hash=const"),
			q("MapKinds", "type=-3 part=2 n=3 v=1 route=1 hash=const"),
			q("MapKinds", "type=-3 part=2 n=2 v=1 hash=top1"),
			t("MapKinds", "type=-1 part=2 n=3 v=2 route=1 hash=last sec=60"),
			t("MapKinds", "type=-1 part=2 n=4 v=2 hash=const sec=60"),
			t("MapDerived", "init=3 proj=3 maporder=1 hash=top1 sec=150"),
			t("MapDerived", "init=4 proj=2 routeA=3 hash=two sec=200"),
			t("MapDerived", "bulk=12 stride=7 spread=1 init=1 proj=2 sec=200"),
			q("MapDerived", "bulk=12 spread=2 proj=1 ids=4 idbase=10 hash=const"),
			q("MapDerived", "bulk=60 spread=1 what=3 proj=2 ids=4 idbase=58"),
			q("MapDerived", "bulk=60 spread=1 what=5 init=1 ids=4 idbase=58"),
			q("MapDerived", "bulk=60 spread=1 what=1 init=1 ids=4 idbase=58"),
			q("MapDerived", "bulk=30 spread=1 what=2 init=1 ids=4 idbase=28 hash=const"),
			q("MapDerived", "bulk=30 spread=1 what=6 init=1 ids=4 idbase=28"),
			q("MapDerived", "bulk=30 spread=1 what=7 init=1 ids=4 idbase=28"),
			q("MapKinds", "type=11 part=2 n=3 v=2 hash=const"),
		),
	},
	"C12": {
		Title:  "Map builders and map equality",
		Bounds: "up to 4 builder operations (put, remove, finish in any order) after up to 3 initial puts; equality of maps of up to 4 arbitrary bindings built by four routes",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("MapBuilderHistory", "init=1 ops=3 hash=top1"),
			q("MapBuilderHistory", "init=3 ops=2 hash=const"),
			q("MapBuilderHistory", "init=2 ops=2 cap=1 hash=last"),
			q("MapBuilderHistory", "bulk=12 spread=1 ops=1"),
			q("MapEquality", "a=3 b=3 upto=1 hash=top1"),
			q("MapEquality", "a=3 b=3 upto=1 routeA=1 hash=const"),
			q("MapEquality", "a=2 b=2 routeA=2 routeB=3 hash=top1"),
			q("MapEquality", "bulk=9 spread=1 a=1 b=1"),
			q("MapBuilderHistory", "init=5 ops=1 hash=const"),
			q("MapEquality", "a=4 b=4 routeB=1 hash=const"),
			q("MapKinds", "type=-2 part=3 n=3 v=2 hash=top1"),
			q("MapKinds", "type=-2 part=3 n=4 v=1 hash=const"),
			q("MapKinds", "type=-3 part=3 n=3 v=1 route=1 hash=const"),
			q("MapKinds", "type=-3 part=3 n=2 v=1 hash=top1"),
			t("MapKinds", "type=-1 part=3 n=3 v=2 route=1 hash=last sec=60"),
			t("MapKinds", "type=-1 part=3 n=4 v=2 hash=const sec=60"),
			q("MapKinds", "type=-2 part=4 n=3 v=2 hash=top1"),
			q("MapKinds", "type=-2 part=4 n=4 v=2 hash=const"),
			q("MapKinds", "type=-3 part=4 n=3 v=1 route=1 hash=const"),
			q("MapKinds", "type=-3 part=4 n=2 v=1 hash=top1"),
			t("MapKinds", "type=-1 part=4 n=3 v=2 route=1 hash=last sec=60"),
			t("MapKinds", "type=-1 part=4 n=4 v=2 hash=const sec=60"),
			t("MapBuilderHistory", "init=0 ops=4 hash=top1 sec=150"),
			t("MapBuilderHistory", "init=3 ops=2 nofinish=1 hash=two sec=150"),
			t("MapEquality", "a=3 b=3 upto=1 hash=top3 sec=150"),
			t("MapEquality", "a=4 b=4 hash=top1 sec=150"),
			q("MapEquality", "bulk=100 spread=1 a=1 b=1 ids=4 idbase=70"),
			q("MapEquality", "a=4 b=4 hash=last"),
			q("MapEquality", "bulk=16 spread=2 a=1 b=1 ids=8 idbase=8"),
			q("MapBuilderHistory", "bulk=100 spread=1 ops=1 ids=4 idbase=98"),
			q("MapBuilderHistory", "bulk=16 spread=2 ops=2 ids=4 idbase=14"),
			q("MapEquality", "a=3 b=3 routeA=4 hash=last"),
			q("MapEquality", "a=3 b=3 routeA=5 hash=last"),
			q("MapEquality", "a=2 b=2 routeA=6 routeB=4 hash=top1"),
			q("MapKinds", "type=12 part=4 n=3 v=2 hash=const"),
		),
	},
	"C14": {
		Title:  "Integer sets",
		Bounds: "sets of up to 4 arbitrary values of the whole range of each of 12 integer types, up to 3 updates; algebra of operands of up to 3 values; arbitrary predicates and mapping functions; every iteration order of the Go map used in construction",
		Assume: []string{seqAssume, "predicates and mapping functions are arbitrary pure functions (uninterpreted)"},
		Runs: runs(
			q("IntSetHistory", "init=2 ops=1 list=1 hash=top1 maporder=1"),
			q("IntSetHistory", "init=2 ops=1 list=1 type=1 hash=const maporder=1"),
			q("IntSetHistory", "init=2 ops=1 list=1 type=3 hash=top1"),
			q("IntSetHistory", "init=2 ops=1 list=1 type=4 hash=const"),
			q("IntSetHistory", "init=3 ops=1 type=1 hash=const"),
			q("IntSetAlgebra", "a=2 b=1 hash=top1"),
			q("IntSetAlgebra", "a=2 b=2 type=1 hash=const"),
			q("IntSetDerived", "init=2 hash=top1"),
			q("IntSetDerived", "init=3 type=1 hash=const"),
			q("IntSetDerived", "init=2 type=4 hash=const"),
			q("IntSetVersions", "init=1 ops=2 type=1 hash=const"),
			t("IntSetHistory", "init=3 ops=1 list=1 type=2 hash=top1 sec=60"),
			t("IntSetHistory", "init=2 ops=2 list=1 type=3 routeA=2 hash=const sec=60"),
			t("IntSetHistory", "init=3 ops=1 list=1 type=5 hash=two sec=60"),
			t("IntSetHistory", "init=3 ops=1 list=1 type=6 hash=const sec=60"),
			t("IntSetHistory", "init=3 ops=1 list=1 type=7 hash=const sec=60"),
			t("IntSetHistory", "init=3 ops=1 list=1 type=8 hash=top1 sec=60"),
			t("IntSetHistory", "init=2 ops=2 list=1 type=9 hash=const sec=60"),
			t("IntSetHistory", "init=2 ops=2 list=1 type=10 hash=const sec=60"),
			t("IntSetHistory", "init=2 ops=2 list=1 type=11 hash=const sec=60"),
			t("IntSetAlgebra", "a=2 b=2 hash=top1 maporder=1 sec=60"),
			t("IntSetAlgebra", "a=3 b=2 type=3 routeA=1 hash=const sec=60"),
			t("IntSetAlgebra", "a=2 b=2 type=4 routeB=2 hash=const sec=60"),
			t("IntSetAlgebra", "a=2 b=2 type=6 hash=top1 sec=60"),
			t("IntSetAlgebra", "a=2 b=2 type=11 hash=top1 sec=60"),
			t("IntSetDerived", "init=3 type=6 hash=top1 sec=60"),
			t("IntSetDerived", "init=3 type=9 hash=const sec=60"),
			t("IntSetVersions", "init=2 ops=2 type=3 hash=const sec=60"),
			q("IntSetAlgebra", "a=3 b=2 type=1 hash=const"),
			t("IntSetHistory", "init=4 ops=1 list=1 type=1 hash=const sec=60"),
			t("IntSetVersions", "init=2 ops=2 type=1 hash=const sec=60"),
		),
	},
	"C15": {
		Title:  "Bit iterators",
		Bounds: "every 64-bit value and every pair of positions; the walk is decided one arbitrary step at a time",
		Assume: []string{"positions lie between 0 and 63"},
		Runs: runs(
			q("BitOps", ""),
			q("BitWalk", ""),
			q("InternalBits", ""),
			q("InternalMasker", ""),
		),
	},
	"C16": {
		Title:  "Integer ranges and mask sets",
		Bounds: "every triple of 64-bit arguments whose range has at most 3 elements (5 in the thorough tier, 8 for steps below 2^8); 5 (8) for step 1, 6 for ranges from zero; every triple denoting an empty range; masks of up to 5 one bits anywhere, and every mask within windows of 6 bits",
		Assume: []string{seqAssume},
		Runs: runs(
			q("IotaRange", "form=0 n=6 hash=top1 steps=300000"),
			q("IotaRange", "form=1 n=5 hash=const steps=300000"),
			q("IotaRange", "form=2 n=3 hash=top1 steps=300000"),
			q("IotaRange", "form=3 n=2 hash=const steps=300000"),
			q("IotaEmpty", "steps=300000"),
			q("MaskSet", "dense=1 hash=const"),
			q("MaskSet", "n=4 hash=const"),
			q("MaskSet", "n=3 hash=top1"),
			q("MaskSet", "window=5 lo=59 hash=const"),
			t("IotaRange", "form=2 n=5 hash=const sec=100"),
			t("IotaRange", "form=2 n=4 hash=two sec=100"),
			t("IotaRange", "form=2 n=8 stepbits=8 hash=const sec=100"),
			t("IotaRange", "form=1 n=8 hash=top1 sec=60"),
			t("MaskSet", "n=5 hash=const sec=100"),
			t("MaskSet", "window=6 lo=0 hash=top1 sec=60"),
			t("MaskSet", "window=6 lo=30 hash=const sec=60"),
			q("IotaRange", "form=2 n=4 hash=top1 steps=300000"),
			q("MaskSet", "n=5 hash=const"),
			t("MaskSet", "dense=2 hash=const sec=100"),
		),
	},
	"C17": {
		Title:  "Powerset",
		Bounds: "sources of up to 4 arbitrary elements (16 subsets); lookup of every subset built independently",
		Assume: []string{treeAssume, seqAssume},
		Runs: runs(
			q("Powerset", "init=3 hash=top1"),
			q("Powerset", "init=3 hash=const"),
			q("Powerset", "init=4 hash=const"),
			q("Powerset", "init=5 hash=const"),
			q("Powerset", "init=4 hash=top1"),
			t("Powerset", "init=3 hash=two sec=200"),
			t("Powerset", "init=4 hash=top2 sec=300"),
			t("Powerset", "init=6 hash=const sec=100"),
			q("Powerset", "init=6 hash=const"),
			t("Powerset", "init=5 hash=top1 sec=100"),
		),
	},
	"C13": {
		Title:  "Hash consistency",
		Bounds: "pairs of sets, maps, key-value pairs, integer sets and lazy sets of up to 3 arbitrary elements (plus 9 laid out over several tree levels) built by different routes; every seed; sets and maps nested one level",
		Assume: []string{treeAssume, seqAssume, "with the parameter wide, hashes under non-zero seeds are arbitrary 64-bit values"},
		Runs: runs(
			q("HashSets", "a=3 b=3 upto=1 routeA=1 hash=top1 wide=1"),
			q("HashSets", "a=3 b=3 routeA=2 routeB=4 hash=const wide=1"),
			q("HashSets", "a=2 b=2 routeB=3 hash=two"),
			q("HashSets", "bulk=9 spread=1 a=1 b=1 routeB=4"),
			q("HashMaps", "a=2 b=2 upto=1 routeA=1 hash=top1 wide=1"),
			q("HashMaps", "a=3 b=3 routeA=2 routeB=3 hash=const wide=1"),
			q("HashMaps", "bulk=9 spread=1 a=1 b=1 routeB=3"),
			q("HashNested", "a=2 b=2 hash=top1"),
			q("HashNested", "a=2 b=2 maps=1 routeB=1 hash=const"),
			q("HashKV", "a=2 b=2 hash=top1"),
			q("HashIntSets", "a=2 b=2 hash=top1"),
			q("HashIntSets", "a=3 b=2 type=1 routeA=1 hash=const"),
			q("HashIntSets", "a=2 b=2 type=3 routeB=2 hash=top1"),
			q("HashLazy", "depth=1 leaf=2 probe=2 wide=1"),
			q("HashLazy", "depth=1 leaf=2 probe=1 nested=1 hash=const"),
			q("SetKinds", "type=-2 part=5 n=3 hash=top1"),
			q("SetKinds", "type=-1 part=5 n=3 route=1 hash=last"),
			q("MapKinds", "type=-2 part=5 n=3 v=2 hash=top1"),
			q("MapKinds", "type=-2 part=5 n=4 v=2 hash=const"),
			q("MapKinds", "type=-3 part=5 n=3 v=1 route=1 hash=const"),
			q("MapKinds", "type=-3 part=5 n=2 v=1 hash=top1"),
			t("HashSets", "a=4 b=4 upto=1 routeA=1 routeB=2 hash=top1 wide=1 sec=100"),
			t("HashSets", "a=3 b=3 routeB=4 hash=two wide=1 sec=100"),
			t("HashMaps", "a=3 b=3 upto=1 routeB=2 hash=top2 wide=1 sec=100"),
			t("HashNested", "a=3 b=3 routeA=1 hash=top1 sec=100"),
			t("HashNested", "a=3 b=3 maps=1 routeA=1 hash=const sec=100"),
			t("HashIntSets", "a=3 b=3 type=4 hash=const sec=100"),
			t("HashIntSets", "a=3 b=3 type=2 routeA=2 hash=top1 sec=100"),
			t("HashLazy", "depth=2 leaf=1 probe=2 wide=1 sec=100"),
			t("HashLazy", "depth=1 bdepth=2 leaf=1 probe=2 nested=1 sec=100"),
			q("HashSets", "bulk=60 spread=1 a=1 b=1 routeB=4 ids=4 idbase=44"),
			q("HashSets", "bulk=16 spread=2 a=1 b=1 routeB=1"),
			q("HashMaps", "bulk=40 spread=1 a=1 b=1 routeB=3 ids=4 idbase=28"),
			q("HashMaps", "bulk=16 spread=2 a=1 b=1 routeB=2 ids=8 idbase=8"),
			q("HashNested", "a=3 b=3 hash=const"),
			q("HashNested", "a=3 b=3 routeA=7 hash=last"),
			q("HashNested", "a=3 b=3 routeA=5 hash=last"),
			q("HashSets", "a=3 b=3 routeA=6 routeB=8 hash=const wide=1"),
			q("HashMaps", "a=3 b=2 routeA=4 routeB=6 hash=last"),
			t("HashSets", "a=3 b=3 routeA=7 routeB=5 hash=last sec=60"),
			t("HashSets", "a=3 b=3 routeA=8 routeB=6 hash=top1 sec=60"),
			t("HashNested", "a=3 b=2 maps=1 routeA=4 hash=last sec=60"),
		),
	},
	"C20": {
		Title:  "Lazy set expressions",
		Bounds: "every expression of up to 2 (3 in the thorough tier) operators out of where, map, with, without, union, intersection, difference, symmetric difference over empty and frozen sets of up to 2 arbitrary elements; arbitrary predicates and mappings; one arbitrary observation; powersets of such expressions with up to 3 elements",
		Assume: []string{lazyAssume, treeAssume, seqAssume},
		Runs: runs(
			q("LazyExpr", "depth=1 leaf=2 probe=2 hash=top1"),
			q("LazyExpr", "depth=1 leaf=2 probe=1 hash=const"),
			q("LazyExpr", "depth=2 leaf=1 probe=1 hash=top1"),
			q("LazyPowerset", "plain=1 depth=1 leaf=2 small=1 probe=1 hash=const"),
			q("LazyPowerset", "depth=1 leaf=1 probe=1 hash=const"),
			q("LazyExpr", "depth=1 leaf=2 probe=2 hash=const wrap=1"),
			q("LazyExpr", "depth=1 leaf=2 probe=2 hash=const wrap=2"),
			q("LazyExpr", "depth=1 leaf=1 probe=1 hash=top1 wrap=3"),
			q("LazyExpr", "depth=2 leaf=1 probe=1 hash=const wrap=3"),
			t("LazyExpr", "depth=2 leaf=2 probe=1 hash=top1 wrap=3 sec=100"),
			t("LazyExpr", "depth=1 bdepth=2 leaf=1 probe=1 hash=const sec=150"),
			t("LazyExpr", "depth=1 leaf=3 probe=3 small=1 hash=top1 sec=150"),
			t("LazyExpr", "depth=2 leaf=2 probe=2 hash=top1 sec=150"),
			t("LazyExpr", "depth=3 leaf=1 probe=1 hash=const sec=150"),
			t("LazyPowerset", "plain=1 depth=1 leaf=3 probe=2 hash=top1 sec=100"),
			t("LazyPowerset", "depth=1 leaf=2 probe=1 hash=top1 sec=100"),
			q("LazyExpr", "depth=2 leaf=2 probe=2 hash=const"),
			q("LazyExpr", "depth=3 leaf=1 probe=1 hash=const"),
		),
	},
	"C21": {
		Title:  "Fast lazy answers",
		Bounds: "every expression of up to 2 operators (3 in the thorough tier) over empty and frozen sets of up to 2 elements, before and after memoisation; every element and every limit up to 7; powersets of sources of up to 3 arbitrary elements, and of around 63 fixed ones with every 64-bit limit",
		Assume: []string{lazyAssume, treeAssume, seqAssume, "limits are not negative"},
		Runs: runs(
			q("LazyFast", "depth=1 leaf=2 memo=1 hash=top1"),
			q("LazyFast", "depth=2 leaf=1 hash=const"),
			q("LazyPowerset", "fast=1 plain=1 depth=1 leaf=2 small=1 probe=1 hash=top1"),
			q("LazyPowerset", "fast=1 depth=1 leaf=1 probe=1 hash=const"),
			q("LazyBigPowerset", "n=62 spread=1"),
			q("LazyBigPowerset", "n=63 spread=1"),
			q("LazyBigPowerset", "n=64 spread=1"),
			q("LazyBigPowerset", "n=70 spread=1"),
			q("LazyFast", "depth=1 leaf=2 memo=1 hash=const wrap=3"),
			q("LazyFast", "depth=2 leaf=1 hash=const wrap=1"),
			q("LazyFast", "depth=2 leaf=1 memo=1 hash=top1"),
			q("LazyFast", "depth=2 leaf=2 hash=const"),
			t("LazyFast", "depth=2 leaf=2 memo=1 hash=top1 sec=200"),
			t("LazyFast", "depth=1 bdepth=2 leaf=1 memo=1 hash=top1 sec=200"),
			t("LazyFast", "depth=3 leaf=1 hash=const sec=200"),
			t("LazyPowerset", "fast=1 depth=2 leaf=1 probe=1 hash=const sec=100"),
			q("LazyFast", "depth=3 leaf=1 hash=const"),
			q("LazyFast", "depth=2 leaf=2 memo=1 hash=const"),
		),
	},
	"C22": {
		Title:  "Traversing and memoising lazy sets",
		Bounds: "every history of 3 (5) traversal steps over any number of interleaved traversals of every one-operator expression over sets of up to 2 elements, then one arbitrary observation of the set or of one derived before; every pair of concurrent uses out of nine with one preemption (2)",
		Assume: []string{lazyAssume, treeAssume, schedAssume},
		Runs: runs(
			q("LazyHistory", "depth=1 leaf=1 moves=3 past=1 hash=const"),
			q("LazyHistory", "depth=1 leaf=1 moves=4 past=1 obs=5 hash=const"),
			q("LazyConcurrent", "depth=1 leaf=1 sched=1 hash=const"),
			q("LazyPartial", "n=4 kind=1 hash=const two=1 steps=20000000 sec=20"),
			q("LazyPartial", "n=3 hash=const two=1 steps=20000000"),
			q("LazyPartial", "n=5 kind=1 hash=const wrap=1 steps=20000000"),
			q("LazyPartial", "n=8 hash=const kind=4 steps=20000000"),
			q("LazyHistory", "depth=1 leaf=1 moves=3 past=1 hash=const wrap=3"),
			t("LazyPartial", "n=4 hash=const two=1 steps=20000000 sec=100"),
			t("LazyPartial", "n=3 hash=top1 two=1 steps=20000000 sec=100"),
			t("LazyHistory", "depth=1 leaf=2 moves=4 past=1 hash=const sec=250"),
			t("LazyHistory", "depth=1 leaf=1 moves=5 past=1 hash=top1 sec=250"),
			t("LazyConcurrent", "depth=1 leaf=2 sched=1 hash=top1 sec=150"),
			t("LazyConcurrent", "depth=1 leaf=1 sched=2 hash=const sec=150"),
		),
	},
	"C18": {
		Title:  "Parallel evaluation",
		Bounds: "set and map operations on operands of up to 3 arbitrary elements (4 in the thorough tier), and of up to 24 fixed ones over several tree levels, with every branch evaluated in parallel (FROZEN_CONCURRENCY=-9); every schedule with at most one (2) preemptions; data races on any schedule",
		Assume: []string{treeAssume, schedAssume, "predicates, resolvers and mapping functions are pure"},
		Runs: runs(
			q("SetAlgebra", "a=3 b=3 op=1 hash=top1 conc=-9 sched=1"),
			q("SetAlgebra", "a=3 b=3 op=2 hash=top1 conc=-9 sched=1"),
			q("SetAlgebra", "a=3 b=3 op=3 hash=top1 conc=-9 sched=1"),
			q("SetAlgebra", "a=3 b=3 op=4 hash=top1 conc=-9 sched=1"),
			q("SetAlgebra", "bulk=24 spread=1 a=1 b=0 conc=-9 sched=0"),
			q("ParEquality", "a=3 b=3 hash=top1 conc=-9 sched=1"),
			q("ParEquality", "bulk=20 spread=1 a=1 b=0 conc=-9 sched=0"),
			q("SetDerived", "init=3 hash=top1 conc=-9 sched=1"),
			q("SetReduce", "init=3 hash=top1 conc=-9 sched=1"),
			q("SetReduce", "bulk=20 spread=1 init=1 conc=-9 sched=0"),
			q("MapMerge", "a=3 b=2 hash=top1 conc=-9 sched=1"),
			q("MapMerge", "bulk=12 spread=1 a=1 b=0 conc=-9 sched=0"),
			q("ParMapEquality", "a=3 b=3 hash=top1 conc=-9 sched=1"),
			t("SetAlgebra", "a=4 b=3 op=1 hash=top1 conc=-9 sched=1 sec=80"),
			t("SetAlgebra", "a=3 b=3 op=1 hash=top1 conc=-9 sched=2 sec=80"),
			t("SetAlgebra", "a=3 b=3 op=2 hash=top2 conc=-9 sched=1 sec=80"),
			t("SetAlgebra", "a=3 b=3 op=3 hash=top2 conc=-9 sched=1 sec=80"),
			t("SetAlgebra", "bulk=16 spread=1 a=1 b=0 conc=-9 procs=64 sched=0 sec=60"),
			t("ParEquality", "a=3 b=3 hash=top2 conc=-9 sched=1 sec=80"),
			t("ParEquality", "a=3 b=3 hash=top1 conc=-9 sched=2 sec=80"),
			t("SetDerived", "init=4 hash=top1 conc=-9 sched=1 sec=60"),
			t("SetDerived", "init=3 hash=top2 conc=-9 sched=2 sec=60"),
			t("SetReduce", "init=4 hash=top2 conc=-9 sched=2 sec=60"),
			t("MapMerge", "a=3 b=3 hash=top1 conc=-9 sched=2 sec=80"),
			t("ParMapEquality", "a=3 b=3 hash=top2 conc=-9 sched=1 sec=80"),
			q("ParEquality", "bulk=24 spread=2 a=1 b=0 conc=-9 sched=0"),
			q("SetAlgebra", "bulk=60 spread=1 a=1 b=0 ids=4 idbase=58 conc=-9 sched=0"),
			q("SetAlgebra", "bulk=16 spread=2 a=1 b=0 conc=-9 sched=1"),
			q("SetReduce", "bulk=60 spread=1 init=1 ids=4 idbase=58 conc=-9 sched=0"),
		),
	},
	"C19": {
		Title:  "Sharing between goroutines",
		Bounds: "every pair of 14 operations on sets of up to 3 arbitrary elements, of 10 on maps, of 8 on integer sets, including full collision buckets; every schedule without preemption and with one; data races on any schedule",
		Assume: []string{treeAssume, schedAssume, "predicates and resolvers are pure"},
		Runs: runs(
			q("SharedSets", "a=2 b=1 hash=const sched=1"),
			q("SharedSets", "a=3 b=1 hash=top1 sched=0"),
			q("SharedSets", "a=3 b=3 hash=const sched=0"),
			q("SharedMaps", "a=2 b=1 hash=const sched=1"),
			q("SharedMaps", "a=3 b=1 hash=top1 sched=0"),
			q("SharedMaps", "a=3 b=2 hash=const sched=0"),
			q("SharedIntSets", "a=1 b=1 hash=const sched=1"),
			q("SharedIntSets", "a=2 b=1 hash=const sched=0"),
			t("SharedSets", "a=3 b=1 hash=top1 sched=1 sec=150"),
			t("SharedSets", "a=3 b=3 hash=const sched=1 sec=100"),
			t("SharedSets", "bulk=9 spread=1 a=1 b=0 sched=1 sec=100"),
			t("SharedMaps", "a=3 b=1 hash=top1 sched=1 sec=150"),
			t("SharedMaps", "a=3 b=3 hash=const sched=1 sec=100"),
			t("SharedIntSets", "a=2 b=2 hash=top1 sched=1 sec=100"),
		),
	},
	"C23": {
		Title:  "Relational join, product and projection",
		Bounds: "relations of up to 3 arbitrary rows over up to 3 attributes, joined in every listed combination of headers (common, equal, disjoint, included, no attributes; two and three relations), in both orders, including empty operands",
		Assume: []string{relAssume, treeAssume, seqAssume},
		Runs: runs(
			q("RelNew", "n=2 hash=top1"),
			q("RelNew", "n=3 dup=1 hash=const"),
			q("RelJoin", "shape=0 a=2 b=2 hash=top1"),
			q("RelJoin", "shape=0 a=3 b=2 hash=const"),
			q("RelJoin", "shape=1 a=2 b=2 hash=top1"),
			q("RelJoin", "shape=2 a=2 b=2 hash=top1"),
			q("RelJoin", "shape=3 a=2 b=2 hash=top1"),
			q("RelJoin", "shape=4 a=2 b=2 hash=const"),
			q("RelJoin", "shape=5 a=1 b=2 hash=top1"),
			q("RelJoin", "shape=6 a=2 b=1 hash=top1"),
			q("RelJoin", "shape=7 a=1 b=1 hash=top1"),
			q("RelJoin", "shape=8 a=2 b=2 c=1 hash=const"),
			q("RelJoin", "shape=9 a=2 b=2 c=2 hash=const"),
			q("RelJoin", "shape=10 a=2 b=2 c=2 hash=const"),
			q("RelJoin", "shape=11 a=2 hash=top1"),
			q("RelProduct", "a=2 b=2 hash=top1"),
			t("RelNew", "n=3 hash=top1 sec=60"),
			q("RelJoin", "shape=0 a=3 b=3 hash=const"),
			t("RelJoin", "shape=0 a=3 b=2 hash=top1 sec=90"),
			t("RelJoin", "shape=0 a=2 b=2 hash=two sec=90"),
			t("RelJoin", "shape=4 a=3 b=3 hash=const sec=90"),
			t("RelJoin", "shape=8 a=2 b=2 c=2 hash=const sec=90"),
			t("RelJoin", "shape=10 a=2 b=2 c=2 hash=top1 sec=90"),
			t("RelJoin", "shape=3 a=3 b=3 hash=top1 sec=60"),
			t("RelProduct", "a=3 b=3 hash=const sec=60"),
			q("RelJoin", "shape=4 a=3 b=3 hash=const"),
		),
	},
	"C24": {
		Title:  "Nesting and unnesting relations",
		Bounds: "relations of up to 3 arbitrary rows over three attributes, nested by one or two groups (one, two or all attributes, overlapping groups, no group, a group taking the name of its attribute); relations of up to 3 tuples with nested relations of up to 2 rows each, including empty ones",
		Assume: []string{relAssume, treeAssume, seqAssume},
		Runs: runs(
			q("RelNest", "shape=0 n=3 hash=const"),
			q("RelNest", "shape=0 n=2 hash=top1"),
			q("RelNest", "shape=1 n=3 hash=const"),
			q("RelNest", "shape=2 n=2 hash=top1"),
			q("RelNest", "shape=3 n=3 hash=const"),
			q("RelNest", "shape=3 n=2 hash=top1"),
			q("RelNest", "shape=4 n=3 hash=const"),
			q("RelNest", "shape=5 n=3 hash=const"),
			q("RelNest", "shape=6 n=3 hash=const"),
			q("RelNest", "shape=7 n=3 hash=const"),
			q("RelUnnest", "n=2 size=2 hash=top1"),
			q("RelUnnest", "n=3 size=1 hash=const"),
			t("RelNest", "shape=0 n=3 hash=top1 sec=100"),
			t("RelNest", "shape=0 n=4 hash=const sec=100"),
			t("RelNest", "shape=1 n=3 hash=top1 sec=100"),
			t("RelNest", "shape=3 n=3 hash=top1 sec=100"),
			t("RelNest", "shape=3 n=4 hash=const sec=100"),
			t("RelUnnest", "n=3 size=2 hash=top1 sec=100"),
			t("RelUnnest", "n=2 size=3 hash=top1 sec=60"),
			q("RelUnnest", "n=3 size=2 hash=const"),
		),
	},
	"C25": {
		Title:  "JSON encodings contain exactly the contents",
		Bounds: "sets of up to 7 elements and maps of up to 4 bindings built by four routes, over every arrangement the hash windows give; element types: a struct, strings (with quotes, controls, HTML and non-ASCII characters), integers, nil, booleans, sets and maps; map keys: strings, structs, integers, sets",
		Assume: []string{showAssume, treeAssume, seqAssume},
		Runs: runs(
			q("JSONSets", "n=4 route=0 hash=top1"),
			q("JSONSets", "n=5 route=1 hash=top2"),
			q("JSONSets", "n=4 route=2 hash=top2"),
			q("JSONSets", "n=5 route=3 hash=top1"),
			q("JSONSets", "n=5 route=1 hash=const"),
			q("JSONSets", "n=4 route=1 hash=last"),
			q("JSONMaps", "n=3 route=0 hash=top2"),
			q("JSONMaps", "n=3 route=1 hash=top1"),
			q("JSONMaps", "n=4 route=0 hash=const"),
			q("JSONStrings", "n=2 hash=top1"),
			q("JSONStrings", "n=4 hash=const"),
			q("JSONNested", "n=3 route=0 hash=top1"),
			q("JSONNested", "n=3 route=1 hash=const"),
			q("JSONSets", "n=7 route=0 hash=top1"),
			q("JSONSets", "n=6 route=1 hash=top2"),
			t("JSONSets", "n=7 route=3 hash=top1"),
			t("JSONSets", "n=6 route=2 hash=mid"),
			t("JSONSets", "n=5 route=3 hash=l2"),
			t("JSONMaps", "n=5 route=0 hash=top2"),
			t("JSONMaps", "n=4 route=1 hash=top2"),
			t("JSONStrings", "n=3 hash=top1"),
			t("JSONStrings", "n=2 hash=top3"),
			t("JSONNested", "n=5 route=0 hash=top1"),
			q("JSONMaps", "n=5 route=0 hash=top1"),
		),
	},
	"C26": {
		Title:  "Formatting never panics and shows exactly the contents",
		Bounds: "sets of up to 7 elements, maps of up to 4 bindings, builders, pairs, nested and lazy sets and integer sets of up to 6 elements built by four routes, over every arrangement the hash windows give; the verbs v, s, d, q and x with the flags +, -, # and several widths, including a width given as an argument",
		Assume: []string{showAssume, treeAssume, seqAssume},
		Runs: runs(
			q("FormatSets", "n=4 route=0 hash=top1"),
			q("FormatSets", "n=4 route=1 hash=top2"),
			q("FormatSets", "n=4 route=2 hash=const"),
			q("FormatSets", "n=5 route=3 hash=const"),
			q("FormatSets", "n=7 min=7 route=0 hash=top1"),
			q("FormatMaps", "n=3 route=0 hash=top2"),
			q("FormatMaps", "n=4 route=1 hash=top1"),
			q("FormatMaps", "n=4 route=0 hash=const"),
			q("FormatOthers", "n=2 route=0 hash=top2"),
			q("FormatOthers", "n=3 route=1 hash=top1"),
			q("FormatOthers", "n=4 route=0 hash=const"),
			q("FormatIntSets", "n=3 first=0 hash=top1"),
			q("FormatIntSets", "n=3 first=3 hash=const"),
			q("FormatIntSets", "n=6 first=0 hash=const"),
			q("FormatValues", "n=2 hash=top1"),
			q("FormatValues", "n=3 hash=top1"),
			q("FormatValues", "n=5 hash=const"),
			t("FormatSets", "n=6 route=1 hash=top2"),
			q("FormatSets", "n=8 route=0 hash=top1"),
			t("FormatSets", "n=5 route=2 hash=mid"),
			t("FormatSets", "n=6 route=3 hash=top2 sec=80"),
			t("FormatMaps", "n=5 route=1 hash=top2 sec=80"),
			t("FormatOthers", "n=5 route=1 hash=top1 sec=80"),
			t("FormatOthers", "n=3 route=3 hash=top3 sec=80"),
			t("FormatIntSets", "n=6 first=2 hash=top1 sec=60"),
			q("FormatMaps", "n=5 route=1 hash=top1"),
		),
	},
}
