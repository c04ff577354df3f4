package trees

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C26_prune: pruning a categorical tree only turns nodes into leaves, never loses accuracy on the data it is given, and keeps only branches which help.
// bounds: 4 training rows covering all values of two 2-valued attributes, any classes; 2..3 pruning rows (any)
// time: 60 300
func VH_C26_prune() {
	as := []base.Attribute{vg.Attr(vg.C, "c0", "p", "q"), vg.Attr(vg.C, "c1", "p", "q"), vg.Attr(vg.C, "class", "u", "v")}
	g := vg.New(as, []int{2}, 4, func(r, c int) []byte {
		if c < 2 {
			return vg.Cat(r >> uint(c) & 1)
		}
		return vg.Any(as[c], fmt.Sprint("k", r))
	})
	root := InferID3Tree(g.Inst, new(InformationGainRuleGenerator))
	n := 2 + vk.Choose("rows", 2)
	test := vg.New(as, []int{2}, n, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprint("t", r, c)) })
	vPruneCheck(root, test, root.Prune)
}

// VH_C26_prunenum: the same for numeric trees.
// bounds: 3 training rows of two numeric attributes with integers in [-3,3] (thorough [-20,20]), two classes; 2 pruning rows (any integers in that range)
// time: 60 300
func VH_C26_prunenum() {
	vk.Opt("merge", 0)
	lim := 3
	if vk.Thorough() {
		lim = 20
	}
	mk := func(p string, n int) *vg.Grid {
		m, codes := make([][]float64, n), make([]int, n)
		for i := range m {
			m[i] = []float64{vk.FInt(fmt.Sprint(p, "x", i), -lim, lim)}
			if p == "tr" {
				m[i] = append(m[i], float64(i%2))
			} else {
				m[i] = append(m[i], float64(vk.Choose(fmt.Sprint(p, "y", i), 2)))
			}
			codes[i] = vk.Choose(fmt.Sprint(p, "k", i), 2)
		}
		return vg.Floats(m, []string{"u", "v"}, codes)
	}
	g := mk("tr", 3)
	root := InferID3Tree(g.Inst, new(InformationGainRuleGenerator))
	vPruneCheck(root, mk("te", 2), root.Prune)
}

// vSame reports whether two trees have the same nodes.
func vSameTree(a, b *DecisionTreeNode) bool {
	if a.Type != b.Type || a.Class != b.Class || len(a.ClassDist) != len(b.ClassDist) || len(a.Children) != len(b.Children) {
		return false
	}
	for k, v := range a.ClassDist {
		if b.ClassDist[k] != v {
			return false
		}
	}
	if len(a.Children) > 0 && !(a.SplitRule.SplitAttr.Equals(b.SplitRule.SplitAttr) && a.SplitRule.SplitVal == b.SplitRule.SplitVal) {
		return false
	}
	for k, c := range a.Children {
		if b.Children[k] == nil || !vSameTree(c, b.Children[k]) {
			return false
		}
	}
	return true
}

// VH_C26_fitprune: a tree with a share of rows to prune by is grown from the other rows and pruned by these: it is the tree some split of the rows gives.
// bounds: 3 rows of a 2-valued attribute and a 2-valued class (first row p/u), any cells, every draw of the split which trains on a row
// outside: draws which leave no training row
// time: 60 200
func VH_C26_fitprune() {
	vk.Opt("merge", 0)
	g := vCats(3, 2, 2)
	vk.Assume(vCode(g, 0, 0) == 0 && vCode(g, 0, 1) == 0)
	for r := 0; r < 3; r++ {
		for c := 0; c < 2; c++ {
			vk.Conc(vCode(g, r, c))
		}
	}
	orig := base.NewDenseCopy(g.Inst)
	t := NewID3DecisionTree(0.4)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	total := 0
	for _, v := range t.Root.ClassDist {
		total += v
	}
	found := false
	for _, p := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		if found {
			break
		}
		train := base.NewInstancesViewFromVisible(orig, p[:total], orig.AllAttributes())
		test := base.NewInstancesViewFromVisible(orig, p[total:], orig.AllAttributes())
		w := InferID3Tree(train, new(InformationGainRuleGenerator))
		w.Prune(test)
		found = vSameTree(w, t.Root)
	}
	vk.Assert(found, "the tree comes from some of the rows, pruned by the others")
}
