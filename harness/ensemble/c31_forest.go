package ensemble

import (
	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

func vSplits(n *trees.DecisionTreeNode, seen map[string]bool) {
	if n == nil || n.Children == nil {
		return
	}
	if n.SplitRule != nil && n.SplitRule.SplitAttr != nil {
		seen[n.SplitRule.SplitAttr.GetName()] = true
	}
	for _, c := range n.Children {
		vSplits(c, seen)
	}
}

// VH_C31_forest: a random forest grows as many trees as asked for, each on as many features as asked for, and answers with a class most of its trees vote for; more features than there are, are refused.
// bounds: 1..2 trees (thorough 3), 1..3 of 2 features asked for (with 3 trees: 1), 2 rows of two 2-valued columns and a 2-valued class first or last with any cells (with several trees: a fixed first column and first row), every draw of rows and features in which none comes twice before all came once; any query
// time: 60 300
func VH_C31_forest() {
	vk.Opt("merge", 0)
	vk.Opt("freshdraws", 1)
	vk.Opt("ncpu", 1)
	size := 1 + vk.Choose("trees", 2+vk.B2I(vk.Thorough()))
	k := 1
	if size < 3 {
		k += vk.Choose("features", 3)
	}
	at := vk.Choose("class", 2) * 2
	var as []base.Attribute
	for _, n := range []string{"x", "y", "z"} {
		as = append(as, vg.Attr(vg.C, n, "p", "q"))
	}
	g := vg.New(as, []int{at}, 2, func(r, c int) []byte {
		if size > 1 && (c == 1 || r == 0) {
			return vg.Cat(1 - r)
		}
		return vg.Any(as[c], string(rune('a'+r))+string(rune('0'+c)))
	})
	f := NewRandomForest(size, k)
	err := f.Fit(g.Inst)
	if k > 2 {
		vk.Assert(err != nil, "more features than there are, are refused")
		return
	}
	vk.Assert(err == nil, "the forest is grown")
	vk.Assert(len(f.Model.Models) == size, "there are as many trees as asked for")
	q := vg.New(as, []int{at}, 1, func(r, c int) []byte { return vg.Any(as[c], "q"+string(rune('0'+c))) })
	votes := map[string]int{}
	for _, m := range f.Model.Models {
		t := m.(*trees.ID3DecisionTree)
		seen := map[string]bool{}
		vSplits(t.Root, seen)
		vk.Assert(len(seen) <= k && !seen[as[at].GetName()], "a tree uses its features only")
		p, err := t.Predict(q.Inst)
		vk.Assert(err == nil, "a tree answers")
		votes[base.GetClass(p, 0)]++
	}
	p, err := f.Predict(q.Inst)
	vk.Assert(err == nil, "rows are predicted")
	got := base.GetClass(p, 0)
	for _, n := range votes {
		vk.Assert(votes[got] >= n, "the answer has most votes")
	}
}
