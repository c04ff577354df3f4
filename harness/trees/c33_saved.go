package trees

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vMixed makes a grid of a float column, a categorical one and a class (column at) with any cells.
func vMixed(n, at int) *vg.Grid {
	as := []base.Attribute{vg.Attr(vg.F, "x"), vg.Attr(vg.C, "c", "p", "q"), vg.Attr(vg.C, "class", "u", "v")}
	cols := []int{0, 1, 2}
	if at == 0 {
		as = []base.Attribute{as[2], as[1], as[0]}
		cols = []int{2, 1, 0}
	}
	return vg.New(as, []int{at}, n, func(r, c int) []byte {
		if cols[c] == 0 {
			return vg.Float([]float64{0.5, -2, 1.0 / 3}[r])
		}
		return vg.Any(as[c], string(rune('a'+r))+string(rune('0'+cols[c])))
	})
}

// vAlike: two classifiers give the same answers about a grid, whatever its cells.
func vAlike(a, b base.Classifier, q *vg.Grid) {
	p, err := a.Predict(q.Inst)
	r, err2 := b.Predict(q.Inst)
	vk.Assert(err == nil && err2 == nil, "rows are predicted")
	_, n := q.Inst.Size()
	for i := 0; i < n; i++ {
		vk.Assert(base.GetClass(p, i) == base.GetClass(r, i), "the answers are the same")
	}
}

// VH_C33_tree: a tree loaded from the file it was saved to has the same nodes and answers alike, alone and as one of two models in a file.
// bounds: 1..3 rows of a numeric (fixed) and a 2-valued column and a 2-valued class (first or last) with any cells; information gain, gain ratio and Gini; every query of 1 row with a numeric value in [-3,3]
// time: 60 200
func VH_C33_tree() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	vk.Opt("maporder", 0)
	n := 1 + vk.Choose("rows", 3)
	at := 2 * vk.Choose("class", 2)
	g := vMixed(n, at)
	t, l := NewID3DecisionTreeFromRule(0, vRule(vk.Choose("rule", 1+2*vk.B2I(n == 2)))), NewID3DecisionTree(0)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	path := vk.TempPath("tree")
	if n == 3 || vk.Choose("together", 2) == 0 {
		vk.Assert(t.Save(path) == nil, "the tree is saved")
		vk.Assert(l.Load(path) == nil, "the tree is loaded")
	} else {
		o, ol := NewID3DecisionTree(0), NewRandomTree(1)
		vk.Assert(o.Fit(vMixed(2, at).Inst) == nil, "a tree is fitted")
		vk.Assert(vg.Together(path, []base.Classifier{t, o}, []base.Classifier{l, ol}) == nil, "trees are saved to and loaded from one file")
		vTrees(o.Root, ol.Root)
	}
	node := &DecisionTreeNode{}
	if n < 3 {
		path = vk.TempPath("node")
		vk.Assert(t.Root.Save(path) == nil && node.Load(path) == nil, "the nodes alone are saved and loaded")
		vTrees(t.Root, node)
		vk.Assert(node.ClassAttr.Equals(t.Root.ClassAttr), "the class is the same")
	}
	vTrees(t.Root, l.Root)
	vk.Assert(t.Root.ClassAttr.Equals(l.Root.ClassAttr), "the class is the same")
	q := vg.New(g.Attrs, []int{at}, 1, func(r, c int) []byte {
		if c == 2-at {
			return vg.Float(vk.FInt("qx", -3, 3))
		}
		return vg.Any(g.Attrs[c], "q")
	})
	vAlike(t, l, q)
}

// vTrees: two trees have the same nodes.
func vTrees(a, b *DecisionTreeNode) {
	vk.Assert(a.Type == b.Type && a.Class == b.Class && len(a.ClassDist) == len(b.ClassDist) && len(a.Children) == len(b.Children), "nodes are the same")
	for k, v := range a.ClassDist {
		vk.Assert(b.ClassDist[k] == v, "nodes have the same classes")
	}
	if a.SplitRule != nil && a.SplitRule.SplitAttr != nil {
		vk.Assert(b.SplitRule.SplitAttr.Equals(a.SplitRule.SplitAttr) && a.SplitRule.SplitVal == b.SplitRule.SplitVal, "nodes split the same way")
	}
	for k, c := range a.Children {
		vk.Assert(b.Children[k] != nil, "branches have the same values")
		vTrees(c, b.Children[k])
	}
}
