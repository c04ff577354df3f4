package trees

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vReadTree checks the printed lines of a node against the node and returns the lines after it.
func vReadTree(lines []string, level int, n *DecisionTreeNode) []string {
	vk.Assert(len(lines) > 0, "every node has its line")
	tabs := strings.Repeat("\t", level)
	vk.Assert(strings.HasPrefix(lines[0], tabs) && !strings.HasPrefix(lines[0], tabs+"\t"), "lines are indented by level")
	l := lines[0][level:]
	lines = lines[1:]
	if n.Children == nil {
		vk.Assert(l == "Leaf("+n.Class+")", "a leaf shows its class")
		return lines
	}
	vk.Assert(strings.HasPrefix(l, "Rule(") && strings.Contains(l, n.SplitRule.SplitAttr.GetName()), "a node shows the attribute it splits on")
	if _, ok := n.SplitRule.SplitAttr.(*base.FloatAttribute); ok {
		vk.Assert(strings.Contains(l, fmt.Sprintf("<= %f", n.SplitRule.SplitVal)), "a numeric split shows its value")
	}
	seen := map[string]bool{}
	for range n.Children {
		vk.Assert(len(lines) > 0 && strings.HasPrefix(lines[0], tabs+"\t"), "branches are indented by level")
		k := lines[0][level+1:]
		vk.Assert(n.Children[k] != nil && !seen[k], "a branch shows its value, once")
		seen[k] = true
		lines = vReadTree(lines[1:], level+1, n.Children[k])
	}
	return lines
}

// VH_C40_tree: a printed decision tree has every node, rule, branch and leaf of the tree, in place.
// bounds: trees of 1..4 rows of a numeric (fixed) and a 2-valued column and a 2-valued class with any cells; each as ID3, and the text as part of a random tree's
// time: 40 120
func VH_C40_tree() {
	vk.Opt("merge", 0)
	vk.Opt("maporder", 0)
	as := []base.Attribute{vg.Attr(vg.F, "x"), vg.Attr(vg.C, "c", "p", "q"), vg.Attr(vg.C, "class", "u", "v")}
	g := vg.New(as, []int{2}, 1+vk.Choose("rows", 4), func(r, c int) []byte {
		if c == 0 {
			return vg.Float([]float64{0.5, -2, 0.5, 7}[r])
		}
		return vg.Any(as[c], fmt.Sprint("v", r, "_", c))
	})
	t := NewID3DecisionTree(0)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	text := t.Root.String()
	vk.Assert(len(vReadTree(strings.Split(text, "\n"), 0, t.Root)) == 0, "nothing else is printed")
	vk.Assert(strings.Contains(t.String(), text), "an ID3 tree prints its nodes")
	r := NewRandomTree(1)
	r.Root = t.Root
	vk.Assert(strings.Contains(r.String(), text), "a random tree prints its nodes")
}

// vFollow follows the printed lines of a CART tree for a row and gives the prediction they lead to.
func vFollow(lines []string, x []float64) string {
	in := 0
	for {
		vk.Assert(len(lines) > 0, "the text has an answer")
		var f int
		var t float64
		fs := strings.Fields(lines[0])
		vk.Assert(len(fs) == 4 && fs[0] == "Feature" && fs[2] == "<", "a node shows feature and threshold")
		f, err := strconv.Atoi(fs[1])
		t, err2 := strconv.ParseFloat(fs[3], 64)
		vk.Assert(err == nil && err2 == nil && f >= 0 && f < len(x), "a node shows feature and threshold")
		side := "False"
		if x[f] < t {
			side = "True"
		}
		at := -1
		for i, l := range lines {
			if i > 0 && l == strings.Repeat(" ", in)+"---> "+side && at < 0 {
				at = i
			}
		}
		vk.Assert(at > 0 && at+1 < len(lines), "both sides of a node are printed")
		lines = lines[at+1:]
		in += 2
		if fs = strings.Fields(lines[0]); fs[0] == "PREDICT" {
			return fs[1]
		}
	}
}

// VH_C40_cart: following the printed text of a CART tree leads to what the tree predicts.
// bounds: classifier and regressor trees of 1..3 nodes (all shapes of depth up to 2 and a chain of 3), 2 features, thresholds and labels from 3 values; any query of integers / 16 in [-2,2]
func VH_C40_cart() {
	vk.Opt("merge", 0)
	shape := vk.Choose("shape", 6)
	th := []float64{0.125, -1.5, 1}
	var cn [3]classifierNode
	var rn [3]regressorNode
	for i := range cn {
		f := int64(vk.Choose(fmt.Sprint("feature", i), 2))
		cn[i] = classifierNode{Feature: f, Threshold: th[i], LeftLabel: int64(i * 7), RightLabel: int64(-i - 1)}
		rn[i] = regressorNode{Feature: f, Threshold: th[i], LeftPred: float64(i) + 0.25, RightPred: -float64(i) - 0.5}
	}
	link := func(p, c int, left bool) {
		if left {
			cn[p].Left, rn[p].Left = &cn[c], &rn[c]
		} else {
			cn[p].Right, rn[p].Right = &cn[c], &rn[c]
		}
	}
	switch shape {
	case 1:
		link(0, 1, true)
	case 2:
		link(0, 1, false)
	case 3:
		link(0, 1, true)
		link(0, 2, false)
	case 4:
		link(0, 1, true)
		link(1, 2, false)
	case 5:
		link(0, 1, false)
		link(1, 2, true)
	}
	x := []float64{vk.FDyadic("x", -32, 32, 4), vk.FDyadic("y", -32, 32, 4)}
	c := &CARTDecisionTreeClassifier{RootNode: &cn[0]}
	got := vFollow(strings.Split(c.String(), "\n"), x)
	vk.Assert(got == strconv.FormatInt(classifierPredictSingle(cn[0], x), 10), "the text of a classifier leads to its prediction")
	r := &CARTDecisionTreeRegressor{RootNode: &rn[0]}
	got = vFollow(strings.Split(r.String(), "\n"), x)
	vk.Assert(got == fmt.Sprintf("%.3f", regressorPredictSingle(rn[0], x)), "the text of a regressor leads to its prediction")
}
