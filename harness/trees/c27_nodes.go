package trees

import (
	"fmt"
	"math"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vWalk checks the node split from the given rows: loss gives the impurity of rows, leaf says whether an answer suits them.
type vCart struct {
	m        [][]float64
	loss     func(rows []int) float64
	leaf     func(rows []int, left bool, node interface{}) bool
	maxDepth int
}

func (v *vCart) sides(rows []int, c int, t float64) (l, r []int) {
	for _, i := range rows {
		if v.m[i][c] < t {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	return
}

// after is the impurity left by a split.
func (v *vCart) after(l, r []int) float64 {
	n := float64(len(l) + len(r))
	return v.loss(l)*float64(len(l))/n + v.loss(r)*float64(len(r))/n
}

// best is the least impurity any split leaves (infinite if nothing can be split).
func (v *vCart) best(rows []int) float64 {
	b := math.Inf(1)
	for c := range v.m[0] {
		for _, i := range rows {
			l, r := v.sides(rows, c, v.m[i][c])
			if len(l) > 0 {
				if a := v.after(l, r); a < b {
					b = a
				}
			}
		}
	}
	return b
}

const vEps = 1e-9

// stop checks that rows were rightly not split any more.
func (v *vCart) stop(rows []int, depth int) {
	if v.maxDepth != -1 && depth >= v.maxDepth {
		return
	}
	vk.Assert(!(v.best(rows) < v.loss(rows)-vEps), "rows which can still be split to advantage are, unless the tree is deep enough")
}

func (v *vCart) split(rows []int, c int, t float64, depth int) (l, r []int) {
	vk.Assert(c >= 0 && c < len(v.m[0]), "the feature exists")
	vk.Assert(v.maxDepth == -1 || depth <= v.maxDepth, "the tree is no deeper than allowed")
	l, r = v.sides(rows, c, t)
	vk.Assert(len(l) > 0 && len(r) > 0, "the split separates rows")
	a := v.after(l, r)
	vk.Assert(a < v.loss(rows)+vEps, "the split lowers the impurity")
	vk.Assert(a < v.best(rows)+vEps, "no split lowers it more")
	return
}

func (v *vCart) classifier(n *classifierNode, rows []int, depth int) {
	if depth == 1 && !n.isNodeNeeded {
		v.stop(rows, 0)
		vk.Assert(v.leaf(rows, true, n) && v.leaf(rows, false, n), "a tree without a split answers for all rows")
		return
	}
	l, r := v.split(rows, int(n.Feature), n.Threshold, depth)
	if n.Left != nil {
		v.classifier(n.Left, l, depth+1)
	} else {
		v.stop(l, depth)
		vk.Assert(v.leaf(l, true, n), "a leaf answers for its rows")
	}
	if n.Right != nil {
		v.classifier(n.Right, r, depth+1)
	} else {
		v.stop(r, depth)
		vk.Assert(v.leaf(r, false, n), "a leaf answers for its rows")
	}
}

func (v *vCart) regressor(n *regressorNode, rows []int, depth int) {
	if depth == 1 && !n.isNodeNeeded {
		v.stop(rows, 0)
		vk.Assert(v.leaf(rows, true, n) && v.leaf(rows, false, n), "a tree without a split answers for all rows")
		return
	}
	l, r := v.split(rows, int(n.Feature), n.Threshold, depth)
	if n.Left != nil {
		v.regressor(n.Left, l, depth+1)
	} else {
		v.stop(l, depth)
		vk.Assert(v.leaf(l, true, n), "a leaf answers for its rows")
	}
	if n.Right != nil {
		v.regressor(n.Right, r, depth+1)
	} else {
		v.stop(r, depth)
		vk.Assert(v.leaf(r, false, n), "a leaf answers for its rows")
	}
}

// vDepth chooses the maximum depth: none, 1, 0 or 2 (only the first if so told).
func vDepth(few bool) int {
	return []int{-1, 1, 0, 2}[vk.Choose("depth", vk.IteInt(few && !vk.Thorough(), 1, 4))]
}

// VH_C27_nodes: every split of a classifier is one which lowers the impurity most, leaves answer with a most frequent label of their rows, and splitting ends only when nothing is gained or the tree is deep enough.
// bounds: 2..4 rows of one feature with any integers in [-9,9] or 2..3 rows (thorough 4) of two, labels {0,1,2} resp. {1,2}, maximum depth 0..2 or none, Gini and entropy (with 4 rows, quick: no maximum, Gini)
// time: 60 300
func VH_C27_nodes() {
	vk.Opt("merge", 0)
	f := 1 + vk.Choose("features", 2)
	n := 2 + vk.Choose("rows", 4-f+vk.B2I(vk.Thorough() && f == 2))
	m, rows := vFeatures(n, f, 9)
	labels := []int64{0, 1, 2}
	if f == 2 {
		labels = labels[1:]
	}
	y, yf := make([]int64, n), make([]float64, n)
	for i := range y {
		y[i] = labels[vk.Choose(fmt.Sprint("y", i), vk.IteInt(i < 1, 2, len(labels)))]
		yf[i] = float64(y[i])
	}
	kind := vk.Choose("criterion", vk.IteInt(n == 4 && !vk.Thorough(), 1, 2))
	depth := vDepth(n == 4)
	v := &vCart{m: m, maxDepth: depth}
	count := func(rows []int) map[int]int {
		c := map[int]int{}
		for _, i := range rows {
			c[int(y[i])]++
		}
		return c
	}
	v.loss = func(rows []int) float64 {
		if kind == 0 {
			return vGini(count(rows))
		}
		return vEntropy(count(rows))
	}
	v.leaf = func(rows []int, left bool, node interface{}) bool {
		n := node.(*classifierNode)
		c, ans := count(rows), n.LeftLabel
		if !left {
			ans = n.RightLabel
		}
		for _, k := range c {
			if k > c[int(ans)] {
				return false
			}
		}
		return true
	}
	t := NewDecisionTreeClassifier([]string{"gini", "entropy"}[kind], int64(depth), labels)
	vk.Assert(t.Fit(vNums(m, yf).Inst) == nil, "a tree is fitted")
	v.classifier(t.RootNode, rows, 1)
	if depth >= 0 && !vk.Thorough() {
		return
	}
	// A query takes the branches its values name.
	q, _ := vFeatures(1, f, 10)
	node, want := t.RootNode, int64(0)
	for node != nil {
		if q[0][node.Feature] < node.Threshold {
			want, node = node.LeftLabel, node.Left
		} else {
			want, node = node.RightLabel, node.Right
		}
	}
	got := t.Predict(vNums(q, []float64{0}).Inst)
	vk.Assert(len(got) == 1 && got[0] == want, "a query takes the branches its values name")
}

// VH_C27_means: every split of a regressor is one which lowers the error most and leaves answer with the mean of their rows.
// bounds: 2..4 rows of one feature with integers in [-5,5] or 2..3 rows of two, the second one 0 or 1 (with 4 rows, quick: targets 0 and 1, no maximum depth, squared error), targets among 0, 1, 3 (thorough also -2; with two features fewer), maximum depth 0..2 or none, mean squared and absolute error
// time: 60 300
func VH_C27_means() {
	vk.Opt("merge", 0)
	f := 1 + vk.Choose("features", 2)
	n := 2 + vk.Choose("rows", 2+vk.B2I(f == 1))
	few := n == 4 && !vk.Thorough()
	m, rows := vFeatures(n, f, 5)
	y := make([]float64, n)
	for i := range y {
		y[i] = float64([]int{0, 1, 3, -2}[vk.Choose(fmt.Sprint("y", i), vk.IteInt(few, 2, 4-f+vk.B2I(vk.Thorough())))])
	}
	kind := vk.Choose("criterion", vk.IteInt(few, 1, 2))
	depth := vDepth(few)
	v := &vCart{m: m, maxDepth: depth}
	mean := func(rows []int) float64 {
		s := 0.0
		for _, i := range rows {
			s += y[i]
		}
		return s / float64(len(rows))
	}
	v.loss = func(rows []int) float64 {
		s, a := 0.0, mean(rows)
		for _, i := range rows {
			if kind == 0 {
				s += (y[i] - a) * (y[i] - a)
			} else {
				s += math.Abs(y[i] - a)
			}
		}
		return s / float64(len(rows))
	}
	v.leaf = func(rows []int, left bool, node interface{}) bool {
		n := node.(*regressorNode)
		if left {
			return math.Abs(n.LeftPred-mean(rows)) < vEps
		}
		return math.Abs(n.RightPred-mean(rows)) < vEps
	}
	t := NewDecisionTreeRegressor([]string{"mse", "mae"}[kind], int64(depth))
	vk.Assert(t.Fit(vNums(m, y).Inst) == nil, "a tree is fitted")
	v.regressor(t.RootNode, rows, 1)
	if depth >= 0 && !vk.Thorough() {
		return
	}
	q, _ := vFeatures(1, f, 6)
	node, want := t.RootNode, 0.0
	for node != nil {
		if q[0][node.Feature] < node.Threshold {
			want, node = node.LeftPred, node.Left
		} else {
			want, node = node.RightPred, node.Right
		}
	}
	got := t.Predict(vNums(q, []float64{0}).Inst)
	vk.Assert(len(got) == 1 && got[0] == want, "a query takes the branches its values name")
}
