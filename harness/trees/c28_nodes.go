package trees

import (
	"fmt"
	"math"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

func vSame(m [][]float64) bool {
	for _, x := range m {
		for c := range x {
			if x[c] != m[0][c] {
				return false
			}
		}
	}
	return true
}

// vIso checks a tree against the rows it was built from and counts splits down to x: its path length.
func vIso(n *regressorNode, m [][]float64, depth, max int, x []float64) float64 {
	c := int(n.Feature)
	vk.Assert(depth <= max, "the tree is no deeper than allowed")
	vk.Assert(c >= 0 && c < len(m[0]), "the column exists")
	lo, hi := m[0][c], m[0][c]
	var l, r [][]float64
	for _, y := range m {
		lo, hi = math.Min(lo, y[c]), math.Max(hi, y[c])
		if y[c] <= n.Threshold {
			l = append(l, y)
		} else {
			r = append(r, y)
		}
	}
	vk.Assert(n.Threshold >= lo && n.Threshold <= hi, "the threshold lies between the values")
	vk.Assert(len(l) > 0 && len(r) > 0, "the split separates rows")
	vk.Assert(n.LeftPred == float64(len(l)) && n.RightPred == float64(len(r)), "the tree knows how many rows go where")
	side := func(k *regressorNode, rows [][]float64, go_ bool) float64 {
		if k == nil {
			vk.Assert(depth == max || len(rows) == 1 || vSame(rows), "rows that can be told apart are split unless the tree is deep enough")
			if len(rows) > 1 {
				return 1 + vAverage(len(rows))
			}
			return 1
		}
		return 1 + vIso(k, rows, depth+1, max, x)
	}
	a, b := side(n.Left, l, true), side(n.Right, r, false)
	if x[c] <= n.Threshold {
		return a
	}
	return b
}

// vAverage is the average path length of an unsuccessful search among n rows.
func vAverage(n int) float64 {
	return 2*(math.Log(float64(n-1))+0.5772156649) - 2*float64(n-1)/float64(n)
}

// VH_C28_tree: a tree splits its rows at thresholds between their values until they are single, equal or deep enough, and the path to any row is the number of splits plus the average length for the rows left.
// bounds: 1..3 rows (thorough 4) of two columns (-3, 0, 4, thorough 1, and 0, 1), maximum depth 0..3, any query (integers in [-5,5] and 0, 1), every draw of columns and thresholds (on a grid of 16 steps)
// time: 60 300
func VH_C28_tree() {
	vk.Opt("merge", 0)
	vk.Opt("maxdraws", 7)
	n := 1 + vk.Choose("rows", 3+vk.B2I(vk.Thorough()))
	var m [][]float64
	for i := 0; i < n; i++ {
		m = append(m, []float64{[]float64{-3, 0, 4, 1}[vk.Choose(fmt.Sprint("x", i), 3+vk.B2I(vk.Thorough()))], float64(vk.Choose(fmt.Sprint("z", i), 2))})
	}
	q := [][]float64{{vk.FInt("qx", -5, 5), float64(vk.Choose("qz", 2))}}
	max := vk.Choose("depth", 4)
	t := buildTree(m, regressorNode{}, 0, max)
	got := pathLength(t, q[0], 0)
	want := 0.0
	if max == 0 || n == 1 || vSame(m) {
		if n > 1 {
			want = vAverage(n)
		}
	} else {
		want = vIso(&t, m, 1, max, q[0])
	}
	vk.Assert(math.Abs(got-want) < 1e-9, "the path length is the number of splits plus the average for the rows left")
}

// VH_C28_threshold: a row goes left exactly if its value is not above the threshold, however close.
// bounds: a tree of one split at a multiple of 2^-1074 from -1 to 3 or at one of the infinities, the largest float, 1.5*2^1023 (either sign) and 0; any query among those; 1..3 rows on either side
func VH_C28_threshold() {
	table := vTiny
	if vk.Choose("large", 2) == 1 {
		table = vLarge
	}
	t := regressorNode{isNodeNeeded: true, Threshold: vOf("t", table), Feature: 0, LeftPred: float64(1 + vk.Choose("left", 3)), RightPred: float64(1 + vk.Choose("right", 3))}
	x := vOf("x", table)
	path := func(n float64) float64 {
		if n > 1 {
			return 1 + vAverage(int(n))
		}
		return 1
	}
	got := pathLength(t, []float64{x}, 0)
	want := path(t.RightPred)
	if x <= t.Threshold {
		want = path(t.LeftPred)
	}
	vk.Assert(math.Abs(got-want) < 1e-9, "the side follows from the threshold")
}

// VH_C28_score: a score is 2 to the minus average path length over the average for the sample size.
// bounds: 1..2 trees of samples of 2..3 (quick: two trees only with 2) of 2 rows with one column (-3, 0, 3 or 4, and 3) and a class, depth 1..2, every draw
// outside: more than 12 draws
// time: 40 200
func VH_C28_score() {
	vk.Opt("merge", 0)
	vk.Opt("maxdraws", 12)
	m := [][]float64{{[]float64{-3, 0, 3, 4}[vk.Choose("x", 4)]}, {3}}
	y := []float64{float64(vk.Choose("y", 2)), 1}
	k, sub := 1+vk.Choose("trees", 2), 2
	if k == 1 || vk.Thorough() {
		sub += vk.Choose("sample", 2)
	}
	f := NewIsolationForest(k, 1+vk.Choose("depth", 2), sub)
	g := vNums(m, y)
	f.Fit(g.Inst)
	vk.Assert(len(f.trees) == k, "the forest has its trees")
	got := f.Predict(g.Inst)
	for i := range m {
		e := 0.0
		for _, t := range f.trees {
			e += pathLength(t, []float64{m[i][0], y[i]}, 0)
		}
		want := math.Pow(2, -(e/float64(k))/vAverage(sub))
		vk.Assert(math.Abs(got[i]-want) < 1e-9, "scores follow from the path lengths")
	}
}

// VH_C28_equal: building ends, also when a sample's rows are all equal, from the start or after a split.
// bounds: 1..3 rows of two columns (-3, 4 and 0, 1), maximum depth 1..2, every draw (on a grid of 16 steps), at most 6 draws
func VH_C28_equal() {
	vk.Opt("merge", 0)
	vk.Opt("maxdraws", 6)
	n, max := 1+vk.Choose("rows", 3), 1+vk.Choose("depth", 2)
	var m [][]float64
	for i := 0; i < n; i++ {
		m = append(m, []float64{[]float64{-3, 4}[vk.Choose(fmt.Sprint("x", i), 2)], float64(vk.Choose(fmt.Sprint("z", i), 2))})
	}
	ends := fmt.Sprint("building a tree of ", m, " to depth ", max, " ends")
	vk.Possible(false, ends)
	t := buildTree(m, regressorNode{}, 0, max)
	vk.Possible(true, ends)
	vk.Assert(pathLength(t, m[0], 0) >= 0, "a row has a path")
}
