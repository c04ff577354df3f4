package trees

import (
	"fmt"
	"math"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vIsoX is one of a few values (thresholds between symbolic ones are beyond the solver).
func vIsoX(name string) float64 { return []float64{-3, 0, 4}[vk.Choose(name, 3)] }

// VH_C28_scores: scores lie between 0 and 1, equal rows get equal scores, and rows that no split tells apart get the score of an average row.
// bounds: 2 (thorough 3) rows of one feature and a class column, values -3, 0, 4, 1..2 trees of maximum depth 0..2 over samples of 2..3 rows (quick: two trees only with samples of 2), every draw of rows, columns and thresholds (these on a grid of 16 steps)
// outside: draws in which a column without different values is drawn over and over (at most 12 draws)
// time: 60 300
func VH_C28_scores() {
	vk.Opt("merge", 0)
	vk.Opt("maxdraws", 12)
	n := 2 + vk.Choose("rows", 1+vk.B2I(vk.Thorough()))
	m, y, same := make([][]float64, n), make([]float64, n), true
	for i := range m {
		m[i] = []float64{vIsoX(fmt.Sprint("x", i))}
		y[i] = float64(vk.Choose(fmt.Sprint("y", i), 2))
		if m[i][0] != m[0][0] || y[i] != y[0] {
			same = false
		}
	}
	trees, depth, sub := 1+vk.Choose("trees", 2), vk.Choose("depth", 3), 2
	if trees == 1 || vk.Thorough() {
		sub += vk.Choose("sample", 2)
	}
	f := NewIsolationForest(trees, depth, sub)
	g := vNums(m, y)
	f.Fit(g.Inst)
	s := f.Predict(g.Inst)
	vk.Assert(len(s) == n, "every row gets a score")
	for i := range s {
		vk.Assert(s[i] > 0 && s[i] < 1, "scores lie between 0 and 1")
		for j := 0; j < i; j++ {
			if m[i][0] == m[j][0] && y[i] == y[j] {
				vk.Assert(s[i] == s[j], "equal rows get equal scores")
			}
		}
		if same || depth == 0 {
			vk.Assert(math.Abs(s[i]-0.5) < 1e-9, "without a split, all rows are average")
		}
	}
}

// VH_C28_anyrow: some draws sample each row, split on each column with different values, and put the threshold near either end.
// bounds: 3..4 rows of two columns and a class column, samples of 3, depth 1, every draw of rows and columns, thresholds on a grid of 16 steps
// outside: draws in which a column without different values is drawn over and over (at most 12 draws)
func VH_C28_anyrow() {
	vk.Opt("merge", 0)
	vk.Opt("maxdraws", 12)
	fit := func(m [][]float64, sub int, qs ...[]float64) []float64 {
		f := NewIsolationForest(1, 1, sub)
		f.Fit(vNums(m, make([]float64, len(m))).Inst)
		return f.Predict(vNums(qs, make([]float64, len(qs))).Inst)
	}
	switch vk.Choose("what", 3) {
	case 0:
		k := vk.Choose("row", 4)
		m := [][]float64{{0, 0}, {0, 0}, {0, 0}, {0, 0}}
		m[k][0] = 4
		s := fit(m, 3, []float64{0, 0}, []float64{4, 0})
		vk.Possible(s[0] != s[1], fmt.Sprint("row ", k, " is sampled along with the others"))
	case 1:
		s := fit([][]float64{{0, 0}, {4, 4}, {4, 4}}, 3, []float64{0, 0}, []float64{4, 4}, []float64{0, 4})
		vk.Possible(s[0] != s[1] && s[2] == s[0], "the first column is split on")
		vk.Possible(s[0] != s[1] && s[2] == s[1], "the second column is split on")
	default:
		s := fit([][]float64{{0, 0}, {4, 0}, {4, 0}}, 3, []float64{0, 0}, []float64{4, 0}, []float64{1, 0}, []float64{3, 0})
		vk.Possible(s[0] != s[1] && s[2] == s[1], "the threshold is near the least value")
		vk.Possible(s[0] != s[1] && s[3] == s[0], "the threshold is near the greatest value")
	}
}
