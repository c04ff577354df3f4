package trees

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C27_classify: with no limit of depth, a classifier of one feature with distinct values repeats the labels it was trained with, answers a query like a neighbouring row, and its accuracy is the share of right answers.
// bounds: 1..3 rows (thorough 4), any integers in [-20,20], labels 0..2 in any order of the label list, any query in [-21,21], Gini and entropy
// time: 40 200
func VH_C27_classify() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("rows", 3+vk.B2I(vk.Thorough()))
	m, y := make([][]float64, n), make([]float64, n)
	for i := range m {
		m[i] = []float64{vk.FInt(fmt.Sprint("x", i), -20, 20)}
		for j := 0; j < i; j++ {
			vk.Assume(m[j][0] != m[i][0])
		}
		y[i] = float64(vk.Choose(fmt.Sprint("y", i), 3))
	}
	labels := [][]int64{{0, 1, 2}, {2, 0, 1}}[vk.Choose("labels", vk.IteInt(n < 3, 2, 1))]
	t := NewDecisionTreeClassifier([]string{"gini", "Entropy"}[vk.Choose("criterion", 2)], -1, labels)
	g := vNums(m, y)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	got := t.Predict(g.Inst)
	vk.Assert(len(got) == n, "every row gets an answer")
	for i := range m {
		vk.Assert(float64(got[i]) == y[i], "rows of the training data keep their labels")
	}
	acc, err := t.Evaluate(g.Inst)
	vk.Assert(err == nil && acc == 1, "so the accuracy is 1")
	q := vk.FInt("q", -21, 21)
	w := float64(vk.Choose("w", 3))
	qs := vNums([][]float64{{q}}, []float64{w})
	ans := t.Predict(qs.Inst)
	vk.Assert(len(ans) == 1, "one query, one answer")
	ok := false
	for i := range m {
		between := false // some row lies between the query and this one
		for j := range m {
			if (m[j][0] > m[i][0] && m[j][0] <= q) || (m[j][0] < m[i][0] && m[j][0] >= q) {
				between = true
			}
		}
		if !between && float64(ans[0]) == y[i] {
			ok = true
		}
	}
	vk.Assert(ok, "the answer is the label of a row next to the query")
	acc, err = t.Evaluate(qs.Inst)
	want := 0.0
	if float64(ans[0]) == w {
		want = 1
	}
	vk.Assert(err == nil && acc == want, "the accuracy is the share of right answers")
}

// VH_C27_accuracy: evaluating counts right answers over all rows given.
// bounds: 2 training rows, 1..4 rows to evaluate with any labels 0..1
func VH_C27_accuracy() {
	t := NewDecisionTreeClassifier("gini", -1, []int64{0, 1})
	g := vNums([][]float64{{1}, {5}}, []float64{0, 1})
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	n := 1 + vk.Choose("rows", 4)
	m, y, right := make([][]float64, n), make([]float64, n), 0
	for i := range m {
		x := vk.Choose(fmt.Sprint("x", i), 2)
		k := vk.Choose(fmt.Sprint("y", i), 2)
		m[i], y[i] = []float64{float64(1 + 4*x)}, float64(k)
		if x == k {
			right++
		}
	}
	acc, err := t.Evaluate(vNums(m, y).Inst)
	vk.Assert(err == nil && acc == float64(right)/float64(n), "the accuracy is the share of right answers")
}

// VH_C27_regress: with no limit of depth, a regressor of one feature with distinct values repeats its training targets; limited to depth 0 it answers their mean.
// bounds: 1..3 rows (thorough 4), any integers in [-10,10] as feature, in [-2,2] as targets, depth 0 or unlimited, squared and absolute error
// time: 40 200
func VH_C27_regress() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("rows", 3+vk.B2I(vk.Thorough()))
	m, y, sum := make([][]float64, n), make([]float64, n), 0.0
	for i := range m {
		m[i] = []float64{vk.FInt(fmt.Sprint("x", i), -10, 10)}
		for j := 0; j < i; j++ {
			vk.Assume(m[j][0] != m[i][0])
		}
		y[i] = float64(vk.Conc(vk.Int(fmt.Sprint("y", i), -2, 2)))
		sum += y[i]
	}
	depth := int64(-1)
	if vk.Choose("stump", 2) == 1 {
		depth = 0
	}
	t := NewDecisionTreeRegressor([]string{"mse", "MSE"}[vk.Choose("criterion", 2)], depth)
	g := vNums(m, y)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	got := t.Predict(g.Inst)
	vk.Assert(len(got) == n, "every row gets an answer")
	for i := range m {
		if depth == 0 {
			vk.Assert(got[i] == sum/float64(n), "without splits the answer is the mean")
		} else {
			vk.Assert(got[i] == y[i], "rows of the training data keep their targets")
		}
	}
}

// VH_C27_refuse: data without exactly one numeric class attribute, and unknown criteria, are refused.
// bounds: 0..2 class attributes, numeric or categorical, 2 rows
func VH_C27_refuse() {
	k := vk.Choose("classes", 3)
	cat := vk.Choose("cat", 2) == 1
	kind := vg.F
	if cat {
		kind = vg.C
	}
	as := []base.Attribute{vg.Attr(vg.F, "x"), vg.Attr(kind, "y"), vg.Attr(kind, "z")}
	var cl []int
	for i := 0; i < k; i++ {
		cl = append(cl, 1+i)
	}
	g := vg.New(as, cl, 2, func(r, c int) []byte {
		if c > 0 && cat {
			return vg.Cat(r)
		}
		return vg.Float(float64(r))
	})
	ok := k == 1 && !cat
	vk.Assert((NewDecisionTreeClassifier("gini", -1, []int64{0, 1}).Fit(g.Inst) == nil) == ok, "a classifier needs one numeric class attribute")
	vk.Assert((NewDecisionTreeRegressor("mse", -1).Fit(g.Inst) == nil) == ok, "a regressor needs one numeric class attribute")
	vk.Assert(NewDecisionTreeClassifier("abc", -1, []int64{0, 1}).Fit(g.Inst) != nil, "an unknown criterion is refused")
}

// VH_C27_many: the same for many rows.
// bounds: 24 rows of two columns (scattered, of different values in the first) and labels 0..2 by their place, two of which are any labels; classifiers and regressors without limit, and the regressor's mean at depth 0
func VH_C27_many() {
	vk.Opt("merge", 0)
	const n = 24
	m, y := make([][]float64, n), make([]float64, n)
	at := vk.Choose("at", 4) * 7
	for i := range m {
		x := i * 7 % n
		m[i] = []float64{float64(2*x - 20), float64(i % 3)}
		y[i] = float64(x / 9)
		if i == at || i == at+2 {
			y[i] = float64(vk.Choose(fmt.Sprint("y", i), 3))
		}
	}
	g := vNums(m, y)
	which := vk.Choose("which", 4)
	if which < 2 {
		t := NewDecisionTreeClassifier([]string{"gini", "entropy"}[which], -1, []int64{0, 1, 2})
		vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
		got := t.Predict(g.Inst)
		vk.Assert(len(got) == n, "every row gets an answer")
		for i := range m {
			vk.Assert(float64(got[i]) == y[i], "rows of the training data keep their labels")
		}
		acc, err := t.Evaluate(g.Inst)
		vk.Assert(err == nil && acc == 1, "so the accuracy is 1")
		return
	}
	depth := int64(which - 3) // -1: no limit
	t := NewDecisionTreeRegressor("mse", depth)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	got := t.Predict(g.Inst)
	sum := 0.0
	for _, v := range y {
		sum += v
	}
	for i := range m {
		if depth == 0 {
			vk.Assert(got[i] == sum/n, "without splits the answer is the mean")
		} else {
			vk.Assert(got[i] == y[i], "rows of the training data keep their targets")
		}
	}
}

// VH_C27_extreme: the same for features so close to each other that hardly anything lies between them, or so large that their sums overflow.
// bounds: 2..3 rows with distinct multiples of 2^-1074 (the smallest float) from -1 to 3, or distinct values among the infinities, the largest float, 1.5*2^1023 (either sign) and 0, labels 0..2, classifier (Gini) and regressor (squared error)
// time: 40 200
func VH_C27_extreme() {
	vk.Opt("merge", 0)
	n := 2 + vk.Choose("rows", 2)
	table := vTiny
	if vk.Choose("large", 2) == 1 {
		table = vLarge
	}
	m, y := make([][]float64, n), make([]float64, n)
	for i := range m {
		m[i] = []float64{vOf(fmt.Sprint("x", i), table)}
		for j := 0; j < i; j++ {
			vk.Assume(m[j][0] != m[i][0])
		}
		y[i] = float64(vk.Choose(fmt.Sprint("y", i), i+1))
	}
	g := vNums(m, y)
	if vk.Choose("regress", 2) == 1 {
		t := NewDecisionTreeRegressor("mse", -1)
		vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
		got := t.Predict(g.Inst)
		for i := range m {
			vk.Assert(got[i] == y[i], "rows of the training data keep their targets")
		}
		return
	}
	t := NewDecisionTreeClassifier("gini", -1, []int64{0, 1, 2})
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	got := t.Predict(g.Inst)
	for i := range m {
		vk.Assert(float64(got[i]) == y[i], "rows of the training data keep their labels")
	}
}
