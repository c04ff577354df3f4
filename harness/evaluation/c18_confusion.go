package evaluation

import (
	"fmt"
	"math"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

var vNames = []string{"u", "v", "w"}

// vLabels is a grid of one categorical class column holding the given codes (order of categories given).
func vLabels(cats []string, codes []int) *base.DenseInstances {
	a := []base.Attribute{vg.Attr(vg.C, "class", cats...)}
	return vg.New(a, []int{0}, len(codes), func(r, c int) []byte { return vg.Cat(codes[r]) }).Inst
}

// VH_C18_matrix: the matrix counts every row once, under its true and its predicted class.
// bounds: 4 rows (thorough: 5), 3 classes, any labels; the prediction lists its categories in another order
func VH_C18_matrix() {
	n := 4
	if vk.Thorough() {
		n = 5
	}
	ref, gen := make([]int, n), make([]int, n)
	for i := range ref {
		ref[i] = vk.Int(fmt.Sprint("r", i), 0, 2)
		gen[i] = vk.Int(fmt.Sprint("g", i), 0, 2)
	}
	order := []string{"w", "u", "v"} // code k of the prediction means order[k]
	c, err := GetConfusionMatrix(vLabels(vNames, ref), vLabels(order, gen))
	vk.Assert(err == nil, "equal row counts are accepted")
	total := 0
	for i, a := range vNames {
		for j, b := range order {
			want := 0
			for k := range ref {
				want += vk.B2I(vk.And(ref[k] == i, gen[k] == j))
			}
			vk.Assert(c[a][b] == want, "rows counted under true and predicted class")
			total += c[a][b]
		}
	}
	vk.Assert(total == n, "every row counted")
	_, err = GetConfusionMatrix(vLabels(vNames, ref), vLabels(vNames, gen[1:]))
	vk.Assert(err != nil, "different row counts are refused")
	_, err = GetConfusionMatrix(vLabels(vNames, ref[1:]), vLabels(vNames, gen))
	vk.Assert(err != nil, "different row counts are refused the other way")
	vk.Cover("matrix")
}

// vCounts builds a confusion matrix of any counts; classes without reference rows may be missing.
func vCounts(hi int) (ConfusionMatrix, [3][3]int) {
	var m [3][3]int
	c := ConfusionMatrix{}
	refs := 1 + vk.Choose("refs", 3)
	for i := 0; i < refs; i++ {
		c[vNames[i]] = map[string]int{}
		for j := range vNames {
			m[i][j] = vk.Int(fmt.Sprintf("m%d%d", i, j), 0, hi)
			c[vNames[i]][vNames[j]] = m[i][j]
		}
	}
	return c, m
}

// VH_C18_counts: true/false positives/negatives of every class.
// bounds: 3 classes of which 1..3 occur in the reference, any counts in 0..1000
func VH_C18_counts() {
	c, m := vCounts(1000)
	for k, name := range vNames {
		tp, fp, fn, tn := m[k][k], 0, 0, 0
		for i := range m {
			if i == k {
				continue
			}
			fp += m[i][k]
			fn += m[k][i]
			for j := range m {
				if j != k {
					tn += m[i][j]
				}
			}
		}
		vk.Assert(GetTruePositives(name, c) == float64(tp), "true positives")
		vk.Assert(GetFalsePositives(name, c) == float64(fp), "false positives")
		vk.Assert(GetFalseNegatives(name, c) == float64(fn), "false negatives")
		vk.Assert(GetTrueNegatives(name, c) == float64(tn), "true negatives")
	}
	vk.Cover("counts")
}

func vNear(got, want float64) bool {
	if got == want {
		return true
	}
	return vk.And(got-want < 1e-9, want-got < 1e-9)
}

// VH_C18_ratios: accuracy, precision, recall and their micro averages.
// bounds: 3 classes of which 1..3 occur in the reference, counts in 0..3; classes that occur and are predicted
// outside: precision of a class never predicted and recall of a class that never occurs (0/0)
func VH_C18_ratios() {
	vk.Opt("merge", 0)
	c, m := vCounts(3)
	total, diag := 0, 0
	for i := range m {
		diag += m[i][i]
		for j := range m[i] {
			total += m[i][j]
		}
	}
	vk.Assume(total > 0)
	vk.Assert(vNear(GetAccuracy(c), float64(diag)/float64(total)), "accuracy is the fraction of correct rows")
	vk.Assert(vNear(GetMicroPrecision(c), float64(diag)/float64(total)), "micro precision counts every wrong prediction once")
	vk.Assert(vNear(GetMicroRecall(c), float64(diag)/float64(total)), "micro recall counts every missed row once")
	for k, name := range vNames {
		col, row := 0, 0
		for i := range m {
			col += m[i][k]
			row += m[k][i]
		}
		if col > 0 {
			vk.Assert(vNear(GetPrecision(name, c), float64(m[k][k])/float64(col)), "precision")
		}
		if row > 0 {
			vk.Assert(vNear(GetRecall(name, c), float64(m[k][k])/float64(row)), "recall")
		}
	}
	vk.Cover("ratios")
}

// VH_C18_f1: the F1 score is the harmonic mean of precision and recall.
// bounds: 2 classes, counts 0..12 (true positives at least 1), any map iteration order
func VH_C18_f1() {
	vk.Opt("maporder", 1)
	tp, fp, fn := vk.Int("tp", 1, 12), vk.Int("fp", 0, 12), vk.Int("fn", 0, 12)
	tn := vk.Choose("tn", 3)
	// keep the quotients on few values per path: the arithmetic is decided per pair
	if vk.Choose("sym", 2) == 0 {
		fp = vk.Choose("fpc", 13)
	} else {
		fn = vk.Choose("fnc", 13)
	}
	c := ConfusionMatrix{"u": {"u": tp, "v": fn}, "v": {"u": fp, "v": tn}}
	got := GetF1Score("u", c)
	want := float64(2*tp) / float64(2*tp+fp+fn)
	vk.Assert(vk.And(got-want < 1e-9, want-got < 1e-9), "F1 is 2TP/(2TP+FP+FN)")
	vk.Cover("f1")
}

// VH_C18_macro: macro averages are the means over the reference classes.
// bounds: 2 or 3 classes, counts 0..3 with every class occurring and predicted (chosen, not symbolic)
func VH_C18_macro() {
	n := 2
	if vk.Thorough() {
		n = 2 + vk.Choose("n", 2)
	}
	c := ConfusionMatrix{}
	var m [3][3]int
	for i := 0; i < n; i++ {
		c[vNames[i]] = map[string]int{}
		for j := 0; j < n; j++ {
			m[i][j] = vk.Choose(fmt.Sprintf("m%d%d", i, j), 4)
			if n == 3 && m[i][j] > 2 {
				vk.Assume(false)
			}
			c[vNames[i]][vNames[j]] = m[i][j]
		}
	}
	p, r := 0.0, 0.0
	for k := 0; k < n; k++ {
		col, row := 0, 0
		for i := 0; i < n; i++ {
			col += m[i][k]
			row += m[k][i]
		}
		vk.Assume(col > 0 && row > 0)
		p += float64(m[k][k]) / float64(col) / float64(n)
		r += float64(m[k][k]) / float64(row) / float64(n)
	}
	vk.Assert(math.Abs(GetMacroPrecision(c)-p) < 1e-9, "macro precision")
	vk.Assert(math.Abs(GetMacroRecall(c)-r) < 1e-9, "macro recall")
	vk.Cover("macro")
}

// VH_C18_text: the printed matrix and summary show every count.
// bounds: 2 reference classes, 3 predicted classes, two sets of counts
func VH_C18_text() {
	c := ConfusionMatrix{"u": {}, "v": {}}
	var m [2][3]int
	big := vk.Choose("big", 2)
	for i := 0; i < 2; i++ {
		for j := range vNames {
			if i == 1 && j == 0 {
				c["v"]["u"] = 7
				m[1][0] = 7
				continue
			}
			m[i][j] = i + 3*big + j
			c[vNames[i]][vNames[j]] = m[i][j]
		}
	}
	out := strings.Split(ShowConfusionMatrix(c), "\n")
	head := strings.Fields(out[0])[2:]
	vk.Assert(len(head) == 3, "a column per class")
	rows := map[string]bool{}
	for _, l := range out[2:] {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		i := strings.Index("uv", f[0])
		vk.Assert(i >= 0 && !rows[f[0]], "a row per reference class")
		rows[f[0]] = true
		for k, h := range head {
			j := strings.Index("uvw", h)
			vk.Assert(j >= 0 && f[1+k] == fmt.Sprint(m[i][j]), "the count stands in its row and column")
		}
	}
	vk.Assert(len(rows) == 2, "every reference class has a row")
	sum := GetSummary(c)
	for _, k := range []string{"u", "v"} {
		want := fmt.Sprintf("%.0f %.0f %.0f %.4f %.4f %.4f", GetTruePositives(k, c), GetFalsePositives(k, c), GetTrueNegatives(k, c), GetPrecision(k, c), GetRecall(k, c), GetF1Score(k, c))
		ok := false
		for _, l := range strings.Split(sum, "\n") {
			f := strings.Fields(l)
			ok = ok || len(f) > 0 && f[0] == k && strings.Join(f[1:], " ") == want
		}
		vk.Assert(ok, "the summary shows the class's figures")
	}
	vk.Cover("text")
}

// VH_C18_many: the matrix and its figures on long tables of many classes.
// bounds: 70 rows, 12 classes; one row of any true and any predicted class at the first, a middle or the last place
func VH_C18_many() {
	const n, nc = 70, 12
	var names, order []string
	for i := 0; i < nc; i++ {
		names = append(names, fmt.Sprint("c", i))
		order = append(order, fmt.Sprint("c", (i+5)%nc))
	}
	ref, gen := make([]int, n), make([]int, n)
	for i := range ref {
		ref[i] = i * 7 % nc
		gen[i] = (i*i + 3*i) % nc
	}
	at := []int{0, 33, n - 1}[vk.Choose("at", 3)]
	ref[at] = vk.Int("r", 0, nc-1)
	gen[at] = vk.Int("g", 0, nc-1)
	c, err := GetConfusionMatrix(vLabels(names, ref), vLabels(order, gen))
	vk.Assert(err == nil, "equal row counts are accepted")
	same := 0
	for i, a := range names {
		row, col := 0, 0
		for j, b := range order {
			want := 0
			for k := range ref {
				want += vk.B2I(vk.And(ref[k] == i, gen[k] == j))
			}
			vk.Assert(c[a][b] == want, "rows counted under true and predicted class")
			row += want
			if a == b {
				same += want
			}
		}
		for k := range gen {
			col += vk.B2I(order[gen[k]] == a)
		}
		tp := c[a][a]
		vk.Assert(GetTruePositives(a, c) == float64(tp), "true positives")
		vk.Assert(GetFalseNegatives(a, c) == float64(row-tp), "false negatives")
		vk.Assert(GetFalsePositives(a, c) == float64(col-tp), "false positives")
		vk.Assert(GetTrueNegatives(a, c) == float64(n-row-col+tp), "true negatives")
	}
	vk.Assert(vNear(GetAccuracy(c), float64(same)/n), "accuracy is the fraction of correct rows")
	vk.Cover("many")
}
