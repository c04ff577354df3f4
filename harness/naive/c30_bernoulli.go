package naive

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vFix makes the cells of the current path concrete.
func vFix(bits [][]int, class []int) {
	for r := range bits {
		for c := range bits[r] {
			bits[r][c] = vk.Conc(bits[r][c])
		}
		class[r] = vk.Conc(class[r])
	}
}

// VH_C30_predict: a query gets a class for which the product of its prior and the smoothed frequencies of the query's features is greatest.
// bounds: 1..4 training rows of 1..2 binary features (thorough 3), 2..3 classes anywhere among the columns, any values; any query rows
// time: 60 300
func VH_C30_predict() {
	vk.Opt("merge", 0)
	n, f := 1+vk.Choose("rows", 4), 1+vk.Choose("features", 2+vk.B2I(vk.Thorough()))
	cats := []string{"u", "v", "w"}
	at := vk.Choose("class", 2) * f
	bits, class := make([][]int, n), make([]int, n)
	for r := range bits {
		for c := 0; c < f; c++ {
			bits[r] = append(bits[r], vk.Int(fmt.Sprint("b", r, c), 0, 1))
		}
		class[r] = vk.Int(fmt.Sprint("k", r), 0, vk.IteInt(r < 2, r, 2))
	}
	g := vBits(bits, class, cats, at)
	nb := NewBernoulliNBClassifier()
	vk.Assert(nb.Fit(g.Inst) == nil, "a model is fitted")
	var qs [][]int
	for i := 0; i < 1<<uint(f); i++ {
		var q []int
		for c := 0; c < f; c++ {
			q = append(q, i>>uint(c)&1)
		}
		qs = append(qs, q)
	}
	p, err := nb.Predict(vBits(qs, make([]int, len(qs)), cats, at).Inst)
	vk.Assert(err == nil, "queries are answered")
	vFix(bits, class)
	_, rows := p.Size()
	vk.Assert(rows == len(qs), "every query is answered")
	for i, q := range qs {
		got, best := base.GetClass(p, i), 0.0
		mine := -1.0
		for k, name := range cats {
			s := vScore(bits, class, k, q)
			best = math.Max(best, s)
			if name == got {
				mine = s
			}
		}
		vk.Assert(mine > 0 && mine > best*(1-1e-9), "the answer is a likeliest class")
	}
}

// VH_C30_again: a model fitted again forgets what it was fitted with before.
// bounds: 2 rows of 1 feature and 2 classes before, 2 after, any values
func VH_C30_again() {
	vk.Opt("merge", 0)
	mk := func(s string) ([][]int, []int) {
		bits, class := make([][]int, 2), make([]int, 2)
		for r := range bits {
			bits[r] = []int{vk.Int(fmt.Sprint(s, "b", r), 0, 1)}
			class[r] = vk.Int(fmt.Sprint(s, "k", r), 0, 1)
		}
		return bits, class
	}
	nb := NewBernoulliNBClassifier()
	b0, c0 := mk("old")
	vk.Assert(nb.Fit(vBits(b0, c0, []string{"x", "y"}, 1).Inst) == nil, "a model is fitted")
	b1, c1 := mk("new")
	g := vBits(b1, c1, []string{"u", "v"}, 1)
	vk.Assert(nb.Fit(g.Inst) == nil, "a model is fitted again")
	fresh := NewBernoulliNBClassifier()
	vk.Assert(fresh.Fit(g.Inst) == nil, "a model is fitted")
	vFix(b1, c1)
	for q := 0; q < 2; q++ {
		a := nb.PredictOne([][]byte{{byte(q)}})
		b := fresh.PredictOne([][]byte{{byte(q)}})
		sa, sb := 0.0, 0.0
		for k, name := range []string{"u", "v"} {
			s := vScore(b1, c1, k, []int{q})
			if name == a {
				sa = s
			}
			if name == b {
				sb = s
			}
		}
		vk.Assert(math.Abs(sa-sb) < 1e-9, "the second fit alone decides")
	}
}

// VH_C30_presence: any non-zero byte of a feature counts as presence.
// bounds: any bytes of one feature in a query
func VH_C30_presence() {
	nb := NewBernoulliNBClassifier()
	g := vBits([][]int{{1}, {1}, {0}, {0}}, []int{0, 0, 1, 1}, []string{"u", "v"}, 1)
	vk.Assert(nb.Fit(g.Inst) == nil, "a model is fitted")
	b := vk.U8("byte")
	got := nb.PredictOne([][]byte{{b}})
	if b > 0 {
		vk.Assert(got == "u", "non-zero bytes mean presence")
	} else {
		vk.Assert(got == "v", "zero means absence")
	}
}

// VH_C30_refuse: features that are not binary and data without exactly one class attribute are refused; queries need as many features as were trained with.
// bounds: float or categorical columns among 2; 0..2 class attributes; queries of 0..3 features
func VH_C30_refuse() {
	kind := []int{vg.B, vg.F, vg.C}[vk.Choose("kind", 3)]
	nc := vk.Choose("classes", 3)
	as := []base.Attribute{vg.Attr(vg.B, "b"), vg.Attr(kind, "x"), vg.Attr(vg.C, "k"), vg.Attr(vg.C, "l")}
	var cl []int
	for i := 0; i < nc; i++ {
		cl = append(cl, 2+i)
	}
	if nc < 2 {
		as = as[:2+nc]
	}
	g := vg.New(as, cl, 2, func(r, c int) []byte {
		switch {
		case c == 0 || c == 1 && kind == vg.B:
			return []byte{byte(r)}
		case c == 1 && kind == vg.F:
			return vg.Float(1)
		}
		return vg.Cat(r)
	})
	nb := NewBernoulliNBClassifier()
	ok := kind == vg.B && nc == 1
	vk.Assert((nb.Fit(g.Inst) == nil) == ok, "only binary features and one class attribute are accepted")
	k := vk.Choose("query", 4)
	q := make([][]byte, k)
	for i := range q {
		q[i] = []byte{1}
	}
	if ok {
		vk.Assert(vg.Panics(func() { nb.PredictOne(q) }) == (k != 2), "queries need as many features as the training data")
	}
}

// VH_C30_many: the same for many rows.
// bounds: 30 (thorough 120) training rows of 4 features and 5 classes, one of them any; any query row
// time: 60 300
func VH_C30_many() {
	vk.Opt("merge", 0)
	n, f := 30+90*vk.B2I(vk.Thorough()), 4
	cats := []string{"u", "v", "w", "x", "y"}
	at := vk.Choose("class", 2) * f
	bits, class := make([][]int, n), make([]int, n)
	for r := range bits {
		for c := 0; c < f; c++ {
			bits[r] = append(bits[r], []int{r % 2, r / 3 % 2, r * r % 3 % 2, r / 7 % 2}[c])
		}
		class[r] = (r + r*r/4) % 5
	}
	for c := 0; c < f; c++ {
		bits[n-1][c] = vk.Int(fmt.Sprint("b", c), 0, 1)
	}
	class[n-1] = vk.Int("k", 0, 4)
	nb := NewBernoulliNBClassifier()
	vk.Assert(nb.Fit(vBits(bits, class, cats, at).Inst) == nil, "a model is fitted")
	var qs [][]int
	for i := 0; i < 1<<uint(f); i++ {
		qs = append(qs, []int{i & 1, i >> 1 & 1, i >> 2 & 1, i >> 3})
	}
	p, err := nb.Predict(vBits(qs, make([]int, len(qs)), cats, at).Inst)
	vk.Assert(err == nil, "queries are answered")
	vFix(bits, class)
	for i, q := range qs {
		got, best := base.GetClass(p, i), 0.0
		mine := -1.0
		for k, name := range cats {
			s := vScore(bits, class, k, q)
			best = math.Max(best, s)
			if name == got {
				mine = s
			}
		}
		vk.Assert(mine > 0 && mine > best*(1-1e-9), "the answer is a likeliest class")
	}
}
