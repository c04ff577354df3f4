package meta

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C31_vote: every row gets the class most models vote for.
// bounds: 1..3 models (thorough 4), 1..2 rows (1 for the greatest number of models), 3 classes, any votes; class column first or last; 1..3 processors
// time: 60 300
func VH_C31_vote() {
	vk.Opt("merge", 0)
	k, rows := 1+vk.Choose("models", 3+vk.B2I(vk.Thorough())), 1+vk.Choose("rows", 2)
	if k == 4 || k == 3 && !vk.Thorough() {
		rows = 1
	}
	vk.Opt("ncpu", 1+vk.Choose("cpus", 3))
	cats := []string{"u", "v", "w"}
	ans := make([][]int, k)
	for i := range ans {
		for r := 0; r < rows; r++ {
			ans[i] = append(ans[i], vk.Int(fmt.Sprint("vote", i, r), 0, 2))
		}
	}
	b, ms := vBag(k, ans, 0)
	g := vGrid(1, vk.Choose("class", 2), rows, cats, make([]int, rows))
	b.Fit(g.Inst)
	p, err := b.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	_, n := p.Size()
	vk.Assert(n == rows, "every row gets an answer")
	for i := range ms {
		vk.Assert(ms[i].fits == 1 && ms[i].asks == 1 && ms[i].fitRows == rows && ms[i].askRows == rows, "every model is fitted and asked once, for all rows")
	}
	for r := 0; r < rows; r++ {
		got := base.GetClass(p, r)
		cnt := make([]int, 3)
		for i := range ans {
			cnt[vk.Conc(ans[i][r])]++
		}
		for c, name := range cats {
			if name == got {
				vk.Assert(cnt[c] >= cnt[0] && cnt[c] >= cnt[1] && cnt[c] >= cnt[2], "the answer has most votes")
			}
		}
		vk.Assert(got == "u" || got == "v" || got == "w", "the answer is a class")
	}
}

// VH_C31_error: an error of any model is returned.
// bounds: 1..3 models, any of them failing
func VH_C31_error() {
	k := 1 + vk.Choose("models", 3)
	ans := make([][]int, k)
	for i := range ans {
		ans[i] = []int{0, 1}
	}
	b, ms := vBag(k, ans, 0)
	any := false
	for i := range ms {
		ms[i].fail = vk.Bool(fmt.Sprint("fail", i))
		any = vk.Or(any, ms[i].fail)
	}
	g := vGrid(1, 1, 2, []string{"u", "v"}, []int{0, 1})
	b.Fit(g.Inst)
	_, err := b.Predict(g.Inst)
	vk.Assert((err != nil) == any, "predicting fails when a model fails")
}

// VH_C31_features: every model is trained on as many different features as asked for (or all there are), the class and rows of the data, whole; it is asked about the same columns.
// bounds: 2..3 features, 1..4 asked for or no selection, 1..2 models, 2 rows, class column first or last, every draw of rows and of features in which none comes twice before all came once
// time: 60 300
func VH_C31_features() {
	vk.Opt("merge", 0)
	vk.Opt("freshdraws", 1)
	f, k := 2+vk.Choose("features", 2), 1+vk.Choose("models", 2)
	ask := vk.Choose("ask", 5)
	at := vk.Choose("class", 2) * f
	rows := 2
	ans := [][]int{{0, 0}, {1, 1}}
	b, ms := vBag(k, ans, ask)
	g := vGrid(f, at, rows, []string{"u", "v"}, []int{0, 1})
	b.Fit(g.Inst)
	_, err := b.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	want := ask
	if ask == 0 || ask > f {
		want = f
	}
	for _, m := range ms {
		vk.Assert(m.fitRows == rows, "a model is trained on as many rows as there are")
		vk.Assert(len(m.fitAttrs) == want+1 && vHas(m.fitAttrs, g.Attrs[at]) == 1, "a model is trained on as many features as asked for and the class")
		vk.Assert(len(m.askAttrs) == want+1, "a model is asked about as many columns as it was trained with")
		for i, a := range m.fitAttrs {
			vk.Assert(vHas(m.fitAttrs, a) == 1, "no feature is used twice")
			vk.Assert(vHas(g.Attrs, a) == 1, "features are those of the data")
			vk.Assert(m.askAttrs[i].Equals(a), "a model is asked about the columns it was trained with, in the same order")
		}
		for r := 0; r < rows; r++ {
			ok := false
			for src := 0; src < rows; src++ {
				same := true
				for i, a := range m.fitAttrs {
					for c, x := range g.Attrs {
						if x.Equals(a) {
							same = vk.And(same, vk.BytesEq(m.fitCells[i][r], g.Vals[src][c]))
						}
					}
				}
				ok = vk.Or(ok, same)
			}
			vk.Assert(ok, "a row a model is trained on is a row of the data")
		}
	}
}

// VH_C31_schedules: the answer is the same whichever order the predictions come in.
// bounds: 3 models, 1 row, 2 classes, any votes, 2 processors, every order of the workers at their synchronisation points
// time: 40 200
func VH_C31_schedules() {
	vk.Opt("merge", 0)
	vk.Opt("sched", 1)
	ans := make([][]int, 3)
	for i := range ans {
		ans[i] = []int{vk.Int(fmt.Sprint("vote", i), 0, 1)}
	}
	b, _ := vBag(3, ans, 0)
	g := vGrid(1, 1, 1, []string{"u", "v"}, []int{0})
	b.Fit(g.Inst)
	p, err := b.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	sum := ans[0][0] + ans[1][0] + ans[2][0]
	vk.Assert((base.GetClass(p, 0) == "v") == (sum >= 2), "the answer has most votes")
}

// VH_C31_any: some draws lead to each feature being used, and each pair of them.
// bounds: 3 features of which 1..2 are asked for, 1 row, every draw of features in which none comes twice before all came once
func VH_C31_any() {
	vk.Opt("merge", 0)
	vk.Opt("freshdraws", 1)
	const f, rows = 3, 1
	ask := 1 + vk.Choose("ask", 2)
	b, ms := vBag(1, [][]int{{0, 0, 0}}, ask)
	as := []base.Attribute{}
	for c := 0; c < f; c++ {
		as = append(as, base.NewFloatAttribute(fmt.Sprint("f", c)))
	}
	as = append(as, vg.Attr(vg.C, "class", "u", "v"))
	g := vg.New(as, []int{f}, rows, func(r, c int) []byte {
		if c == f {
			return vg.Cat(0)
		}
		return vg.Float(float64(r))
	})
	b.Fit(g.Inst)
	uses := func(c int) bool { return vHas(ms[0].fitAttrs, as[c]) > 0 }
	for c := 0; c < f; c++ {
		vk.Possible(uses(c), fmt.Sprint("feature ", c, " is among ", ask))
		for k := 0; k < c && ask == 2; k++ {
			vk.Possible(uses(c) && uses(k), fmt.Sprint("features ", k, " and ", c, " are used"))
		}
	}
}

// VH_C31_anyrow: some draws lead to each row being one a model is trained on, once or more, or not.
// bounds: 3 rows, every draw of rows
func VH_C31_anyrow() {
	vk.Opt("merge", 0)
	const rows = 3
	b, ms := vBag(1, [][]int{{0, 0, 0}}, 0)
	as := []base.Attribute{base.NewFloatAttribute("f"), vg.Attr(vg.C, "class", "u", "v")}
	g := vg.New(as, []int{1}, rows, func(r, c int) []byte {
		if c == 1 {
			return vg.Cat(0)
		}
		return vg.Float(float64(r))
	})
	b.Fit(g.Inst)
	for i := range ms[0].fitAttrs {
		if !ms[0].fitAttrs[i].Equals(as[1]) {
			for r := 0; r < rows; r++ {
				n := 0
				for _, x := range ms[0].fitCells[i] {
					n += vk.B2I(vk.BytesEq(x, vg.Float(float64(r))))
				}
				vk.Possible(n == 0, fmt.Sprint("row ", r, " is left out"))
				vk.Possible(n > 1, fmt.Sprint("row ", r, " is used twice"))
			}
			break
		}
	}
}

// VH_C31_race: no data of a model is read or written by two of its goroutines at once without an order between them.
// bounds: 2 models, 2 features of which 1 or all are used, 1 row, 1..2 processors, fitted and asked; workers interrupted at any one (thorough two) of the places where they take a lock; 3 models, twice, in one order of the workers
// time: 40 200
func VH_C31_race() {
	vk.Opt("merge", 0)
	vk.Opt("race", 1)
	vk.Opt("freshdraws", 1)
	k, times := 2, 1
	if vk.Choose("order", 2) == 1 {
		vk.Opt("sched", 3)
		vk.Opt("preempt", 1+vk.B2I(vk.Thorough()))
	} else {
		k, times = 3, 2
	}
	vk.Opt("ncpu", 1+vk.Choose("cpus", 2))
	ans := make([][]int, k)
	for i := range ans {
		ans[i] = []int{i % 2}
	}
	b, _ := vBag(k, ans, vk.Choose("ask", 2))
	g := vGrid(2, 2, 1, []string{"u", "v"}, []int{0})
	for i := 0; i < times; i++ {
		b.Fit(g.Inst)
		_, err := b.Predict(g.Inst)
		vk.Assert(err == nil, "rows are predicted")
	}
}

// VH_C31_many: many models, rows and classes: every model is fitted and asked, and every row gets a class most of them vote for.
// bounds: 17 models, 33 rows, 12 classes; votes of two models for the first, a middle or the last class on the first or the last row; 1 or 16 processors; any first draw, the others fixed
// time: 60 300
func VH_C31_many() {
	vk.Opt("merge", 0)
	vk.Opt("somedraws", 1)
	const k, rows, nc = 17, 33, 12
	vk.Opt("ncpu", []int{1, 16}[vk.Choose("cpus", 2)])
	row := []int{0, rows - 1}[vk.Choose("row", 2)]
	var cats []string
	for i := 0; i < nc; i++ {
		cats = append(cats, fmt.Sprint("k", i))
	}
	ans := make([][]int, k)
	for i := range ans {
		for r := 0; r < rows; r++ {
			v := (i*i + r) % nc
			if r == row && (i == 0 || i == k-1) {
				v = []int{0, 5, nc - 1}[vk.Choose(fmt.Sprint("vote", i), 3)]
			}
			ans[i] = append(ans[i], v)
		}
	}
	b, ms := vBag(k, ans, 0)
	g := vGrid(2, 1, rows, cats, make([]int, rows))
	b.Fit(g.Inst)
	p, err := b.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	_, n := p.Size()
	vk.Assert(n == rows, "every row gets an answer")
	for i := range ms {
		vk.Assert(ms[i].fits == 1 && ms[i].asks == 1 && ms[i].fitRows == rows && ms[i].askRows == rows, "every model is fitted and asked once, for all rows")
	}
	for r := 0; r < rows; r++ {
		cnt := map[string]int{}
		for i := range ans {
			cnt[cats[ans[i][r]]]++
		}
		got := base.GetClass(p, r)
		for _, c := range cats {
			vk.Assert(cnt[got] >= cnt[c], "the answer has most votes")
		}
	}
}
