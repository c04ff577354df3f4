package meta

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C32_train: one model is made and trained for every class: on all rows, features unchanged, and 1 exactly where the row has the class.
// bounds: 2..4 classes, 1..3 rows (with 3 classes; otherwise 2) of any classes, 1..2 features, class column first or last
// time: 60 300
func VH_C32_train() {
	vk.Opt("merge", 0)
	k := 2 + vk.Choose("classes", 3)
	rows := vk.IteInt(k == 3, 1+vk.Choose("rows", 3), 2)
	f := 1 + vk.Choose("features", 2)
	at := vk.Choose("class", 2) * f
	cats := []string{"u", "v", "w", "x"}[:k]
	class := make([]int, rows)
	for r := range class {
		class[r] = vk.Int(fmt.Sprint("k", r), 0, k-1)
	}
	g := vGrid(f, at, rows, cats, class)
	m, ms, names := vOva(nil)
	m.Fit(g.Inst)
	vk.Assert(len(*ms) == k, "one model for every class")
	for i, c := range *ms {
		vk.Assert((*names)[i] == cats[i], "models are made for the classes in order")
		vk.Assert(c.fits == 1 && c.fitRows == rows && len(c.fitAttrs) == f+1, "a model is trained once, on all rows and columns")
		for j, a := range c.fitAttrs {
			if a.GetName() == "class" {
				_, isF := a.(*base.FloatAttribute)
				vk.Assert(isF, "the class becomes a number")
				for r := range class {
					v := base.UnpackBytesToFloat(c.fitCells[j][r])
					vk.Assert((v == 1 && class[r] == i) || (v == 0 && class[r] != i), "the class is 1 where the row has it, otherwise 0")
				}
				continue
			}
			for d, x := range g.Attrs {
				if x.Equals(a) {
					for r := range class {
						vk.Assert(vk.BytesEq(c.fitCells[j][r], g.Vals[r][d]), "features are unchanged")
					}
				}
			}
			vk.Assert(vHas(g.Attrs, a) == 1, "features are those of the data")
		}
		vk.Assert(vHas(c.fitAttrs, g.Attrs[vk.IteInt(at == 0, 1, 0)]) == 1, "features are kept")
	}
}

// VH_C32_predict: every row gets the class whose model is most confident.
// bounds: 2..3 classes (thorough 4), 1..2 rows, any confidences in eighths from 0 to 1 of which one is greatest
// time: 60 300
func VH_C32_predict() {
	vk.Opt("merge", 0)
	k, rows := 2+vk.Choose("classes", 2+vk.B2I(vk.Thorough())), 1+vk.Choose("rows", 2)
	cats := []string{"u", "v", "w", "x"}[:k]
	conf := make([][]float64, k)
	for i := range conf {
		for r := 0; r < rows; r++ {
			conf[i] = append(conf[i], vk.FDyadic(fmt.Sprint("c", i, r), 0, 8, 3))
		}
	}
	m, ms, _ := vOva(func(i, r int) float64 { return conf[i][r] })
	g := vGrid(1, vk.Choose("class", 2), rows, cats, make([]int, rows))
	m.Fit(g.Inst)
	p, err := m.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	_, n := p.Size()
	vk.Assert(n == rows, "every row gets an answer")
	for _, c := range *ms {
		vk.Assert(c.asks == 1 && c.askRows == rows, "every model is asked once about all rows")
	}
	for r := 0; r < rows; r++ {
		got := base.GetClass(p, r)
		for i, name := range cats {
			if name == got {
				for j := range cats {
					vk.Assert(conf[j][r] <= conf[i][r], "no model is more confident than that of the answer")
				}
			}
		}
		vk.Assert(vHasName(cats, got), "the answer is a class")
	}
}

func vHasName(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// VH_C32_error: an error of any model is returned.
// bounds: 3 classes, any of their models failing
func VH_C32_error() {
	m, ms, _ := vOva(func(i, r int) float64 { return 1 })
	g := vGrid(1, 1, 2, []string{"u", "v", "w"}, []int{0, 1})
	m.Fit(g.Inst)
	any := false
	for i, c := range *ms {
		c.fail = vk.Bool(fmt.Sprint("fail", i))
		any = vk.Or(any, c.fail)
	}
	_, err := m.Predict(g.Inst)
	vk.Assert((err != nil) == any, "predicting fails when a model fails")
}

// VH_C32_save: a model which was saved and loaded has the same classes, models and training structure, and predicts alike.
// bounds: 2..3 classes, 1 row, any confidences in quarters; class column first or last
// time: 60 200
func VH_C32_save() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	k := 2 + vk.Choose("classes", 2)
	cats := []string{"u", "v", "w"}[:k]
	conf := make([]float64, k)
	for i := range conf {
		conf[i] = vk.FDyadic(fmt.Sprint("c", i), 0, 4, 2)
	}
	f := func(i, r int) float64 { return conf[i%k] }
	m, _, _ := vOva(f)
	g := vGrid(2, vk.Choose("class", 2)*2, 1, cats, []int{0})
	m.Fit(g.Inst)
	path := vk.TempPath("ova")
	vk.Assert(m.Save(path) == nil, "the model is saved")
	l, ls, names := vOva(f)
	vk.Assert(l.Load(path) == nil, "the model is loaded")
	vk.Assert(len(l.classifiers) == k, "all models are there")
	for i, c := range l.classifiers {
		vk.Assert(c.(*vModel).loaded == uint64(i), "every model is loaded from its own part of the file")
	}
	for i := range cats {
		vk.Assert((*names)[len(*names)-k+i] == cats[i], "models are made for the classes in order")
	}
	a, err := m.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	b, err := l.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted after loading")
	vk.Assert(base.GetClass(a, 0) == base.GetClass(b, 0), "the answers are the same")
	_ = ls
}

// VH_C32_many: many classes and rows.
// bounds: 13 classes, 30 rows, any confidences in eighths of two models for the first, a middle or the last row (of which none equals another's)
// time: 60 300
func VH_C32_many() {
	vk.Opt("merge", 0)
	const k, rows = 13, 30
	row := []int{0, 14, rows - 1}[vk.Choose("row", 3)]
	var cats []string
	class := make([]int, rows)
	for i := 0; i < k; i++ {
		cats = append(cats, fmt.Sprint("k", i))
	}
	for r := range class {
		class[r] = r * r % k
	}
	one := vk.Choose("model", k-1)
	conf := make([][]float64, k)
	for i := range conf {
		for r := 0; r < rows; r++ {
			c := float64((i*5+r)%k)/16 + 1.0/32
			if r == row && (i == one || i == k-1) {
				c = vk.FDyadic(fmt.Sprint("c", i), 0, 8, 3)
			}
			conf[i] = append(conf[i], c)
		}
	}
	vk.Assume(conf[one][row] != conf[k-1][row])
	m, ms, names := vOva(func(i, r int) float64 { return conf[i][r] })
	g := vGrid(2, 1, rows, cats, class)
	m.Fit(g.Inst)
	vk.Assert(len(*ms) == k, "one model for every class")
	for i, c := range *ms {
		vk.Assert((*names)[i] == cats[i] && c.fits == 1 && c.fitRows == rows, "models are made for the classes in order and trained on all rows")
		for j, a := range c.fitAttrs {
			if a.GetName() == "class" {
				for r := range class {
					vk.Assert(base.UnpackBytesToFloat(c.fitCells[j][r]) == float64(vk.B2I(class[r] == i)), "the class is 1 where the row has it, otherwise 0")
				}
			}
		}
	}
	p, err := m.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	for r := 0; r < rows; r++ {
		got := base.GetClass(p, r)
		for i, name := range cats {
			if name == got {
				for j := range cats {
					vk.Assert(conf[j][r] <= conf[i][r], "no model is more confident than that of the answer")
				}
			}
		}
		vk.Assert(vHasName(cats, got), "the answer is a class")
	}
}
