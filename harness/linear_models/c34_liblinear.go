//go:build go1.21

package linear_models

import (
	"fmt"
	"unsafe"

	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vNodes: a list of nodes holds exactly a row's entries that are not zero, in order, and ends with -1.
func vNodes(p *_Ctype_struct_feature_node, row []float64, what string) {
	at := uintptr(0)
	node := func() *_Ctype_struct_feature_node {
		return (*_Ctype_struct_feature_node)(unsafe.Add(unsafe.Pointer(p), at*unsafe.Sizeof(*p)))
	}
	for c, x := range row {
		if x != 0 {
			vk.Assert(node().index == _Ctype_int(c+1) && float64(node().value) == x, what+" lists every entry that is not zero under its column")
			at++
		}
	}
	vk.Assert(node().index == -1, what+" ends after the last entry")
}

// VH_C34_nodes: rows are handed to liblinear with every entry that is not zero under its column, and nothing else.
// bounds: 1..2 rows of 1..3 columns (thorough 3 rows of 2), any integers in [-4,4]
// time: 40 200
func VH_C34_nodes() {
	vk.Opt("merge", 0)
	shapes := [][2]int{{1, 1}, {1, 2}, {1, 3}, {2, 1}, {2, 2}, {3, 2}}
	s := shapes[vk.Choose("shape", 5+vk.B2I(vk.Thorough()))]
	m := vRows("x", s[0], s[1], 4)
	y := make([]float64, s[0])
	for r := range y {
		y[r] = vk.FInt(fmt.Sprint("y", r), 0, 1)
	}
	p := NewProblem(m, y, 0)
	vk.Assert(int(p.c_prob.l) == s[0], "a problem has as many rows as the data")
	vk.Assert(int(p.c_prob.n) >= s[1], "a problem has a weight for every column")
	for r := range m {
		x := *(**_Ctype_struct_feature_node)(unsafe.Add(unsafe.Pointer(p.c_prob.x), uintptr(r)*unsafe.Sizeof(uintptr(0))))
		vNodes(x, m[r], "a training row")
		vk.Assert(float64(*(*_Ctype_double)(unsafe.Add(unsafe.Pointer(p.c_prob.y), uintptr(r)*8))) == y[r], "a training row keeps its label")
		vNodes(convert_vector(m[r], 0), m[r], "a query row")
	}
}

// vLinear makes a liblinear model of two classes with the given weights; positive sums get label first.
func vLinear(w []float64, first, second int) *Model {
	cw := make([]_Ctype_double, len(w))
	for i, x := range w {
		cw[i] = _Ctype_double(x)
	}
	labels := []_Ctype_int{_Ctype_int(first), _Ctype_int(second)}
	m := &_Ctype_struct_model{nr_class: 2, nr_feature: _Ctype_int(len(w)), w: &cw[0], label: &labels[0], bias: -1}
	return &Model{unsafe.Pointer(m)}
}

// VH_C34_predict: linear classifiers answer every row with the label on its side of the hyperplane, whatever else the grid holds.
// bounds: 1..2 rows of 1..2 numeric columns with integers in [-4,4], weights in [-2,2], labels 0 and 1 either way round, class first, last or in the middle, with a categorical column; logistic regression and SVC
// time: 40 200
func VH_C34_predict() {
	vk.Opt("merge", 0)
	n, cols, layout := 1+vk.Choose("rows", 2), 1+vk.Choose("cols", 2), vk.Choose("layout", 3)
	m := vRows("x", n, cols, 4)
	g := vLayout(m, make([]float64, n), cols, layout)
	var w []float64
	for c := 0; c < cols; c++ {
		w = append(w, float64(vk.Choose(fmt.Sprint("w", c), 3)*2-2+c))
	}
	first := vk.Choose("first", 2)
	model := vLinear(w, first, 1-first)
	lr, svc := &LogisticRegression{model: model}, &LinearSVC{model: model}
	p, err := lr.Predict(g.Inst)
	if vk.Choose("model", 2) == 1 {
		p, err = svc.Predict(g.Inst)
	}
	vk.Assert(err == nil, "rows are predicted")
	_, rows := p.Size()
	vk.Assert(rows == n, "every row gets an answer")
	as := p.AllAttributes()
	vk.Assert(len(as) == 1 && as[0].GetName() == "y", "the answers are classes")
	for r := range m {
		s := 0.0
		for c, x := range m[r] {
			s += x * w[c]
		}
		want := vk.IteF(s > 0, float64(first), float64(1-first))
		vk.Assert(vg.GetF(p, as[0], r) == want, "a row gets the label on its side")
	}
}
