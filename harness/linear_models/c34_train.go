//go:build go1.21

package linear_models

import (
	"fmt"
	"unsafe"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C34_train: training tells liblinear the weights asked for: the ones given, those of the class distribution, or the same for both classes.
// bounds: 1..3 rows of one numeric column, classes 0 and 1, three ways of weighting, any given weights in quarters from 1/4 to 2
// outside: liblinear's own training (a stand-in returns an empty model)
func VH_C34_train() {
	vk.Opt("merge", 0)
	n, kind := 1+vk.Choose("rows", 3), vk.Choose("kind", 3)
	m := make([][]float64, n)
	y := make([]float64, n)
	ones := 0
	for r := range y {
		m[r] = []float64{float64(r)}
		y[r] = vk.FInt(fmt.Sprint("y", r), 0, 1)
		if y[r] == 1 {
			ones++
		}
	}
	g := vLayout(m, y, 1, vk.Choose("layout", 3))
	s, err := NewLinearSVC("l2", "l2", true, 1, 0.1)
	vk.Assert(err == nil, "a classifier is made")
	want := []float64{1, 1}
	switch kind {
	case 1:
		s.Param.WeightClassesAutomatically = true
		for i, k := range []int{n - ones, ones} {
			if k > 0 {
				want[i] = 1 / float64(k)
			}
		}
	case 2:
		want = []float64{vk.FDyadic("w0", 1, 8, 2), vk.FDyadic("w1", 1, 8, 2)}
		s.Param.ClassWeights = want
		s.Param.WeightClassesAutomatically = vk.Choose("both", 2) == 1
	}
	vk.Assert(s.Fit(g.Inst) == nil, "a model is trained")
	vk.Assert(s.model != nil && s.model.c_model != nil, "there is a model")
	c := &s.param.c_param
	vk.Assert(int(c.nr_weight) == 2, "both classes are weighted")
	for i, w := range want {
		l := *(*_Ctype_int)(unsafe.Add(unsafe.Pointer(c.weight_label), i*4))
		v := *(*_Ctype_double)(unsafe.Add(unsafe.Pointer(c.weight), i*8))
		vk.Assert(int(l) == i && float64(v) == w, "a class has its weight")
	}
	lr, err := NewLogisticRegression("l1", 1, 0.1)
	vk.Assert(err == nil && lr.Fit(g.Inst) == nil && lr.model != nil, "logistic regression is trained")
}
