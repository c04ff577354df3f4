//go:build go1.21

package linear_models

import (
	"fmt"
	"unsafe"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vSVC makes a trained machine of the given weights.
func vSVC(name string, cols int) *LinearSVC {
	w := make([]_Ctype_double, cols)
	for c := range w {
		w[c] = _Ctype_double(vk.Choose(fmt.Sprint(name, "w", c), 3)*2 - 2 + c)
	}
	first := vk.Choose(name+"first", 2)
	labels := []_Ctype_int{_Ctype_int(first), _Ctype_int(1 - first)}
	m := &_Ctype_struct_model{nr_class: 2, nr_feature: _Ctype_int(cols), w: &w[0], label: &labels[0], bias: -1}
	m.param.solver_type = 1
	s := &LinearSVC{model: &Model{unsafe.Pointer(m)}, Param: &LinearSVCParams{SolverType: 1, C: 1.0 / 3, Eps: 1.0 / 7, WeightClassesAutomatically: first == 1, Dual: cols == 2}}
	if cols == 1 {
		s.Param.ClassWeights = []float64{1.0 / 3, 2}
	}
	return s
}

func vAlike(a, b *LinearSVC, g base.FixedDataGrid) {
	p, q := a.Param, b.Param
	vk.Assert(p.SolverType == q.SolverType && p.C == q.C && p.Eps == q.Eps && p.Dual == q.Dual && p.WeightClassesAutomatically == q.WeightClassesAutomatically && len(p.ClassWeights) == len(q.ClassWeights), "the parameters are the same")
	for i := range p.ClassWeights {
		vk.Assert(p.ClassWeights[i] == q.ClassWeights[i], "the class weights are the same")
	}
	r, err := a.Predict(g)
	s, err2 := b.Predict(g)
	vk.Assert(err == nil && err2 == nil, "rows are predicted")
	as := r.AllAttributes()
	vk.Assert(vg.GetF(r, as[0], 0) == vg.GetF(s, s.AllAttributes()[0], 0), "the answers are the same")
}
