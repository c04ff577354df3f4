package ensemble

import (
	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C33_multi: a multi-class linear SVM loaded from the file it was saved to, alone or as one of two, has its parameters and weights, whatever it was before, and trains alike.
// bounds: 2..3 classes, weights for none or all of them from 3 sets, 2 sets of parameters; loaded into a model of no or other weights
// outside: the trained weights (liblinear's training and files are stand-ins; C33's linear_models checks cover a machine's weights)
// time: 40 120
func VH_C33_multi() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	k := 2 + vk.Choose("classes", 2)
	names := []string{"u", "v", "w"}[:k]
	var weights map[string]float64
	if s := vk.Choose("weights", 3); s > 0 {
		weights = map[string]float64{}
		for i, n := range names {
			weights[n] = float64(i+s) / 3
		}
	}
	p := vk.Choose("parameters", 2)
	m := NewMultiLinearSVC([]string{"l2", "l1"}[p], "l2", p == 1, 1.0/3, []float64{0.25, 1e-4}[p], weights)
	g := vg.Floats([][]float64{{1, 0}, {0, 1}, {3, 3}}[:k], names, []int{0, 1, 2}[:k])
	vk.Assert(m.Fit(g.Inst) == nil, "the model is trained")
	var before map[string]float64
	if vk.Choose("before", 2) == 1 {
		before = map[string]float64{"v": 9, "other": 8}
	}
	l := NewMultiLinearSVC("l2", "l2", false, 7, 7, before)
	path := vk.TempPath("multi")
	if vk.Choose("together", 2) == 0 {
		vk.Assert(m.Save(path) == nil, "the model is saved")
		vk.Assert(l.Load(path) == nil, "the model is loaded")
	} else {
		o, ol := NewMultiLinearSVC("l2", "l2", false, 5, 5, map[string]float64{"u": 5}), NewMultiLinearSVC("l1", "l2", true, 7, 7, nil)
		vk.Assert(o.Fit(g.Inst) == nil, "the model is trained")
		w, err := base.CreateSerializedClassifierStub(path, m.GetMetadata())
		vk.Assert(err == nil && m.SaveWithPrefix(w, "models/0") == nil && o.SaveWithPrefix(w, "models/1") == nil && w.Close() == nil, "models are saved to one file")
		r, err := base.ReadSerializedClassifierStub(path)
		vk.Assert(err == nil && l.LoadWithPrefix(r, "models/0") == nil && ol.LoadWithPrefix(r, "models/1") == nil, "models are loaded from one file")
		r.Close()
		vSameMachines(o, ol, names)
	}
	vSameMachines(m, l, append(names, "other"))
}

// vSameMachines: two models train machines of the same parameters for every class.
func vSameMachines(a, b *MultiLinearSVC, classes []string) {
	vk.Assert(len(a.weights) == len(b.weights), "as many weights")
	for n, w := range a.weights {
		vk.Assert(b.weights[n] == w, "the weights are the same")
	}
	for _, n := range classes {
		x, ok := a.m.NewClassifierFunction(n).(*linear_models.LinearSVC)
		y, ok2 := b.m.NewClassifierFunction(n).(*linear_models.LinearSVC)
		vk.Assert(ok && ok2, "machines are made")
		p, q := x.Param, y.Param
		vk.Assert(p.SolverType == q.SolverType && p.C == q.C && p.Eps == q.Eps && p.Dual == q.Dual && p.WeightClassesAutomatically == q.WeightClassesAutomatically, "the parameters are the same")
		vk.Assert(len(p.ClassWeights) == len(q.ClassWeights), "the class weights are the same")
		for i, w := range p.ClassWeights {
			vk.Assert(q.ClassWeights[i] == w, "the class weights are the same")
		}
	}
}
