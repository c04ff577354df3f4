//go:build go1.21

package linear_models

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C33_svc: a linear SVM loaded from the file it was saved to has its parameters and answers alike, alone and as one of two models in a file.
// bounds: 1..2 numeric columns, weights in [-2,3], labels 0 and 1 either way round, two sets of parameters; any query with integers in [-4,4]
// outside: liblinear's own reading and writing (a stand-in keeps the model beside a file that names it)
// time: 60 200
func VH_C33_svc() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	cols := 1 + vk.Choose("cols", 2)
	a := vSVC("a", cols)
	g := vLayout(vRows("x", 1, cols, 4), []float64{0}, cols, 0)
	path := vk.TempPath("svc")
	l := &LinearSVC{}
	if vk.Choose("together", 2) == 0 {
		vk.Assert(a.Save(path) == nil, "the model is saved")
		vk.Assert(l.Load(path) == nil, "the model is loaded")
	} else {
		b, k := &LinearSVC{model: a.model, Param: a.Param}, &LinearSVC{}
		a = vSVC("b", cols)
		vk.Assert(vg.Together(path, []base.Classifier{b, a}, []base.Classifier{k, l}) == nil, "models are saved to and loaded from one file")
		vAlike(b, k, g.Inst)
	}
	vAlike(a, l, g.Inst)
}
