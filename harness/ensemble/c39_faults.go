package ensemble

import (
	"github.com/sjwhitworth/golearn/base"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vPredicts asks a model about rows; a 1-row answer is the class.
func vPredicts(m vFile, g base.FixedDataGrid) string {
	p, err := m.(interface {
		Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
	}).Predict(g)
	vk.Assert(err == nil && p != nil, "a loaded model predicts")
	return base.GetClass(p, 0)
}

func vFaults(cut bool) {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	vk.Opt("maporder", 0)
	vk.Opt("ncpu", 1)
	kind := vk.Choose("model", 7)
	m, g := vTrained(kind)
	path := vk.TempPath("model")
	if !cut {
		vk.FullDisk(path, func() error { return m.Save(path) })
		return
	}
	vPredicts(m, g.Inst)
	vk.Assert(m.Save(path) == nil, "the model is saved")
	l := vModel(kind)
	vk.CutFile(path, func(p string) error { return l.Load(p) }, func() {
		vk.Assert(vPredicts(l, g.Inst) == vPredicts(m, g.Inst), "a model loaded without an error answers alike")
	})
}

// VH_C39_save: a model which could not be written whole is reported.
// bounds: nearest neighbours, naive Bayes, ID3, random forests, one-vs-all of nearest neighbours, bagged ID3 and random trees, each trained on 1 row (thorough: any cells); the disk is full after any number of writes
// outside: faults when a file is closed or synchronised
// time: 60 200
func VH_C39_save() { vFaults(false) }

// VH_C39_load: a model whose file is cut short is refused or answers like the whole one.
// bounds: the same models; the compressed stream ends at any block of 512 bytes or 100 bytes into it
// time: 60 200
func VH_C39_load() { vFaults(true) }
