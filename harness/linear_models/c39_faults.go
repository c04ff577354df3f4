package linear_models

import (
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C39_svc: a linear SVM which could not be written or read whole is reported; otherwise it answers alike.
// bounds: 1..2 numeric columns, weights in [-2,3], labels 0 and 1 either way round; the disk is full after any number of writes, while saving, or full while loading; the compressed stream ends at any block of 512 bytes or 100 bytes into it
// outside: liblinear's own reading and writing (a stand-in keeps the model beside a file that names it)
func VH_C39_svc() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	cols := 1 + vk.Choose("cols", 2)
	a := vSVC("a", cols)
	path := vk.TempPath("svc")
	how := vk.Choose("how", 3)
	if how == 0 {
		vk.FullDisk(path, func() error { return a.Save(path) })
		return
	}
	g := vLayout(vRows("x", 1, cols, 4), []float64{0}, cols, 0)
	vk.Assert(a.Save(path) == nil, "the model is saved")
	if how == 1 {
		vk.DiskRoom(0)
		err := new(LinearSVC).Load(path)
		vk.DiskRoom(-1)
		vk.Assert(err != nil, "what could not be read whole is reported")
		return
	}
	var l *LinearSVC
	vk.CutFile(path, func(p string) error {
		l = new(LinearSVC)
		return l.Load(p)
	}, func() { vAlike(a, l, g.Inst) })
}
