package ensemble

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C33_forest: a random forest loaded from the file it was saved to answers alike.
// bounds: 1..2 trees of 1 feature each, loaded into a forest of 0..2 trees, 2 rows of two 2-valued columns and a 2-valued class with any cells, every draw of rows and features; any query
// time: 60 200
func VH_C33_forest() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	vk.Opt("maporder", 0)
	vk.Opt("freshdraws", 1)
	vk.Opt("ncpu", 1)
	size := 1 + vk.Choose("trees", 2)
	as := []base.Attribute{vg.Attr(vg.C, "x", "p", "q"), vg.Attr(vg.C, "y", "p", "q"), vg.Attr(vg.C, "class", "u", "v")}
	g := vg.New(as, []int{2}, 2, func(r, c int) []byte {
		if size == 2 && (c == 1 || c == 0 && r == 0) {
			return vg.Cat(1 - r)
		}
		return vg.Any(as[c], string(rune('a'+r))+string(rune('0'+c)))
	})
	f, l := NewRandomForest(size, 1), NewRandomForest(vk.Choose("other", 3), 2)
	vk.Assert(f.Fit(g.Inst) == nil, "the forest is grown")
	path := vk.TempPath("forest")
	vk.Assert(f.Save(path) == nil, "the forest is saved")
	vk.Assert(l.Load(path) == nil, "the forest is loaded")
	vk.Assert(l.ForestSize == size && l.Features == 1 && len(l.Model.Models) == size, "the forest is as large")
	q := vg.New(as, []int{2}, 1, func(r, c int) []byte { return vg.Any(as[c], "q"+string(rune('0'+c))) })
	p, err := f.Predict(q.Inst)
	o, err2 := l.Predict(q.Inst)
	vk.Assert(err == nil && err2 == nil, "rows are predicted")
	vk.Assert(base.GetClass(p, 0) == base.GetClass(o, 0), "the answers are the same")
}
