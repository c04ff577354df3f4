package ensemble

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C41_forest: two goroutines can ask one random forest about the same rows; both get what one alone gets.
// bounds: 1 tree (2 when thorough) on 1 feature, 2 rows of two 2-valued columns and a class, any query
// time: 60 200
func VH_C41_forest() {
	vk.Opt("merge", 0)
	vk.Opt("maporder", 0)
	vk.Opt("randgrid", 2)
	vk.Opt("ncpu", 1)
	g := vg.New([]base.Attribute{vg.Attr(vg.C, "x", "p", "q"), vg.Attr(vg.C, "y", "p", "q"), vg.Attr(vg.C, "z", "u", "v")}, []int{2}, 2, func(r, c int) []byte { return vg.Cat(r) })
	f := NewRandomForest(1+vk.B2I(vk.Thorough()), 1)
	vk.Assume(f.Fit(g.Inst) == nil)
	q := vg.New(g.Attrs, []int{2}, 1, func(r, c int) []byte { return vg.Any(g.Attrs[c], "q"+string(rune('0'+c))) })
	vg.Shared(func() (base.FixedDataGrid, error) { return f.Predict(q.Inst) })
}
