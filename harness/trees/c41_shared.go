package trees

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C41_trees: two goroutines can ask one decision tree about the same rows, or grow one each from the same rows; both get what one alone gets.
// time: 60 200
// bounds: ID3 and random trees of 2 rows of a 2-valued column, a float column and a class, any cells; the 2 rows as queries
func VH_C41_trees() {
	vk.Opt("merge", 0)
	vk.Opt("maporder", 0)
	g := vg.New(vg.Kinds(vg.C, vg.F, vg.C), []int{2}, 2, func(r, c int) []byte {
		if c == 1 {
			return vg.Float(vk.FInt("x"+string(rune('0'+r)), -2, 2))
		}
		return vg.Cat(vk.Choose("c"+string(rune('0'+r))+string(rune('0'+c)), 2))
	})
	kind := vk.Choose("kind", 3)
	if kind == 2 {
		vg.Shared(func() (base.FixedDataGrid, error) {
			t := NewID3DecisionTree(0)
			if err := t.Fit(g.Inst); err != nil {
				return nil, err
			}
			return t.Predict(g.Inst)
		})
		return
	}
	if kind == 0 {
		t := NewID3DecisionTree(0)
		vk.Assume(t.Fit(g.Inst) == nil)
		vg.Shared(func() (base.FixedDataGrid, error) { return t.Predict(g.Inst) })
		return
	}
	t := NewRandomTree(1)
	vk.Assume(t.Fit(g.Inst) == nil)
	vg.Shared(func() (base.FixedDataGrid, error) { return t.Predict(g.Inst) })
}
