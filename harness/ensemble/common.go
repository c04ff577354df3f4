package ensemble

import (
	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/trees"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

type vFile interface {
	Save(string) error
	Load(string) error
}

// vModel makes an empty model of a kind.
func vModel(kind int) vFile {
	switch kind {
	case 0:
		return knn.NewKnnClassifier("euclidean", "linear", 1)
	case 1:
		return naive.NewBernoulliNBClassifier()
	case 2:
		return trees.NewID3DecisionTree(0)
	case 3:
		return NewRandomForest(1, 1)
	case 4:
		m := meta.NewOneVsAllModel(func(string) base.Classifier { return knn.NewKnnClassifier("euclidean", "linear", 1) })
		return m
	case 5:
		b := new(meta.BaggedModel)
		b.AddModel(trees.NewID3DecisionTree(0))
		return b
	case 6:
		return trees.NewRandomTree(1)
	case 7:
		return new(linear_models.LinearSVC)
	}
	return &MultiLinearSVC{}
}

// vTrained makes a model of a kind trained on 1 row (quick: of fixed cells).
func vTrained(from int) (vFile, *vg.Grid) {
	kinds := []int{vg.F, vg.B, vg.C, vg.C, vg.F, vg.C, vg.C}
	x, class := vg.Attr(kinds[from], "x", "p", "q"), vg.Attr(vg.C, "class", "u", "v")
	as := []base.Attribute{x, class}
	g := vg.New(as, []int{1}, 1, func(r, c int) []byte {
		if vk.Thorough() {
			return vg.Any(as[c], string(rune('a'+c)))
		}
		return map[bool][]byte{true: {1}, false: vg.Cat(1)}[as[c] == x && kinds[from] == vg.B]
	})
	m := vModel(from)
	switch m := m.(type) {
	case base.Classifier:
		vk.Assert(m.Fit(g.Inst) == nil, "a model is trained")
	case interface{ Fit(base.FixedDataGrid) }:
		m.Fit(g.Inst)
	default:
		vk.Assert(false, "a model is trained")
	}
	return m, g
}
