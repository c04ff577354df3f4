package naive

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C41_bayes: two goroutines can ask one naive Bayes classifier about the same rows, or fit one each to the same rows; both get what one alone gets.
// time: 60 200
// bounds: 1..2 training rows of 2 binary features with any bits, 2 classes; 2 queries, whose class may lack classes or have others
func VH_C41_bayes() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("rows", 2)
	bits, class := make([][]int, n), make([]int, n)
	for r := range bits {
		for c := 0; c < 2; c++ {
			bits[r] = append(bits[r], vk.Int(fmt.Sprint("b", r, c), 0, 1))
		}
		class[r] = r
	}
	nb := NewBernoulliNBClassifier()
	train := vBits(bits, class, []string{"u", "v"}, 2)
	vk.Assume(nb.Fit(train.Inst) == nil)
	q := vBits([][]int{{0, 1}, {1, 1}}, []int{0, 0}, [][]string{{"u", "v"}, {"v", "u"}, {"u"}, {"x"}}[vk.Choose("query classes", 4)], 2)
	if vk.Choose("fit", 2) == 1 {
		vg.Shared(func() (base.FixedDataGrid, error) {
			m := NewBernoulliNBClassifier()
			if err := m.Fit(train.Inst); err != nil {
				return nil, err
			}
			return m.Predict(q.Inst)
		})
		return
	}
	was := fmt.Sprint(q.Attrs[2].(*base.CategoricalAttribute).GetValues())
	vg.Shared(func() (base.FixedDataGrid, error) { return nb.Predict(q.Inst) })
	vk.Assert(fmt.Sprint(q.Attrs[2].(*base.CategoricalAttribute).GetValues()) == was, "the queries' classes are as they were")
}
