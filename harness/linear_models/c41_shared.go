package linear_models

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C41_regression: two goroutines can ask one linear regression about the same rows; both get what one alone gets.
// bounds: 2 rows of 1 column, any integer targets in [-3,3], the class first, last or in the middle
func VH_C41_regression() {
	vk.Opt("merge", 0)
	g := vLayout([][]float64{{1}, {3}}, []float64{vk.FInt("y0", -3, 3), vk.FInt("y1", -3, 3)}, 1, vk.Choose("layout", 3))
	lr := NewLinearRegression()
	vk.Assume(lr.Fit(g.Inst) == nil)
	vg.Shared(func() (base.FixedDataGrid, error) { return lr.Predict(g.Inst) })
}
