package knn

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C41_knn: two goroutines can ask one nearest neighbour classifier about the same rows; both get what one alone gets.
// bounds: 2 rows of 2 features of any integers up to 2, 1 query, 1..2 neighbours, plain and optimised, linear and k-d tree search
// outside: more goroutines
// time: 40 200
func VH_C41_knn() {
	vk.Opt("merge", 0)
	v := vKnnData(2, 1, 1+vk.B2I(vk.Thorough()), 2, 0)
	c := NewKnnClassifier("euclidean", []string{"linear", "kdtree"}[vk.Choose("search", 2)], 1)
	c.AllowOptimisations = vk.Choose("optimised", 2) == 1
	vk.Assume(c.Fit(v.train.Inst) == nil)
	vg.Shared(func() (base.FixedDataGrid, error) { return c.Predict(v.query.Inst) })
}
