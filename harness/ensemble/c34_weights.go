package ensemble

import (
	"fmt"

	"github.com/sjwhitworth/golearn/linear_models"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C34_multi: the machine for a class weighs that class as told and the others together as all their weights; without weights classes weigh the same.
// bounds: 1..3 classes with any weights from 0 to 2 in quarters, or none; the parameters of the whole are unchanged
func VH_C34_multi() {
	vk.Opt("merge", 0)
	k := vk.Choose("classes", 4)
	names := []string{"u", "v", "w"}[:k]
	var weights map[string]float64
	var ws []float64
	for i, n := range names {
		if weights == nil {
			weights = map[string]float64{}
		}
		w := vk.FDyadic(fmt.Sprint("w", i), 0, 8, 2)
		weights[n], ws = w, append(ws, w)
	}
	m := NewMultiLinearSVC("l2", "l2", false, 1.5, 0.25, weights)
	for i, n := range append(names, "other") {
		s, ok := m.m.NewClassifierFunction(n).(*linear_models.LinearSVC)
		vk.Assert(ok, "a machine is made for a class")
		vk.Assert(s.Param.C == 1.5 && s.Param.Eps == 0.25 && !s.Param.Dual && s.Param.SolverType == m.parameters.SolverType, "machines have the parameters given")
		if k == 0 {
			vk.Assert(s.Param.ClassWeights == nil, "without weights classes weigh the same")
			continue
		}
		own, rest := 0.0, 0.0
		for j, w := range ws {
			if j == i {
				own = w
			} else {
				rest += w
			}
		}
		vk.Assert(len(s.Param.ClassWeights) == 2 && s.Param.ClassWeights[0] == rest && s.Param.ClassWeights[1] == own, "a class and the rest weigh as told")
	}
	vk.Assert(m.parameters.ClassWeights == nil, "the parameters of the whole are unchanged")
}
