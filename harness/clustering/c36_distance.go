package clustering

import (
	"fmt"
	"math"

	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

// VH_C36_distance: the distance between two mixtures, which says when fitting ends, is the Euclidean distance of their means.
// bounds: 1..2 components of 1..2 features, integer means in [-4,4]
func VH_C36_distance() {
	vk.Opt("merge", 0)
	n, f := 1+vk.Choose("components", 2), 1+vk.Choose("features", 2)
	var ms [2]Params
	sum := 0.0
	v := make([]float64, n*f)
	for i := range ms {
		m := mat.NewDense(n, f, nil)
		for j := range v {
			x := vk.FInt(fmt.Sprint("m", i, j), -4, 4)
			m.Set(j/f, j%f, x)
			if i == 1 {
				sum += (x - v[j]) * (x - v[j])
			}
			v[j] = x
		}
		ms[i] = Params{Means: m, Covs: initCovariance(n, f)}
	}
	vk.Assert(distance(ms[0], ms[1]) == math.Sqrt(sum), "the distance is Euclidean")
}
