package clustering

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

func vNear(a, b float64) bool {
	if a == b {
		return true
	}
	d := a - b
	return vk.And(d < 1e-9, d > -1e-9)
}

// VH_C36_assign: every row is assigned to one component, a most likely one.
// bounds: 1..2 rows of 1..2 integer features in [-6,6] (a categorical column beside them), 4 mixtures of 1..3 Gaussians (equal, scaled and correlated covariances)
func VH_C36_assign() {
	vk.Opt("merge", 0)
	type comp struct {
		mean []float64
		cov  []float64
	}
	mixes := [][]comp{
		{{[]float64{1}, []float64{1}}, {[]float64{-2}, []float64{4}}},
		{{[]float64{0}, []float64{9}}, {[]float64{3}, []float64{0.25}}, {[]float64{-5}, []float64{1}}},
		{{[]float64{0, 1}, []float64{1, 0, 0, 1}}, {[]float64{2, -1}, []float64{2, 1, 1, 2}}},
		{{[]float64{1, 1}, []float64{4, -1, -1, 1}}},
	}
	mix := mixes[vk.Choose("mixture", len(mixes))]
	d := len(mix[0].mean)
	em, err := NewExpectationMaximization(len(mix))
	vk.Assert(err == nil, "at least one component is accepted")
	n := 1 + vk.Choose("n", 2)
	as := []base.Attribute{vg.Attr(vg.C, "c", "u", "v")}
	for c := 0; c < d; c++ {
		as = append(as, base.NewFloatAttribute(fmt.Sprint("f", c)))
	}
	x := make([][]float64, n)
	g := vg.New(as, nil, n, func(r, c int) []byte {
		if c == 0 {
			return vg.Cat(1)
		}
		v := vk.FInt(fmt.Sprint("x", r, c), -6, 6)
		x[r] = append(x[r], v)
		return vg.Float(v)
	})
	p := Params{Means: mat.NewDense(len(mix), d, nil)}
	for k, c := range mix {
		p.Means.SetRow(k, c.mean)
		p.Covs = append(p.Covs, mat.NewSymDense(d, append([]float64{}, c.cov...)))
	}
	_, err = em.Predict(g.Inst)
	vk.Assert(err == NoTrainingDataError, "prediction before fitting is refused")
	em.Params, em.attrs, em.fitted = p, as[1:], true
	m, err := em.Predict(g.Inst)
	vk.Assert(err == nil, "prediction after fitting is accepted")
	seen := make([]int, n)
	for k, rows := range m {
		vk.Assert(k >= 0 && k < len(mix), "existing components are assigned")
		for _, r := range rows {
			vk.Assert(r >= 0 && r < n, "existing rows are assigned")
			seen[r]++
			// log densities up to a common constant
			lp := func(c comp) float64 {
				a := x[r][0] - c.mean[0]
				if d == 1 {
					return -0.5*a*a/c.cov[0] - 0.5*math.Log(c.cov[0])
				}
				b := x[r][1] - c.mean[1]
				det := c.cov[0]*c.cov[3] - c.cov[1]*c.cov[2]
				return -0.5*(c.cov[3]*a*a-2*c.cov[1]*a*b+c.cov[0]*b*b)/det - 0.5*math.Log(det)
			}
			for o := range mix {
				vk.Assert(lp(mix[k]) >= lp(mix[o])-1e-9, "no other component is more likely")
			}
		}
	}
	for _, s := range seen {
		vk.Assert(s == 1, "every row is assigned once")
	}
	vk.Cover("assignment")
}

// VH_C36_update: a component's new parameters are the mean and covariance of the rows assigned to it.
// bounds: 1..4 rows of 1..2 features in [-3,3] (at most three values vary freely), all assignments to 2 components
func VH_C36_update() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("n", 4)
	d := 1 + vk.Choose("d", 2)
	free := 0
	X := mat.NewDense(n, d, nil)
	for r := 0; r < n; r++ {
		for c := 0; c < d; c++ {
			v := float64((r*3+c*5)%4 - r)
			if free < 3 && (d == 1 || c == r%2) {
				v = vk.FInt(fmt.Sprint("x", r, c), -3, 3)
				free++
			}
			X.Set(r, c, v)
		}
	}
	y := mat.NewVecDense(n, nil)
	var of [2][]int
	for r := 0; r < n; r++ {
		k := vk.Choose(fmt.Sprint("k", r), 2)
		y.SetVec(r, float64(k))
		of[k] = append(of[k], r)
	}
	old := Params{Means: mat.NewDense(2, d, nil)}
	for k := 0; k < 2; k++ {
		cv := mat.NewSymDense(d, nil)
		for c := 0; c < d; c++ {
			old.Means.Set(k, c, float64(10*k+c))
			cv.SetSym(c, c, float64(3+k+c))
		}
		old.Covs = append(old.Covs, cv)
	}
	p := maximization(X, y, old, 2)
	for k, rows := range of {
		m := float64(len(rows))
		for c := 0; c < d; c++ {
			if len(rows) <= 1 {
				vk.Assert(p.Means.At(k, c) == float64(10*k+c) && p.Covs[k].At(c, c) == float64(3+k+c), "a component with too few rows keeps its parameters")
				continue
			}
			sum := 0.0
			for _, r := range rows {
				sum += X.At(r, c)
			}
			vk.Assert(vNear(p.Means.At(k, c), sum/m), "mean of the assigned rows")
			for e := 0; e <= c; e++ {
				if c != e && len(rows) <= d {
					vk.Assert(p.Covs[k].At(c, e) == 0, "shrunk covariance is diagonal")
					continue
				}
				// m times the sum of products minus the product of the sums
				sume, prod := 0.0, 0.0
				for _, r := range rows {
					sume += X.At(r, e)
					prod += X.At(r, c) * X.At(r, e)
				}
				vk.Assert(vNear(p.Covs[k].At(c, e), (m*prod-sum*sume)/(m*(m-1))), "covariance of the assigned rows")
			}
		}
	}
	vk.Cover("update")
}

// VH_C36_fit: fitting one component finds the mean and variance of the data, wherever it starts.
// bounds: 2..3 rows, one integer feature in [-3,3] not all equal (the third row is fixed), 8 random starts
// outside: convergence with several components
func VH_C36_fit() {
	vk.Opt("merge", 0)
	vk.Opt("randgrid", 3)
	n := 2 + vk.Choose("n", 2)
	as := []base.Attribute{base.NewFloatAttribute("x"), vg.Attr(vg.C, "k", "u", "v")}
	xs := make([]float64, n)
	g := vg.New(as, []int{1}, n, func(r, c int) []byte {
		if c == 1 {
			return vg.Cat(r % 2)
		}
		xs[r] = 1
		if r < 2 {
			xs[r] = vk.FInt(fmt.Sprint("x", r), -3, 3)
		}
		return vg.Float(xs[r])
	})
	vk.Assume(vk.Or(xs[0] != xs[1], xs[0] != xs[n-1]))
	em, _ := NewExpectationMaximization(1)
	vk.Assert(em.Fit(g.Inst) == nil, "enough rows are accepted")
	sum, sq := 0.0, 0.0
	for _, x := range xs {
		sum += x
		sq += x * x
	}
	m := float64(n)
	vk.Assert(vNear(em.Params.Means.At(0, 0), sum/m), "mean")
	vk.Assert(vNear(em.Params.Covs[0].At(0, 0), (m*sq-sum*sum)/(m*(m-1))), "variance")
	cm, err := em.Predict(g.Inst)
	vk.Assert(err == nil && len(cm) == 1 && len(cm[0]) == n, "all rows belong to the only component")
	vk.Cover("fit")
}

// VH_C36_refuse: impossible requests are refused.
// bounds: -2..3 components, 1..3 rows
func VH_C36_refuse() {
	k := vk.Choose("k", 6) - 2
	em, err := NewExpectationMaximization(k)
	vk.Assert((err != nil) == (k < 1), "at least one component is needed")
	if err != nil {
		return
	}
	n := 1 + vk.Choose("n", 3)
	if n < k {
		g := vg.New(vg.Kinds(vg.F), nil, n, func(r, c int) []byte { return vg.Float(vk.FInt(fmt.Sprint("x", r), -3, 3)) })
		vk.Assert(em.Fit(g.Inst) == InsufficientDataError, "fewer rows than components are refused")
	}
	vk.Cover("refusals")
}
