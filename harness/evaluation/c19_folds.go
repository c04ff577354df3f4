package evaluation

import (
	"errors"
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vSpy records the rows it is trained and asked on; it predicts class (row id + shift) mod 2.
type vSpy struct {
	id           base.Attribute
	train, test  [][]int
	fails        int
	predictFails bool
	wrong        map[int]bool
}

func vIDs(d base.FixedDataGrid, id base.Attribute) []int {
	_, rows := d.Size()
	var r []int
	for i := 0; i < rows; i++ {
		r = append(r, int(vg.GetF(d, id, i)))
	}
	return r
}
func (s *vSpy) Fit(d base.FixedDataGrid) error {
	s.train = append(s.train, vIDs(d, s.id))
	if !s.predictFails && len(s.train) == s.fails {
		return errors.New("fit")
	}
	return nil
}
func (s *vSpy) Predict(d base.FixedDataGrid) (base.FixedDataGrid, error) {
	ids := vIDs(d, s.id)
	s.test = append(s.test, ids)
	if s.predictFails && len(s.test) == s.fails {
		return nil, errors.New("predict")
	}
	p := base.GeneratePredictionVector(d)
	for i, r := range ids {
		c := base.GetClass(d, i)
		if s.wrong[r] {
			c = map[string]string{"u": "v", "v": "u"}[c]
		}
		base.SetClass(p, i, c)
	}
	return p, nil
}
func (s *vSpy) String() string                                            { return "spy" }
func (s *vSpy) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (s *vSpy) Save(string) error                                         { return nil }
func (s *vSpy) Load(string) error                                         { return nil }
func (s *vSpy) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (s *vSpy) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

func vFoldData(n int) (*vg.Grid, []int) {
	as := []base.Attribute{base.NewFloatAttribute("id"), vg.Attr(vg.C, "k", "u", "v")}
	ks := make([]int, n)
	g := vg.New(as, []int{1}, n, func(r, c int) []byte {
		if c == 0 {
			return vg.Float(float64(r))
		}
		ks[r] = r % 2
		return vg.Cat(ks[r])
	})
	return g, ks
}

// VH_C19_folds: every row is tested exactly once, by a model trained on exactly the rows of the other folds.
// bounds: 1..4 rows, 1..3 folds, every outcome of the random draws, every set of wrongly predicted rows
func VH_C19_folds() {
	n, folds := 1+vk.Choose("rows", 4), 1+vk.Choose("folds", 3)
	g, ks := vFoldData(n)
	s := &vSpy{id: g.Attrs[0], wrong: map[int]bool{}}
	s.wrong[vk.Choose("wrong", n+1)] = true
	cs, err := GenerateCrossFoldValidationConfusionMatrices(g.Inst, s, folds)
	vk.Assert(err == nil, "no error")
	vk.Assert(len(cs) == folds && len(s.train) == folds && len(s.test) == folds, "one model and one matrix per fold")
	tested := make([]int, n)
	for f := 0; f < folds; f++ {
		in := make([]int, n)
		for _, r := range s.test[f] {
			tested[r]++
			in[r]++
		}
		for _, r := range s.train[f] {
			in[r] += 10
		}
		for _, c := range in {
			vk.Assert(c == 1 || c == 10, "a fold's rows are split into its test part and its training part")
		}
		var want [2][2]int
		for _, r := range s.test[f] {
			p := ks[r]
			if s.wrong[r] {
				p = 1 - p
			}
			want[ks[r]][p]++
		}
		for i := range want {
			for j := range want[i] {
				vk.Assert(cs[f][vNames2[i]][vNames2[j]] == want[i][j], "the fold's matrix counts its test rows")
			}
		}
	}
	for _, c := range tested {
		vk.Assert(c == 1, "every row is tested exactly once")
	}
	vk.Cover("folds")
}

var vNames2 = []string{"u", "v"}

// VH_C19_errors: an error of the classifier in any fold is passed on.
// bounds: 3 rows, 2 or 3 folds, failure of training or prediction in any fold, every outcome of the random draws
func VH_C19_errors() {
	folds := 2 + vk.Choose("folds", 2)
	g, _ := vFoldData(3)
	s := &vSpy{id: g.Attrs[0], fails: 1 + vk.Choose("at", folds), predictFails: vk.Choose("predict", 2) == 1}
	_, err := GenerateCrossFoldValidationConfusionMatrices(g.Inst, s, folds)
	vk.Assert(err != nil, "the error is passed on")
	vk.Cover("errors")
}

// VH_C19_metric: mean and variance of a metric over the folds.
// bounds: 1..4 folds, metric values any integers in [-50,50] (mean of 3 checked to 1e-9 for values in [-4,4])
func VH_C19_metric() {
	vk.Opt("merge", 0)
	n := []int{1, 2, 4}[vk.Choose("n", 3)]
	xs := make([]float64, n)
	cs := make([]ConfusionMatrix, n)
	for i := range xs {
		xs[i] = vk.FInt(fmt.Sprint("x", i), -50, 50)
		cs[i] = ConfusionMatrix{fmt.Sprint(i): {"c": i}}
	}
	mean, variance := GetCrossValidatedMetric(cs, func(c ConfusionMatrix) float64 {
		for i := range xs {
			if _, ok := c[fmt.Sprint(i)]; ok {
				return xs[i]
			}
		}
		return 1000
	})
	m := 0.0
	for _, x := range xs {
		m += x
	}
	m /= float64(n)
	v := 0.0
	for _, x := range xs {
		v += (x - m) * (x - m)
	}
	v /= float64(n)
	vk.Assert(mean == m, "mean")
	vk.Assert(variance == v, "variance")
	vk.Cover("metric")
}

// VH_C19_metric3: the same for a number of folds that does not divide evenly.
// bounds: 3 or 5 folds, metric values in {0, 1/2, 1} (chosen)
func VH_C19_metric3() {
	n := 3 + 2*vk.Choose("n", 2)
	xs := make([]float64, n)
	cs := make([]ConfusionMatrix, n)
	for i := range xs {
		xs[i] = float64(vk.Choose(fmt.Sprint("x", i), 3)) / 2
		cs[i] = ConfusionMatrix{fmt.Sprint(i): {"c": i}}
	}
	mean, variance := GetCrossValidatedMetric(cs, func(c ConfusionMatrix) float64 {
		for i := range xs {
			if _, ok := c[fmt.Sprint(i)]; ok {
				return xs[i]
			}
		}
		return 1000
	})
	s, q := 0.0, 0.0
	for _, x := range xs {
		s += x
		q += x * x
	}
	m := s / float64(n)
	vk.Assert(math.Abs(mean-m) < 1e-9, "mean")
	vk.Assert(math.Abs(variance-(q/float64(n)-m*m)) < 1e-9, "variance")
	vk.Cover("metric3")
}

// VH_C19_anyfold: some draws lead to each row being in each fold, and to each two rows being tested together.
// bounds: 3 rows, 2..3 folds; every draw
func VH_C19_anyfold() {
	folds := 2 + vk.Choose("folds", 2)
	g, _ := vFoldData(3)
	s := &vSpy{id: g.Attrs[0]}
	GenerateCrossFoldValidationConfusionMatrices(g.Inst, s, folds)
	at := func(f, row int) bool {
		for _, r := range s.test[f] {
			if r == row {
				return true
			}
		}
		return false
	}
	if len(s.test) == folds {
		for f := 0; f < folds; f++ {
			for r := 0; r < 3; r++ {
				vk.Possible(at(f, r), fmt.Sprint("row ", r, " is in fold ", f, " of ", folds))
				for k := 0; k < r; k++ {
					vk.Possible(at(f, r) && at(f, k), fmt.Sprint("rows ", k, " and ", r, " are in fold ", f, " of ", folds))
				}
			}
		}
	}
}

// VH_C19_many: the same for long tables and many folds.
// bounds: 47 rows, 2, 5 or 13 folds, any one row predicted wrongly of five; every outcome of the first draw (thorough: the first two), the others fixed
func VH_C19_many() {
	vk.Opt("somedraws", 1+vk.B2I(vk.Thorough()))
	const n = 47
	folds := []int{2, 5, 13}[vk.Choose("folds", 3)]
	g, ks := vFoldData(n)
	s := &vSpy{id: g.Attrs[0], wrong: map[int]bool{}}
	bad := []int{0, 11, 23, 37, n - 1}[vk.Choose("wrong", 5)]
	s.wrong[bad] = true
	cs, err := GenerateCrossFoldValidationConfusionMatrices(g.Inst, s, folds)
	vk.Assert(err == nil, "no error")
	vk.Assert(len(cs) == folds && len(s.train) == folds && len(s.test) == folds, "one model and one matrix per fold")
	tested := make([]int, n)
	var sum [2][2]int
	for f := 0; f < folds; f++ {
		in := make([]int, n)
		for _, r := range s.test[f] {
			tested[r]++
			in[r]++
		}
		for _, r := range s.train[f] {
			in[r] += 10
		}
		for _, c := range in {
			vk.Assert(c == 1 || c == 10, "a fold's rows are split into its test part and its training part")
		}
		for i := range sum {
			for j := range sum[i] {
				sum[i][j] += cs[f][vNames2[i]][vNames2[j]]
			}
		}
	}
	for _, c := range tested {
		vk.Assert(c == 1, "every row is tested exactly once")
	}
	for i := range sum {
		of := 0
		for r, k := range ks {
			of += vk.B2I(k == i && r != bad)
		}
		vk.Assert(sum[i][i] == of && sum[i][1-i] == vk.B2I(ks[bad] == i), "the matrices count every row once")
	}
	vk.Cover("many")
}
