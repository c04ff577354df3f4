//go:build go1.21

package linear_models

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C34_linear_refuse: linear classifiers return errors for data they cannot use, and before they are trained.
// bounds: 0..2 rows, a numeric column, none, one or two classes, numeric or not; logistic regression and SVC with equal, given and automatic weights
// outside: liblinear's own training (a stand-in returns an empty model)
func VH_C34_linear_refuse() {
	vk.Opt("merge", 0)
	rows := vk.Choose("rows", 3)
	kind := []int{vg.F, vg.C, vg.B}[vk.Choose("kind", 3)]
	cls := [][]int{{1}, {}, {1, 2}}[vk.Choose("classes", 3)]
	as := vg.Kinds(vg.F, kind, vg.F)
	g := vg.New(as, cls, rows, func(r, c int) []byte {
		if c == 1 && kind != vg.F {
			return vg.Any(as[c], fmt.Sprint("k", r))
		}
		return vg.Float(float64(vk.B2I(vk.Bool(fmt.Sprint("v", r, c)))))
	})
	var m interface {
		Fit(base.FixedDataGrid) error
	}
	ask := func() (base.FixedDataGrid, error) { return nil, nil }
	which := vk.Choose("which", 4)
	if which == 0 {
		lr, err := NewLogisticRegression("l2", 1, 0.1)
		vk.Assert(err == nil, "a classifier is made")
		m, ask = lr, func() (base.FixedDataGrid, error) { return lr.Predict(g.Inst) }
	} else {
		s, err := NewLinearSVC("l2", "l2", true, 1, 0.1)
		vk.Assert(err == nil, "a classifier is made")
		switch which {
		case 2:
			s.Param.ClassWeights = []float64{1, 2}
		case 3:
			s.Param.WeightClassesAutomatically = true
		}
		m, ask = s, func() (base.FixedDataGrid, error) { return s.Predict(g.Inst) }
	}
	_, err := ask()
	vk.Assert(err != nil, "predicting before fitting is an error")
	fine := rows > 0 && kind == vg.F && len(cls) == 1
	vk.Assert((m.Fit(g.Inst) == nil) == fine, "data that cannot be used are an error")
	if !fine {
		_, err = ask()
		vk.Assert(err != nil, "predicting is an error still")
	}
	vk.Cover("refused")
}
