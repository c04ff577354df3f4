package linear_models

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C34_regression: linear regression fits the least squares: residuals add up to zero alone and weighted by any column; predictions are the fitted plane.
// bounds: 1..3 rows (thorough 4) of 0..2 numeric columns from 3 designs each, any integer targets in [-1,2], class first, last or in the middle, with a categorical column; any query, with the columns in the same and in reverse order, with integers in [-2,2]
// time: 60 300
func VH_C34_regression() {
	vk.Opt("merge", 0)
	cols := vk.Choose("cols", 3)
	n := cols + 1 + vk.Choose("more", 3-vk.IteInt(cols == 2, 1, 0))
	layout := vk.Choose("layout", 3)
	if n > 3+vk.B2I(vk.Thorough()) || cols == 0 && layout == 2 {
		vk.Assume(false)
	}
	design := [][][]float64{{{0, 1}, {1, 0}, {2, 3}, {-1, 1}}, {{-2, 0}, {1, 1}, {1, -1}, {0, 2}}, {{5, -1}, {0.5, 2}, {3, 3}, {-4, 0}}}[vk.Choose("design", 3)]
	m := make([][]float64, n)
	y := make([]float64, n)
	for r := range m {
		m[r] = design[r][:cols]
		y[r] = vk.FInt(fmt.Sprint("y", r), -1, 2)
	}
	g := vLayout(m, y, cols, layout)
	lr := NewLinearRegression()
	_, err := lr.Predict(g.Inst)
	vk.Assert(err != nil, "a model that is not fitted refuses to predict")
	vk.Assert(lr.Fit(g.Inst) == nil, "a model is fitted")
	p, err := lr.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	class := g.Inst.AllClassAttributes()[0]
	sums := make([]float64, cols+1)
	for r := range m {
		e := y[r] - vg.GetF(p, class, r)
		sums[0] += e
		for c, x := range m[r] {
			sums[c+1] += e * x
		}
	}
	for _, s := range sums {
		vk.Assert(s < 1e-6 && s > -1e-6, "residuals are orthogonal to the columns")
	}
	q := [][]float64{make([]float64, cols)}
	want := lr.disturbance
	for c := range q[0] {
		q[0][c] = float64(vk.Choose(fmt.Sprint("q", c), 3)*2 - 2)
		want += q[0][c] * lr.regressionCoefficients[c]
	}
	z, err := lr.Predict(vLayout(q, []float64{7}, cols, layout).Inst)
	vk.Assert(err == nil, "queries are predicted")
	got := vg.GetF(z, class, 0)
	vk.Assert(got-want < 1e-9 && want-got < 1e-9, "a query gets the value of the plane")
	back := make([]base.Attribute, cols+1)
	for c := 0; c < cols; c++ {
		back[cols-1-c] = vg.Attr(vg.F, fmt.Sprint("x", c))
	}
	back[cols] = class
	z, err = lr.Predict(vg.New(back, []int{cols}, 1, func(r, c int) []byte {
		if c == cols {
			return vg.Float(7)
		}
		return vg.Float(q[0][cols-1-c])
	}).Inst)
	vk.Assert(err == nil, "queries with the columns in another order are predicted")
	got = vg.GetF(z, class, 0)
	vk.Assert(got-want < 1e-9 && want-got < 1e-9, "columns are told apart by name")
}

// VH_C34_regression_digits: the fit is good to the last digits: points on a plane are predicted.
// bounds: 3..4 rows of 1..2 columns on a plane whose slopes are 1..2 of 2, -3/4 and whose height is 0, 2^25 or 2^25+1/4 (which needs double precision); predicted to within 1e-4; queries likewise
func VH_C34_regression_digits() {
	cols := 1 + vk.Choose("cols", 2)
	n := 3 + vk.Choose("more", 2)
	h := []float64{0, 33554432, 33554432.25}[vk.Choose("height", 3)]
	plane := func(x []float64) float64 {
		v := h
		for c, z := range x {
			v += []float64{2, -0.75}[c] * z
		}
		return v
	}
	pts := [][]float64{{0, 1}, {1, 0}, {2, 3}, {-1, 1}, {7, -5}, {0.5, 2}}
	m, y := make([][]float64, len(pts)), make([]float64, len(pts))
	for r := range pts {
		m[r] = pts[r][:cols]
		y[r] = plane(m[r])
	}
	lr := NewLinearRegression()
	vk.Assert(lr.Fit(vLayout(m[:n], y[:n], cols, 0).Inst) == nil, "a model is fitted")
	q := vLayout(m, make([]float64, len(m)), cols, 0)
	p, err := lr.Predict(q.Inst)
	vk.Assert(err == nil, "rows are predicted")
	class := q.Inst.AllClassAttributes()[0]
	for r := range m {
		e := vg.GetF(p, class, r) - y[r]
		vk.Assert(e < 1e-4 && e > -1e-4, "points on the plane are predicted")
	}
}

// VH_C34_regression_refuse: too few rows and data without exactly one class attribute are errors.
// bounds: 0..2 class attributes, 1..3 columns, 1..3 rows
func VH_C34_regression_refuse() {
	k, cols, n := vk.Choose("classes", 3), 1+vk.Choose("cols", 3), 1+vk.Choose("rows", 3)
	var as []base.Attribute
	var cl []int
	for c := 0; c < cols+k; c++ {
		as = append(as, vg.Attr(vg.F, fmt.Sprint("x", c)))
		if c >= cols {
			cl = append(cl, c)
		}
	}
	g := vg.New(as, cl, n, func(r, c int) []byte { return vg.Float(float64((r + 1) * (r + 1) * (c + 1) * (c + r))) })
	err := NewLinearRegression().Fit(g.Inst)
	vk.Assert((err == nil) == (k == 1 && n > cols), "data are refused exactly if they do not determine a model")
}
