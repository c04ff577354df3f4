package pca

import (
	"fmt"
	"math"

	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

// vDesign is training data whose principal axes are known.
type vDesign struct {
	rows [][]float64
	axes [][]float64 // unit vectors in order of variance
	vars []float64   // sums of squares along them
}

var vDesigns = []vDesign{
	{[][]float64{{3, 0}, {-3, 0}, {0, 1}, {0, -1}}, [][]float64{{1, 0}, {0, 1}}, []float64{18, 2}},
	{[][]float64{{1, 4}, {1, -4}, {3, 0}, {-1, 0}}, [][]float64{{0, 1}, {1, 0}}, []float64{32, 8}},
	{[][]float64{{3, 4}, {-3, -4}, {-4, 3}, {4, -3}, {6, 8}, {-6, -8}}, [][]float64{{.6, .8}, {-.8, .6}}, []float64{250, 50}},
	{[][]float64{{7}, {1}, {4}}, [][]float64{{1}}, []float64{18}},
	{[][]float64{{5, 1, 2}, {-5, 1, 2}, {0, 3, 2}, {0, -1, 2}, {0, 1, 3}, {0, 1, 1}}, [][]float64{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, []float64{50, 8, 2}},
}

func vMean(rows [][]float64) []float64 {
	m := make([]float64, len(rows[0]))
	for _, r := range rows {
		for c, x := range r {
			m[c] += x / float64(len(rows))
		}
	}
	return m
}

func vDense(rows [][]float64, shift []float64) *mat.Dense {
	d := mat.NewDense(len(rows), len(rows[0]), nil)
	for i, r := range rows {
		for c, x := range r {
			d.Set(i, c, x+shift[c])
		}
	}
	return d
}

// VH_C38_axes: transformed rows are their distances from the training mean along the axes of greatest variance, in order, as many as asked for.
// bounds: 5 designs of 1..3 columns with known axes, moved by 3 and -2 times 1+2^-25 (which needs double precision) or not; 1..2 query rows of integers in [-3,3]; 0..4 components
// outside: designs whose axes are not known beforehand (the SVD itself)
// time: 60 200
func VH_C38_axes() {
	vk.Opt("merge", 0)
	d := vDesigns[vk.Choose("design", len(vDesigns))]
	cols := len(d.rows[0])
	shift := make([]float64, cols)
	for c := range shift {
		shift[c] = float64(vk.Choose(fmt.Sprint("shift", c), 2)*(3-5*(c%2))) * (1 + 0x1p-25)
	}
	x := vDense(d.rows, shift)
	orig := mat.DenseCopyOf(x)
	k := vk.Choose("components", 5)
	p := NewPCA(k)
	vk.Assert(p.Fit(x) == p, "fitting returns the model")
	for i := range d.rows {
		for c := range shift {
			vk.Assert(x.At(i, c) == orig.At(i, c), "the training data stay as they were")
		}
	}
	want := k
	if k == 0 || k > cols {
		want = cols
	}
	mean := vMean(d.rows)
	q := mat.NewDense(1+vk.Choose("queries", 2), cols, nil)
	n, _ := q.Dims()
	for i := 0; i < n; i++ {
		for c := 0; c < cols; c++ {
			q.Set(i, c, vk.FInt(fmt.Sprint("q", i, c), -3, 3))
		}
	}
	t := p.Transform(q)
	tr, tc := t.Dims()
	vk.Assert(tr == n && tc == want, "there are as many columns as asked for, or as many as features")
	for a := 0; a < want; a++ {
		// the sign of an axis is free, but the same for all rows
		plus, minus := true, true
		for i := 0; i < n; i++ {
			s := 0.0
			for c := 0; c < cols; c++ {
				s += d.axes[a][c] * (q.At(i, c) - mean[c] - shift[c])
			}
			v := t.At(i, a)
			plus = vk.And(plus, math.Abs(v-s) < 1e-9)
			minus = vk.And(minus, math.Abs(v+s) < 1e-9)
		}
		vk.Assert(vk.Or(plus, minus), "columns are the coordinates along the axes")
	}
}

// VH_C38_variance: transforming the training data gives columns that are uncorrelated and hold its variances in falling order.
// bounds: 5 designs, moved, 0..4 components
func VH_C38_variance() {
	d := vDesigns[vk.Choose("design", len(vDesigns))]
	cols := len(d.rows[0])
	shift := make([]float64, cols)
	for c := range shift {
		shift[c] = float64(vk.Choose("shift", 3) * (c + 1))
	}
	k := vk.Choose("components", 5)
	t := NewPCA(k).FitTransform(vDense(d.rows, shift))
	n, m := t.Dims()
	vk.Assert(n == len(d.rows) && (m == k || (k == 0 || k > cols) && m == cols), "every row is transformed")
	for a := 0; a < m; a++ {
		for b := 0; b <= a; b++ {
			s, u := 0.0, 0.0
			for i := 0; i < n; i++ {
				s += t.At(i, a) * t.At(i, b)
				u += t.At(i, a)
			}
			want := 0.0
			if a == b {
				want = d.vars[a]
			}
			vk.Assert(math.Abs(s-want) < 1e-9 && math.Abs(u) < 1e-9, "columns are centred, uncorrelated and ordered by variance")
		}
	}
}

// VH_C38_refuse: transforming before fitting and a negative number of components are refused.
// bounds: -2..-1 components
func VH_C38_refuse() {
	x := mat.NewDense(2, 2, []float64{1, 2, 3, 5})
	vk.Assert(vg.Panics(func() { NewPCA(1).Transform(x) }), "a model must be fitted before")
	vk.Assert(vg.Panics(func() { NewPCA(-1 - vk.Choose("k", 2)).Fit(x) }), "a negative number of components is refused")
}
