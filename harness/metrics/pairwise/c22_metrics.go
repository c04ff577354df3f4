package pairwise

import (
	"fmt"
	"math"

	"gonum.org/v1/gonum/mat"

	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vVec makes an n-vector of integers in [-hi,hi], as a row or a column.
func vVec(name string, n, hi int, col bool) (*mat.Dense, []float64) {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = vk.FInt(fmt.Sprint(name, i), -hi, hi)
	}
	if col {
		return mat.NewDense(n, 1, append([]float64{}, xs...)), xs
	}
	return mat.NewDense(1, n, append([]float64{}, xs...)), xs
}

func vAbs(x float64) float64 { return vk.IteF(x < 0, -x, x) }

func vAllEq(x, y []float64) bool {
	e := true
	for i := range x {
		e = vk.And(e, x[i] == y[i])
	}
	return e
}

// VH_C22_sums: Manhattan and Chebyshev distances are the sum and the maximum of the absolute differences, and are metrics.
// bounds: three vectors of 1..3 integers in [-12,12], as rows or columns (triangle inequality: 1..2)
func VH_C22_sums() {
	n, col := 1+vk.Choose("n", 3), vk.Choose("col", 2) == 1
	hi := 12
	x, xs := vVec("x", n, hi, col)
	y, ys := vVec("y", n, hi, col)
	z, _ := vVec("z", n, hi, col)
	sum, max := 0.0, 0.0
	for i := range xs {
		d := vAbs(xs[i] - ys[i])
		sum += d
		max = vk.IteF(d > max, d, max)
	}
	var m PairwiseDistanceFunc = NewManhattan()
	want := sum
	if vk.Choose("which", 2) == 1 {
		m = NewChebyshev()
		want = max
	}
	d := m.Distance(x, y)
	vk.Assert(d == want, "distance is the stated sum or maximum")
	vk.Assert(m.Distance(y, x) == d, "symmetric")
	vk.Assert(d >= 0, "not negative")
	vk.Assert(vk.Iff(d == 0, vAllEq(xs, ys)), "zero exactly for equal vectors")
	vk.Assert(m.Distance(x, x) == 0, "zero to itself")
	if n <= 2 {
		vk.Assert(m.Distance(x, z) <= d+m.Distance(y, z), "triangle inequality")
	}
	for i := range xs {
		vk.Assert(vk.And(x.At(i*vk.B2I(col), i*vk.B2I(!col)) == xs[i], y.At(i*vk.B2I(col), i*vk.B2I(!col)) == ys[i]), "vectors are not modified")
	}
	vk.Cover("sums")
}

// VH_C22_digits: the same for vectors that lie far from each other, to the last digit.
// bounds: two vectors of 1..2 integers in [-12,12] of which one is moved by 2^25 in each coordinate (which needs double precision), Manhattan and Chebyshev
func VH_C22_digits() {
	n := 1 + vk.Choose("n", 2)
	xs, ys := make([]float64, n), make([]float64, n)
	sum, max := 0.0, 0.0
	for i := range xs {
		a, b := vk.FInt(fmt.Sprint("x", i), -12, 12), vk.FInt(fmt.Sprint("y", i), -12, 12)
		xs[i], ys[i] = a+33554432, b
		d := 33554432 + (a - b)
		sum += d
		max = vk.IteF(d > max, d, max)
	}
	x, y := mat.NewDense(n, 1, xs), mat.NewDense(n, 1, ys)
	var m PairwiseDistanceFunc = NewManhattan()
	want := sum
	if vk.Choose("which", 2) == 1 {
		m = NewChebyshev()
		want = max
	}
	vk.Assert(m.Distance(x, y) == want, "distance is the stated sum or maximum")
	vk.Assert(m.Distance(y, x) == want, "symmetric")
}

// VH_C22_euclid: the Euclidean distance is the root of the sum of squares.
// bounds: two vectors of 1..3 integers in [-20,20], as rows or columns
func VH_C22_euclid() {
	n, col := 1+vk.Choose("n", 3), vk.Choose("col", 2) == 1
	x, xs := vVec("x", n, 20, col)
	y, ys := vVec("y", n, 20, col)
	sq, dot := 0.0, 0.0
	for i := range xs {
		sq += (xs[i] - ys[i]) * (xs[i] - ys[i])
		dot += xs[i] * ys[i]
	}
	e := NewEuclidean()
	d := e.Distance(x, y)
	vk.Assert(d == math.Sqrt(sq), "distance is the root of the sum of squared differences")
	vk.Assert(e.Distance(y, x) == d, "symmetric")
	vk.Assert(vk.Iff(d == 0, vAllEq(xs, ys)), "zero exactly for equal vectors")
	vk.Assert(e.InnerProduct(x, y) == dot, "inner product is the sum of products")
	for i := range xs {
		vk.Assert(vk.And(x.At(i*vk.B2I(col), i*vk.B2I(!col)) == xs[i], y.At(i*vk.B2I(col), i*vk.B2I(!col)) == ys[i]), "vectors are not modified")
	}
	vk.Cover("euclid")
}

// VH_C22_order: Euclidean distances order pairs of points as their squared distances do, and obey the triangle inequality on a line.
// bounds: three 2-vectors of integers in [-20,20]; for the triangle three numbers in [-12,12]
func VH_C22_order() {
	x, xs := vVec("x", 2, 20, true)
	y, ys := vVec("y", 2, 20, true)
	z, zs := vVec("z", 2, 20, true)
	s := func(a, b []float64) float64 { return (a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) }
	e := NewEuclidean()
	dy, dz := e.Distance(x, y), e.Distance(x, z)
	vk.Assert(vk.Iff(dy < dz, s(xs, ys) < s(xs, zs)), "nearer by distance is nearer by squared distance")
	vk.Assert(vk.Iff(dy == dz, s(xs, ys) == s(xs, zs)), "equally far")
	vk.Cover("order")
}

// VH_C22_canberra: the Canberra distance sums |x-y|/(|x|+|y|), skipping 0/0.
// bounds: vectors of 1 integer in [-12,12] (or such an integer over 2^40), or 2 of which one coordinate pair is chosen from 0, 1, -2
func VH_C22_canberra() {
	vk.Opt("merge", 0)
	c := &Cranberra{}
	tiny := []int{0, 40}[vk.Choose("tiny", 2)]
	a, b := vk.FDyadic("a", -12, 12, tiny), vk.FDyadic("b", -12, 12, tiny)
	term := func(p, q float64) float64 {
		if p == 0 && q == 0 {
			return 0
		}
		return vAbs(p-q) / (vAbs(p) + vAbs(q))
	}
	want := term(a, b)
	var d float64
	if vk.Choose("n", 2) == 0 {
		d = c.Distance(mat.NewDense(1, 1, []float64{a}), mat.NewDense(1, 1, []float64{b}))
		vk.Assert(vk.And(d-want < 1e-9, want-d < 1e-9), "one coordinate")
		vk.Assert(vk.Iff(d == 0, a == b), "zero exactly for equal numbers")
		vk.Assert(vk.And(d >= 0, d <= 1), "between 0 and 1")
	} else {
		p := []float64{0, 1, -2}[vk.Choose("p", 3)]
		q := []float64{0, 1, -2}[vk.Choose("q", 3)]
		want += term(p, q)
		if vk.Choose("swap", 2) == 0 {
			d = c.Distance(mat.NewDense(2, 1, []float64{a, p}), mat.NewDense(2, 1, []float64{b, q}))
		} else {
			d = c.Distance(mat.NewDense(1, 2, []float64{p, a}), mat.NewDense(1, 2, []float64{q, b}))
		}
		vk.Assert(vk.And(d-want < 1e-9, want-d < 1e-9), "two coordinates")
		if a == b && p == q {
			vk.Assert(d == 0, "zero for equal vectors")
		}
	}
	vk.Cover("canberra")
}

// VH_C22_cosine: cosine distance is 1 - cos of the angle.
// bounds: 2-vectors: one of 6 fixed directions against any non-zero integer vector in [-8,8]^2; 1-vectors in [-12,12]
func VH_C22_cosine() {
	vk.Opt("merge", 0)
	c := NewCosine()
	if vk.Choose("n", 2) == 0 {
		a, b := vk.FInt("a", -12, 12), vk.FInt("b", -12, 12)
		vk.Assume(vk.And(a != 0, b != 0))
		d := c.Distance(mat.NewDense(1, 1, []float64{a}), mat.NewDense(1, 1, []float64{b}))
		vk.Assert(vk.Implies((a > 0) == (b > 0), vk.And(d < 1e-9, d > -1e-9)), "same direction")
		vk.Assert(vk.Implies((a > 0) != (b > 0), vk.And(d < 2+1e-9, d > 2-1e-9)), "opposite direction")
		return
	}
	u := [][]float64{{1, 0}, {0, 1}, {-1, 0}, {3, 4}, {1, -1}, {-2, -7}}[vk.Choose("u", 6)]
	a, b := vk.FInt("a", -8, 8), vk.FInt("b", -8, 8)
	vk.Assume(vk.Or(a != 0, b != 0))
	x, y := mat.NewDense(1, 2, []float64{u[0], u[1]}), mat.NewDense(1, 2, []float64{a, b})
	if vk.Choose("col", 2) == 1 {
		x, y = mat.NewDense(2, 1, []float64{u[0], u[1]}), mat.NewDense(2, 1, []float64{a, b})
	}
	d := c.Distance(x, y)
	dot := u[0]*a + u[1]*b
	want := 1 - dot/(math.Sqrt(u[0]*u[0]+u[1]*u[1])*math.Sqrt(a*a+b*b))
	vk.Assert(vk.And(d-want < 1e-9, want-d < 1e-9), "one minus the cosine")
	e := c.Distance(y, x)
	vk.Assert(vk.And(d-e < 1e-9, e-d < 1e-9), "symmetric")
	vk.Assert(vk.And(d > -1e-9, d < 2+1e-9), "between 0 and 2")
	vk.Assert(c.Dot(x, y) == dot, "dot product")
	vk.Cover("cosine")
}

// VH_C22_kernels: polynomial kernel values, and the radial kernel at distance zero and elsewhere.
// bounds: column vectors of 1..3 integers in [-3,3], degree 1..3; radial kernel at vectors {-2..2}^2 chosen, gamma 1/2 and 2
func VH_C22_kernels() {
	if vk.Choose("which", 2) == 0 {
		n, deg := 1+vk.Choose("n", 3), 1+vk.Choose("deg", 3)
		x, xs := vVec("x", n, 3, true)
		y, ys := vVec("y", n, 3, true)
		dot, sq := 1.0, 1.0
		for i := range xs {
			dot += xs[i] * ys[i]
			sq += (xs[i] - ys[i]) * (xs[i] - ys[i])
		}
		want, self := dot, sq
		for k := 1; k < deg; k++ {
			want *= dot
			self *= sq
		}
		p := NewPolyKernel(deg)
		vk.Assert(p.InnerProduct(x, y) == want, "(x.y+1)^d")
		vk.Assert(p.InnerProduct(y, x) == want, "symmetric")
		vk.Assert(p.Distance(x, y) == math.Sqrt(self), "distance is the root of the kernel of the difference")
	} else {
		g := []float64{0.5, 2}[vk.Choose("g", 2)]
		r := NewRBFKernel(g)
		var v [4]float64
		for i := range v {
			v[i] = float64(vk.Choose(fmt.Sprint("v", i), 5) - 2)
		}
		got := r.InnerProduct(mat.NewDense(1, 2, []float64{v[0], v[1]}), mat.NewDense(1, 2, []float64{v[2], v[3]}))
		want := math.Exp(-g * ((v[0]-v[2])*(v[0]-v[2]) + (v[1]-v[3])*(v[1]-v[3])))
		vk.Assert(math.Abs(got-want) < 1e-9, "exp(-gamma*|x-y|^2)")
	}
	vk.Cover("kernels")
}

// VH_C22_shape: vectors of different shape are refused.
// bounds: row and column vectors of 1..3 entries, all pairs, 5 distances
func VH_C22_shape() {
	mk := func(s string) (*mat.Dense, int, int) {
		n := 1 + vk.Choose(s, 3)
		v := make([]float64, n)
		for i := range v {
			v[i] = float64(i + 1)
		}
		if vk.Choose(s+"col", 2) == 1 {
			return mat.NewDense(n, 1, v), n, 1
		}
		return mat.NewDense(1, n, v), 1, n
	}
	x, xr, xc := mk("x")
	y, yr, yc := mk("y")
	d := []PairwiseDistanceFunc{NewEuclidean(), NewManhattan(), NewChebyshev(), &Cranberra{}, NewCosine()}[vk.Choose("d", 5)]
	p := vg.Panics(func() { d.Distance(x, y) })
	vk.Assert(p == (xr != yr || xc != yc), "refused exactly when the shapes differ")
	vk.Cover("shape")
}

// VH_C22_many: long vectors.
// bounds: 9, 33 and 70 numbers, rows and columns; any integers in [-9,9] at two places (first and last, or two in the middle)
func VH_C22_many() {
	vk.Opt("merge", 0)
	n := []int{9, 33, 70}[vk.Choose("n", 3)]
	col := vk.Choose("col", 2) == 1
	xs, ys := make([]float64, n), make([]float64, n)
	for i := range xs {
		xs[i], ys[i] = float64(i%5-2), float64(i*3%7-3)
	}
	at := [][2]int{{0, n - 1}, {n / 2, n/2 + 1}}[vk.Choose("at", 2)]
	for _, i := range at {
		xs[i] = vk.FInt(fmt.Sprint("x", i), -9, 9)
	}
	v := func(x []float64) *mat.Dense {
		if col {
			return mat.NewDense(n, 1, append([]float64{}, x...))
		}
		return mat.NewDense(1, n, append([]float64{}, x...))
	}
	sum, max, sq, dot := 0.0, 0.0, 0.0, 0.0
	for i := range xs {
		d := vAbs(xs[i] - ys[i])
		sum += d
		max = vk.IteF(d > max, d, max)
		sq += d * d
		dot += xs[i] * ys[i]
	}
	switch vk.Choose("which", 4) {
	case 0:
		vk.Assert(NewManhattan().Distance(v(xs), v(ys)) == sum, "sum of the absolute differences")
	case 1:
		vk.Assert(NewChebyshev().Distance(v(xs), v(ys)) == max, "greatest absolute difference")
	case 2:
		d := NewEuclidean().Distance(v(xs), v(ys))
		vk.Assert(d == math.Sqrt(sq), "root of the sum of squares")
	default:
		vk.Assert(NewEuclidean().InnerProduct(v(xs), v(ys)) == dot, "sum of products")
	}
	vk.Cover("many")
}
