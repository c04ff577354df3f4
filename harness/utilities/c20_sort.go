package utilities

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

// VH_C20_sorted: sorting a table of distances lists every row once, nearest first.
// bounds: 0..4 rows (numbers with gaps), any integer distances in [-9,9], any map iteration order
func VH_C20_sorted() {
	vk.Opt("maporder", 1)
	n := vk.Choose("rows", 5)
	m := map[int]float64{}
	for i := 0; i < n; i++ {
		m[2*i+1] = vk.FInt(fmt.Sprint("d", i), -9, 9)
	}
	s := SortIntMap(m)
	vk.Assert(len(s) == n && len(m) == n, "every row is listed")
	seen := map[int]bool{}
	for i, k := range s {
		_, ok := m[k]
		vk.Assert(ok && !seen[k], "every row is listed once")
		seen[k] = true
		if i > 0 {
			vk.Assert(m[s[i-1]] <= m[k], "nearer rows come first")
		}
	}
}

// VH_C20_vectors: rows become matrices of one row with the same numbers.
// bounds: 1..3 numbers of any bits
func VH_C20_vectors() {
	n := 1 + vk.Choose("n", 3)
	x := make([]float64, n)
	v := mat.NewVecDense(n, nil)
	for i := range x {
		x[i] = vk.F64(fmt.Sprint("x", i))
		v.SetVec(i, x[i])
	}
	for _, d := range []*mat.Dense{FloatsToMatrix(x), VectorToMatrix(v)} {
		r, c := d.Dims()
		vk.Assert(r == 1 && c == n, "there is one row")
		for i := range x {
			vk.Assert(vk.SameBits(d.At(0, i), x[i]), "the numbers are the same")
		}
	}
	VectorToMatrix(v).Set(0, 0, 5)
	vk.Assert(vk.SameBits(v.AtVec(0), x[0]), "the vector is not touched")
}
