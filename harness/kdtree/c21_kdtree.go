package kdtree

import (
	"fmt"

	"github.com/sjwhitworth/golearn/metrics/pairwise"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

func vAbs(x float64) float64 { return vk.IteF(x < 0, -x, x) }

// vBrute checks a search result against the distances to every point.
func vBrute(n, k int, idx []int, length, want []float64, label string) {
	vk.Assert(len(idx) == k && len(length) == k, label+": k results")
	used := make([]bool, n)
	for j, i := range idx {
		vk.Assert(i >= 0 && i < n, label+": existing points are returned")
		vk.Assert(!used[i], label+": no point is returned twice")
		used[i] = true
		vk.Assert(length[j] == want[i], label+": the length is the distance of the returned point")
		if j > 0 {
			vk.Assert(length[j-1] <= length[j], label+": nearest first")
		}
	}
	for i := range used {
		if !used[i] && k > 0 {
			vk.Assert(want[i] >= length[k-1], label+": no nearer point is left out")
		}
	}
	vk.Cover(label)
}

// vSearch builds a tree over n symbolic points and compares a search with the distances to all of them.
func vSearch(n, dim, k, hi int, which int) {
	vk.Opt("merge", 0)
	data := make([][]float64, n)
	for i := range data {
		for c := 0; c < dim; c++ {
			data[i] = append(data[i], vk.FInt(fmt.Sprint("p", i, "_", c), -hi, hi))
		}
	}
	var target []float64
	for c := 0; c < dim; c++ {
		target = append(target, vk.FInt(fmt.Sprint("t", c), -hi, hi))
	}
	vFind(data, target, k, which)
}

func vFind(data [][]float64, target []float64, k, which int) {
	n := len(data)
	orig := make([][]float64, n)
	for i := range data {
		orig[i] = append([]float64{}, data[i]...)
	}
	var m pairwise.PairwiseDistanceFunc = pairwise.NewManhattan()
	switch which {
	case 1:
		m = pairwise.NewEuclidean()
	case 2:
		m = pairwise.NewChebyshev()
	}
	want := make([]float64, n)
	for i := range data {
		if which == 1 {
			want[i] = m.Distance(vg.Row(target), vg.Row(orig[i]))
			continue
		}
		for c := range target {
			d := vAbs(target[c] - data[i][c])
			if which == 0 {
				want[i] += d
			} else {
				want[i] = vk.IteF(d > want[i], d, want[i])
			}
		}
	}
	t := New()
	vk.Assert(t.Build(data) == nil, "points of equal dimension are accepted")
	idx, length, err := t.Search(k, m, target)
	vk.Assert(err == nil, "as many neighbours as points can be asked for")
	vBrute(n, k, idx, length, want, "search")
	for i := range orig {
		for c := range orig[i] {
			vk.Assert(orig[i][c] == data[i][c], "the data is not modified")
		}
	}
}

// VH_C21_line: searching points on a line finds the nearest ones.
// bounds: 1..4 (thorough 5) points with one integer coordinate in [-12,12], 1..n neighbours, Manhattan distance
// time: 60 300
func VH_C21_line() {
	n := 1 + vk.Choose("n", vk.B2I(vk.Thorough())+4)
	vSearch(n, 1, 1+vk.Choose("k", n), 12, 0)
}

// VH_C21_plane: searching points in the plane finds the nearest ones.
// bounds: 1..3 (thorough 4) points with two integer coordinates in [-8,8], 1..n neighbours, Manhattan, Euclidean and Chebyshev distance
// time: 60 400
func VH_C21_plane() {
	n := 1 + vk.Choose("n", vk.B2I(vk.Thorough())+3)
	vSearch(n, 2, 1+vk.Choose("k", n), 8, vk.Choose("metric", 3))
}

// VH_C21_cosine: searching by cosine distance finds the points of nearest direction.
// bounds: 1..3 (thorough 4) points from 9 directions and lengths, 2 targets, 1..n neighbours
// time: 60 400
func VH_C21_cosine() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("n", vk.B2I(vk.Thorough())+3)
	k := 1 + vk.Choose("k", n)
	px := []float64{1, -1, 3, -4, 2, 1, -1, 5, -3}
	py := []float64{2, 50, 1, -3, -2, 60, -5, 0, 0}
	data := make([][]float64, n)
	for i := range data {
		d := vk.Int(fmt.Sprint("p", i), 0, len(px)-1)
		x, y := px[0], py[0]
		for j := range px {
			x, y = vk.IteF(d == j, px[j], x), vk.IteF(d == j, py[j], y)
		}
		data[i] = []float64{x, y}
	}
	target := [][]float64{{1, 40}, {-2, 3}}[vk.Choose("target", 2)]
	m := pairwise.NewCosine()
	want := make([]float64, n)
	for i := range data {
		want[i] = m.Distance(vg.Row(target), vg.Row(data[i]))
	}
	t := New()
	vk.Assert(t.Build(data) == nil, "points of equal dimension are accepted")
	idx, length, err := t.Search(k, m, target)
	vk.Assert(err == nil, "as many neighbours as points can be asked for")
	vBrute(n, k, idx, length, want, "cosine search")
}

// VH_C21_refuse: searches and builds that cannot be honoured are refused.
// bounds: 0..3 points of dimension 1..2, up to 4 neighbours, target dimension 1..2
func VH_C21_refuse() {
	n := vk.Choose("n", 4)
	d := 1 + vk.Choose("d", 2)
	odd := vk.Choose("odd", n+1)
	var data [][]float64
	for i := 0; i < n; i++ {
		k := d
		if i == odd {
			k = 3 - d
		}
		var p []float64
		for c := 0; c < k; c++ {
			p = append(p, vk.FInt(fmt.Sprint("p", i, c), -5, 5))
		}
		data = append(data, p)
	}
	t := New()
	err := t.Build(data)
	mixed := odd < n && n > 1
	vk.Assert((err != nil) == (n == 0 || mixed), "no points and points of different dimension are refused")
	if err != nil {
		return
	}
	if n == 1 && odd == 0 {
		d = 3 - d
	}
	k := 1 + vk.Choose("k", 4)
	td := 1 + vk.Choose("td", 2)
	target := make([]float64, td)
	for c := range target {
		target[c] = vk.FInt(fmt.Sprint("t", c), -5, 5)
	}
	_, _, err = t.Search(k, pairwise.NewManhattan(), target)
	vk.Assert((err != nil) == (k > n || td != d), "too many neighbours and targets of another dimension are refused")
	vk.Cover("refusals")
}

// VH_C21_many: searching many points finds the nearest ones.
// bounds: 21 (thorough 60) points on a line or in the plane, some of them equal, a target with any integer coordinates in [-8,8], 1, 2 or 6 neighbours, Manhattan, Chebyshev and, on the line, Euclidean distance
// time: 60 300
func VH_C21_many() {
	vk.Opt("merge", 0)
	n := 21 + 39*vk.B2I(vk.Thorough())
	dim := 1 + vk.Choose("dim", 2)
	data := make([][]float64, n)
	for i := range data {
		data[i] = []float64{float64((i*7)%17 - 8), float64((i*i*5+i)%13 - 6)}[:dim]
	}
	target := []float64{vk.FInt("t0", -8, 8), 0}[:dim]
	if dim == 2 {
		target[1] = float64(vk.Choose("t1", 3)*5 - 6)
	}
	vFind(data, target, []int{1, 2, 6}[vk.Choose("k", 3)], []int{0, 2, 1}[vk.Choose("metric", 4-dim)])
}
