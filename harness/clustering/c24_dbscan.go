package clustering

import (
	"fmt"
	"math/big"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

// vTable is a distance function given by a table over the ids that the rows hold.
type vTable struct{ d [][]float64 }

func (t *vTable) Distance(x, y *mat.Dense) float64 {
	xr, xc := x.Dims()
	yr, yc := y.Dims()
	if xr*xc != 1 || yr*yc != 1 {
		panic("one attribute was asked for")
	}
	return t.d[int(x.At(0, 0))][int(y.At(0, 0))]
}

// vClustered checks a clustering against the definition of DBSCAN for the given neighbourhoods.
func vClustered(m ClusterMap, near [][]bool, min int, label string) {
	n := len(near)
	core := make([]bool, n)
	for i := range near {
		k := 0
		for j := range near[i] {
			if near[i][j] {
				k++
			}
		}
		core[i] = k >= min
	}
	// components of core points
	comp := make([]int, n)
	nc := 0
	for i := range comp {
		comp[i] = -1
	}
	var visit func(i int)
	visit = func(i int) {
		comp[i] = nc
		for j := range near {
			if near[i][j] && core[j] && comp[j] < 0 {
				visit(j)
			}
		}
	}
	for i := range comp {
		if core[i] && comp[i] < 0 {
			visit(i)
			nc++
		}
	}
	in := make([]int, n)
	shown := make([]bool, nc)
	for id, ps := range m {
		vk.Assert(id >= 1 && id <= nc, label+": clusters are numbered from 1")
		vk.Assert(len(ps) >= min && len(ps) > 0, label+": clusters have the minimum number of points")
		c := -1
		for _, p := range ps {
			vk.Assert(p >= 0 && p < n, label+": clusters hold existing rows")
			vk.Assert(in[p] == 0, label+": a row is in at most one cluster, once")
			in[p] = id
			if core[p] {
				vk.Assert(c < 0 || c == comp[p], label+": a cluster is one density-connected set")
				c = comp[p]
			}
		}
		vk.Assert(c >= 0, label+": a cluster has a core point")
		vk.Assert(!shown[c], label+": a density-connected set is one cluster")
		shown[c] = true
		for p := range near {
			if core[p] && comp[p] == c {
				vk.Assert(in[p] == id, label+": a cluster holds all its core points")
			}
		}
		for _, p := range ps {
			reach := core[p]
			for q := range near {
				reach = reach || near[p][q] && core[q] && comp[q] == c
			}
			vk.Assert(reach, label+": every row of a cluster is within reach of its core")
		}
	}
	for c, s := range shown {
		// a set may go unreported only if it falls short of the minimum because other clusters hold its border
		size := 0
		for p := range near {
			mine := comp[p] == c
			for q := range near {
				mine = mine || !core[p] && in[p] == 0 && near[p][q] && comp[q] == c
			}
			if mine {
				size++
			}
		}
		vk.Assert(s || size < min, label+": every large enough density-connected set is reported")
	}
	for p := range near {
		if core[p] || in[p] != 0 {
			continue
		}
		for q := range near {
			vk.Assert(!(near[p][q] && core[q] && shown[comp[q]]) || vShort(near, core, comp, shown, p), label+": border rows belong to a cluster")
		}
	}
	vk.Cover(label)
}

// vShort: row p is within reach of a core that is not reported.
func vShort(near [][]bool, core []bool, comp []int, shown []bool, p int) bool {
	for q := range near {
		if near[p][q] && core[q] && !shown[comp[q]] {
			return true
		}
	}
	return false
}

// VH_C24_graphs: for every neighbourhood relation, the clusters are the density-connected sets.
// bounds: 0..4 (thorough 5) rows, every symmetric table of distances in {1-2^-34, 1, 1+2^-34}, radius 1, minimum count 1..rows
// time: 60 300
func VH_C24_graphs() {
	vk.Opt("merge", 0)
	n := vk.Choose("n", 5+vk.B2I(vk.Thorough()))
	min := 1
	if n > 0 {
		min = 1 + vk.Choose("min", n)
	}
	t := &vTable{}
	near := make([][]bool, n)
	for i := 0; i < n; i++ {
		t.d = append(t.d, make([]float64, n))
		near[i] = make([]bool, n)
		near[i][i] = true
		for j := 0; j < i; j++ {
			t.d[i][j] = vk.FDyadic(fmt.Sprint("d", i, j), 1<<34-1, 1<<34+1, 34)
			t.d[j][i] = t.d[i][j]
		}
	}
	g := vg.New([]base.Attribute{base.NewFloatAttribute("id"), base.NewFloatAttribute("noise")}, nil, n, func(r, c int) []byte {
		return vg.Float(float64(r * (1 + 7*c)))
	})
	m, err := DBSCAN(g.Inst, DBSCANParameters{ClusterParameters{g.Attrs[:1], t}, 1, min})
	vk.Assert(err == nil, "numeric data is accepted")
	for i := range near {
		for j := 0; j < i; j++ {
			near[i][j] = t.d[i][j] <= 1
			near[j][i] = near[i][j]
		}
	}
	vClustered(m, near, min, "graph")
}

// VH_C24_points: clusters of points under the real metrics.
// bounds: 1..4 points with one integer coordinate in [-8,8], radius 1..3 in halves, minimum count 1..3, Euclidean, Manhattan and Chebyshev distance
// time: 60 300
func VH_C24_points() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("n", 4)
	min := 1 + vk.Choose("min", 3)
	eps := float64(2+vk.Choose("eps", 3)) / 2
	ms := []pairwise.PairwiseDistanceFunc{pairwise.NewEuclidean(), pairwise.NewManhattan(), pairwise.NewChebyshev()}
	k := 0
	if n <= 2 {
		k = vk.Choose("metric", 3)
	} else {
		eps = 1.5
	}
	xs := make([]float64, n)
	g := vg.New([]base.Attribute{base.NewFloatAttribute("x")}, nil, n, func(r, c int) []byte {
		xs[r] = vk.FInt(fmt.Sprint("x", r), -8, 8)
		return vg.Float(xs[r])
	})
	m, err := DBSCAN(g.Inst, DBSCANParameters{ClusterParameters{g.Attrs, ms[k]}, eps, min})
	vk.Assert(err == nil, "numeric data is accepted")
	near := make([][]bool, n)
	for i := range near {
		near[i] = make([]bool, n)
		for j := range near {
			d := xs[i] - xs[j]
			near[i][j] = vk.And(d <= eps, -d <= eps)
		}
	}
	vClustered(m, near, min, "points")
}

// VH_C24_bits: the number of set bits of a set of rows.
// bounds: every set of up to 12 rows
func VH_C24_bits() {
	x := vk.U64("set")
	vk.Assume(x < 1<<12)
	want := 0
	for i := uint(0); i < 12; i++ {
		want += int(x >> i & 1)
	}
	vk.Assert(BitCount(big.NewInt(int64(x))) == want, "number of members")
	vk.Cover("bits")
}

// VH_C24_count: the rows within reach are counted rightly however many they are.
// bounds: any set of eight consecutive rows (0 to 7 or 64 to 71), alone and with all, none or three of another eight
func VH_C24_count() {
	b := make([]byte, 9)
	at := []int{8, 0}[vk.Choose("at", 2)]
	k := vk.Choose("others", 3)
	b[(at+1)%9] = []byte{0, 255, 0x92}[k]
	b[at] = vk.U8("b")
	want := []int{0, 8, 3}[k]
	for j := uint(0); j < 8; j++ {
		want += vk.IteInt(b[at]>>j&1 == 1, 1, 0)
	}
	vk.Assert(BitCount(new(big.Int).SetBytes(b)) == want, "the rows are counted")
}

// VH_C24_many: clusters of many points.
// bounds: 20 (thorough 70) points in groups on a line, one of them at any integer in [-9,9], radius 1, minimum count 1..4
// time: 60 300
func VH_C24_many() {
	vk.Opt("merge", 0)
	n := 20 + 50*vk.B2I(vk.Thorough())
	min := 1 + vk.Choose("min", 4)
	at := vk.Choose("at", 2) * (n - 1)
	xs := make([]float64, n)
	g := vg.New([]base.Attribute{base.NewFloatAttribute("x")}, nil, n, func(r, c int) []byte {
		xs[r] = float64((r*r*7+r*3)%(n+n/2)) - 8
		if r == at {
			xs[r] = vk.FInt("x", -9, 9)
		}
		return vg.Float(xs[r])
	})
	m, err := DBSCAN(g.Inst, DBSCANParameters{ClusterParameters{g.Attrs, pairwise.NewEuclidean()}, 1, min})
	vk.Assert(err == nil, "numeric data is accepted")
	near := make([][]bool, n)
	for i := range near {
		near[i] = make([]bool, n)
		for j := range near {
			d := xs[i] - xs[j]
			near[i][j] = vk.And(d <= 1, -d <= 1)
		}
	}
	vClustered(m, near, min, "many")
}
