package knn

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

func vAbs(x float64) float64 { return vk.IteF(x < 0, -x, x) }

// vParts are the ways of giving classes to rows, up to renaming of classes.
func vParts(n int) [][]int {
	return [][][]int{{{}}, {{0}}, {{0, 0}, {0, 1}}, {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 1, 2}},
		{{0, 0, 1, 1}, {0, 1, 1, 2}, {2, 1, 0, 2}, {0, 0, 0, 1}}}[n]
}

// vKnn is a training set, queries and what a nearest-neighbour vote may answer.
type vKnn struct {
	train, query *vg.Grid
	x, q         [][]float64
	cls          []int
	metric       string // metric to judge by, if another than asked for
}

// vKnnData: n training rows and m queries with d integer features each; layout says what else the grids hold:
// 0: class last; 1: class first; 2: a categorical and a binary column that play no role; 3: the binary one alone
func vKnnData(n, m, d, hi, layout int) *vKnn { return vKnnDataQ(n, m, d, hi, hi, layout) }

func vKnnDataQ(n, m, d, hi, qhi, layout int) *vKnn {
	v := &vKnn{cls: vParts(n)[vk.Choose("classes", len(vParts(n)))]}
	var as []base.Attribute
	feat := 0
	cls := 0
	k := vg.Attr(vg.C, "k")
	for _, c := range []string{"a", "b", "c"} {
		k.GetSysValFromString(c)
	}
	if layout == 1 {
		as = append(as, k)
		feat = 1
	}
	for c := 0; c < d; c++ {
		as = append(as, base.NewFloatAttribute(fmt.Sprint("f", c)))
	}
	if layout != 1 {
		cls = len(as)
		as = append(as, k)
	}
	if layout == 2 {
		as = append(as, vg.Attr(vg.C, "other", "x", "y"), vg.Attr(vg.B, "bit"))
	}
	if layout == 3 {
		as = append(as, vg.Attr(vg.B, "bit"))
	}
	mk := func(name string, rows int, xs *[][]float64, train bool) *vg.Grid {
		h := hi
		if !train {
			h = qhi
		}
		for r := 0; r < rows; r++ {
			var row []float64
			for c := 0; c < d; c++ {
				row = append(row, vk.FInt(fmt.Sprint(name, r, c), -h, h))
			}
			*xs = append(*xs, row)
		}
		return vg.New(as, []int{cls}, rows, func(r, c int) []byte {
			switch {
			case c == cls && train:
				return vg.Cat(v.cls[r])
			case c == cls:
				return vg.Cat(r % 3)
			case c >= feat && c < feat+d:
				return vg.Float((*xs)[r][c-feat])
			case layout == 2 && c == feat+d+1:
				return vg.Cat((r + 1) % 2)
			}
			return []byte{byte(r % 2)}
		})
	}
	v.train = mk("x", n, &v.x, true)
	v.query = mk("q", m, &v.q, false)
	return v
}

// vDist is the distance of a training row from a query, up to a monotone function.
func (v *vKnn) dist(metric string, i, j int) float64 {
	s := 0.0
	for c := range v.q[j] {
		e := v.q[j][c] - v.x[i][c]
		if metric == "euclidean" {
			s += e * e
		} else {
			s += vAbs(e)
		}
	}
	return s
}

// vVoted: the predicted class of query j may be got from the votes of some k nearest rows.
func (v *vKnn) voted(metric string, k, j int, got string, weighted bool) bool {
	if v.metric != "" {
		metric = v.metric
	}
	n := len(v.x)
	dist := make([]float64, n)
	for i := range dist {
		dist[i] = v.dist(metric, i, j)
	}
	ok := false
	for set := 0; set < 1<<uint(n); set++ {
		size, far, near := 0, -1.0, 1e300
		var votes [3]int
		for i := 0; i < n; i++ {
			if set>>uint(i)&1 == 1 {
				size++
				votes[v.cls[i]]++
				far = vk.IteF(dist[i] > far, dist[i], far)
			} else {
				near = vk.IteF(dist[i] < near, dist[i], near)
			}
		}
		if size != k {
			continue
		}
		c := int(got[0] - 'a')
		if weighted {
			if votes[c] == 0 {
				continue
			}
			// reciprocal distances in sixtieths; an exact match outweighs everything
			var w [3]int
			for i := 0; i < n; i++ {
				if set>>uint(i)&1 == 1 {
					q := 100000
					for d := 1; d <= 6; d++ {
						q = vk.IteInt(dist[i] == float64(d), 60/d, q)
					}
					w[v.cls[i]] += q
				}
			}
			may := true
			for o := range w {
				may = vk.And(may, vk.Or(w[c] >= w[o], w[c] >= 100000))
			}
			ok = vk.Or(ok, vk.And(far <= near, may))
			continue
		}
		if votes[c] >= votes[0] && votes[c] >= votes[1] && votes[c] >= votes[2] {
			ok = vk.Or(ok, far <= near)
		}
	}
	return ok
}

func (v *vKnn) predict(metric, algo string, k int, weighted, optimise bool, label string) {
	c := NewKnnClassifier(metric, algo, k)
	c.Weighted = weighted
	c.AllowOptimisations = optimise
	vk.Assert(c.Fit(v.train.Inst) == nil, label+": training data is accepted")
	p, err := c.Predict(v.query.Inst)
	vk.Assert(err == nil && p != nil, label+": compatible data is accepted")
	_, rows := p.Size()
	vk.Assert(rows == len(v.q), label+": one prediction for each row")
	for j := range v.q {
		got := base.GetClass(p, j)
		vk.Assert(got == "a" || got == "b" || got == "c", label+": a class is predicted")
		vk.Assert(v.voted(metric, k, j, got, weighted), label+": the class has the most votes among the nearest rows")
	}
	for r := range v.x {
		vk.Assert(base.GetClass(v.train.Inst, r) == string(rune('a'+v.cls[r])), label+": training data is not modified")
	}
	vk.Cover(label)
}
