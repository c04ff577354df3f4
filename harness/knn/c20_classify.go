package knn

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C20_line: the predicted class is one that gets most votes among the K nearest rows (one feature).
// bounds: 1..3 training rows, 1..2 queries, one integer feature in [-9,9], 3 classes, every K, both algorithms, both metrics, 3 layouts, no optimisation
// time: 60 300
func VH_C20_line() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("n", 3)
	k := 1 + vk.Choose("k", n)
	algo := []string{"linear", "kdtree"}[vk.Choose("algo", 2)]
	m, layout := 1, 0
	if n <= 2 {
		m = 2
		layout = vk.Choose("layout", 3)
	}
	vKnnData(n, m, 1, 9, layout).predict([]string{"euclidean", "manhattan"}[vk.Choose("metric", 2)], algo, k, false, false, "line")
}

// VH_C20_plane: the predicted class is one that gets most votes among the K nearest rows (two features).
// bounds: 2..3 training rows, 1 query, two integer features in [-3,3], 3 classes, every K, both algorithms, Manhattan (thorough also Euclidean), with optimisations allowed for 2 rows
// time: 60 300
func VH_C20_plane() {
	vk.Opt("merge", 0)
	n := 2 + vk.Choose("n", 2)
	k := 1 + vk.Choose("k", n)
	algo := []string{"linear", "kdtree"}[vk.Choose("algo", 2)]
	fast := n == 2 && vk.Choose("fast", 2) == 1
	vKnnData(n, 1, 2, 3, 0).predict([]string{"manhattan", "euclidean"}[vk.Choose("metric", 1+vk.B2I(vk.Thorough()))], algo, k, false, fast, "plane")
}

// VH_C20_optimised: the optimised search answers what the plain one may answer.
// bounds: 1..3 training rows, 1..2 queries, 1..2 integer features in [-6,6], 3 classes, every K, Euclidean; 2 rows also with a binary column, which plays no role
// time: 60 300
func VH_C20_optimised() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("n", 3)
	k := 1 + vk.Choose("k", n)
	d := 1 + vk.Choose("d", 2)
	m := 1
	if n <= 2 {
		m = 2
	}
	layout := 0
	if n == 2 {
		layout = 3 * vk.Choose("bit", 2)
	}
	vKnnData(n, m, d, 6, layout).predict("euclidean", "linear", k, false, true, "optimised")
}

// VH_C20_four: both searches still answer rightly if the rows have to be moved further to be sorted.
// bounds: 4 training rows, 1 query, one integer feature in [-9,9], 3 classes, every K, the optimised search (thorough also the plain ones), Euclidean
// time: 40 200
func VH_C20_four() {
	vk.Opt("merge", 0)
	n := 4
	k := 1 + vk.Choose("k", n)
	how := vk.Choose("how", 1+2*vk.B2I(vk.Thorough()))
	vKnnData(n, 1, 1, 9, 0).predict("euclidean", []string{"linear", "linear", "kdtree"}[how], k, false, how == 0, "four")
}

// vLaidOut copies a grid of two features and a class into another layout.
func vLaidOut(g *vg.Grid, layout int, swap bool) *vg.Grid {
	d := base.NewDenseInstances()
	r := &vg.Grid{Inst: d, Attrs: g.Attrs, Specs: make([]base.AttributeSpec, 3)}
	add := func(group string, i int) {
		s, err := d.AddAttributeToAttributeGroup(g.Attrs[i], group)
		if err != nil {
			panic(err)
		}
		r.Specs[i] = s
	}
	group := func(n string) {
		if d.CreateAttributeGroup(n, 8) != nil {
			panic("group")
		}
	}
	f0, f1 := 0, 1
	if swap {
		f0, f1 = 1, 0
	}
	switch layout {
	case 0: // one group of features
		group("F")
		group("K")
		add("F", f0)
		add("F", f1)
		add("K", 2)
	case 1: // two groups of features
		group("F")
		group("G")
		group("K")
		add("F", f0)
		add("G", f1)
		add("K", 2)
	}
	d.AddClassAttribute(g.Attrs[2])
	_, rows := g.Inst.Size()
	d.Extend(1)
	if rows > 1 {
		d.Extend(rows - 1)
	}
	for row := 0; row < rows; row++ {
		for c := range g.Attrs {
			d.Set(r.Specs[c], row, g.Vals[row][c])
		}
	}
	r.Vals = g.Vals
	return r
}

// VH_C20_layouts: how the columns are grouped and ordered, in the training data or in the queries, does not matter.
// bounds: 2 training rows, 1 query, two integer features in [-6,6] in 2 groupings each, either order in the queries, K 1..2, Euclidean with optimisation
// time: 60 300
func VH_C20_layouts() {
	vk.Opt("merge", 0)
	k := 1 + vk.Choose("k", 2)
	v := vKnnData(2, 1, 2, 6, 0)
	v.train = vLaidOut(v.train, vk.Choose("train", 2), false)
	v.query = vLaidOut(v.query, vk.Choose("query", 2), vk.Choose("swap", 2) == 1)
	v.predict("euclidean", "linear", k, false, true, "layouts")
}

// VH_C20_refuse: unknown metrics and algorithms, incompatible data and too many neighbours are errors.
// bounds: 1..2 training rows, 1 query, up to 4 neighbours, with and without weights and optimisation
func VH_C20_refuse() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("n", 2)
	v := vKnnDataQ(n, 1, 1, 1, 0, 0)
	metric := []string{"euclidean", "manhattan", "cosine", "euclid", ""}[vk.Choose("metric", 5)]
	algo := []string{"linear", "kdtree", "tree"}[vk.Choose("algo", 3)]
	k := 1 + vk.Choose("k", 4)
	c := NewKnnClassifier(metric, algo, k)
	c.Weighted = vk.Choose("weighted", 2) == 1
	c.AllowOptimisations = vk.Choose("optimise", 2) == 1
	c.Fit(v.train.Inst)
	q := v.query
	alien := vk.Choose("alien", 2) == 1
	if alien {
		q = vg.New([]base.Attribute{base.NewFloatAttribute("g"), v.train.Attrs[1]}, []int{1}, 1, func(r, c int) []byte { return make([]byte, 8) })
	}
	bad := metric == "euclid" || metric == "" || algo == "tree" || alien || k > n
	var err error
	panicked := vg.Panics(func() { _, err = c.Predict(q.Inst) })
	vk.Assert(!panicked, "no panic")
	vk.Assert((err != nil) == bad, "exactly what cannot be answered is refused")
	vk.Cover("refusals")
}

// VH_C20_empty: without training rows or without queries there is an answer for every query, or an error if there are too few rows.
// bounds: 0..2 training rows and 0..1 queries, not both above 0, K 0..rows+1, both algorithms, all three metrics, with and without weights and optimisation
func VH_C20_empty() {
	vk.Opt("merge", 0)
	n := vk.Choose("n", 3)
	m := 0
	if n == 0 {
		m = vk.Choose("m", 2)
	}
	v := vKnnDataQ(n, m, 1, 1, 1, 0)
	k := vk.Choose("k", n+2)
	c := NewKnnClassifier([]string{"euclidean", "manhattan", "cosine"}[vk.Choose("metric", 3)], "linear", k)
	if n > 0 && vk.Choose("kdtree", 2) == 1 {
		c.Algorithm = "kdtree"
	}
	c.Weighted = vk.Choose("weighted", 2) == 1
	c.AllowOptimisations = vk.Choose("optimise", 2) == 1
	c.Fit(v.train.Inst)
	var p base.FixedDataGrid
	var err error
	panicked := vg.Panics(func() { p, err = c.Predict(v.query.Inst) })
	vk.Assert(!panicked, "no panic without rows")
	vk.Assert((err != nil) == (k > n), "too many neighbours are refused, and nothing else")
	if err == nil {
		_, rows := p.Size()
		vk.Assert(rows == m, "one answer for every query")
	}
	vk.Cover("no rows")
}

// VH_C20_floatclass: a numeric class attribute is predicted, not used as a feature, wherever it stands.
// bounds: 2..3 training rows, 1 query, one integer feature in [-9,9], a class of two numbers in either position, every K, both algorithms and metrics
func VH_C20_floatclass() {
	vk.Opt("merge", 0)
	n := 2 + vk.Choose("n", 2)
	k := 1 + vk.Choose("k", n)
	v := &vKnn{cls: vParts(n)[1+vk.Choose("classes", len(vParts(n))-2)]}
	pos := vk.Choose("pos", 2)
	as := []base.Attribute{base.NewFloatAttribute("f"), base.NewFloatAttribute("f")}
	as[pos] = base.NewFloatAttribute("k")
	mk := func(name string, rows int, xs *[][]float64, train bool) *vg.Grid {
		for r := 0; r < rows; r++ {
			*xs = append(*xs, []float64{vk.FInt(fmt.Sprint(name, r), -9, 9)})
		}
		return vg.New(as, []int{pos}, rows, func(r, c int) []byte {
			if c != pos {
				return vg.Float((*xs)[r][0])
			}
			if train {
				return vg.Float([]float64{7, -40}[v.cls[r]])
			}
			return vg.Float(0)
		})
	}
	v.train = mk("x", n, &v.x, true)
	v.query = mk("q", 1, &v.q, false)
	metric := []string{"manhattan", "euclidean"}[vk.Choose("metric", 2)]
	c := NewKnnClassifier(metric, []string{"linear", "kdtree"}[vk.Choose("algo", 2)], k)
	c.Fit(v.train.Inst)
	p, err := c.Predict(v.query.Inst)
	vk.Assert(err == nil, "numeric classes are accepted")
	got := vg.GetF(p, p.AllClassAttributes()[0], 0)
	vk.Assert(vk.Or(got == 7, got == -40), "a class of the training data is predicted")
	for i, f := range []float64{7, -40} {
		if got == f {
			vk.Assert(v.voted(metric, k, 0, string(rune('a'+i)), false), "the class has the most votes among the nearest rows")
		}
	}
	vk.Cover("numeric class")
}

// VH_C20_many: the vote of many rows.
// bounds: 13 (thorough 30) training rows of one integer feature, some of them equal, 3 classes, a query at any integer in [-10,10], 1, 2, 5 or all neighbours, linear, optimised and k-d tree search
// time: 60 300
func VH_C20_many() {
	vk.Opt("merge", 0)
	n := 13 + 17*vk.B2I(vk.Thorough())
	as := []base.Attribute{base.NewFloatAttribute("f"), vg.Attr(vg.C, "k", "a", "b", "c")}
	xs, cls := make([]float64, n), make([]int, n)
	train := vg.New(as, []int{1}, n, func(r, c int) []byte {
		if c == 1 {
			cls[r] = (r*r + r/3) % 3
			return vg.Cat(cls[r])
		}
		xs[r] = float64((r*11)%19 - 9)
		return vg.Float(xs[r])
	})
	q := vk.FInt("q", -10, 10)
	query := vg.New(as, []int{1}, 1, func(r, c int) []byte {
		if c == 1 {
			return vg.Cat(0)
		}
		return vg.Float(q)
	})
	k := []int{1, 2, 5, n}[vk.Choose("k", 4)]
	how := vk.Choose("how", 3)
	m := NewKnnClassifier("euclidean", []string{"linear", "linear", "kdtree"}[how], k)
	m.AllowOptimisations = how == 1
	vk.Assert(m.Fit(train.Inst) == nil, "training data are accepted")
	p, err := m.Predict(query.Inst)
	vk.Assert(err == nil, "the query is answered")
	got := int(base.GetClass(p, 0)[0] - 'a')
	// the distance of the k-th nearest row; how many of each class are nearer, and as near
	far := 0.0
	for d := 0; d <= 20; d++ {
		within := 0
		for _, x := range xs {
			if x-q <= float64(d) && q-x <= float64(d) {
				within++
			}
		}
		if within >= k {
			far = float64(d)
			break
		}
	}
	var nearer, level [3]int
	rest := k
	for i, x := range xs {
		if x-q < far && q-x < far {
			nearer[cls[i]]++
			rest--
		} else if x-q <= far && q-x <= far {
			level[cls[i]]++
		}
	}
	ok := false
	for a := 0; a <= level[0]; a++ {
		for b := 0; b <= level[1] && a+b <= rest; b++ {
			c := rest - a - b
			if c > level[2] {
				continue
			}
			v := [3]int{nearer[0] + a, nearer[1] + b, nearer[2] + c}
			if v[got] >= v[0] && v[got] >= v[1] && v[got] >= v[2] {
				ok = true
			}
		}
	}
	vk.Assert(ok, "the class has the most votes among the nearest rows")
}

// VH_C20_far: the nearest row is found however far away the rows are, and however little their distances differ.
// bounds: 2 training rows of different classes, 1 query, one integer feature in [-2^26,2^26] of which rows differ by up to 4, K=1, Euclidean and Manhattan, both searches and the optimised one
// time: 40 200
func VH_C20_far() {
	vk.Opt("merge", 0)
	b := 1 << uint([]int{0, 13, 26}[vk.Choose("scale", 3)])
	base0 := vk.FInt("far", b, b)
	v := vKnnData(2, 1, 1, 2, 0)
	if v.cls[0] == v.cls[1] {
		return
	}
	for i := range v.x {
		v.x[i][0] += base0
		v.train.Inst.Set(v.train.Specs[0], i, vg.Float(v.x[i][0]))
	}
	how := vk.Choose("how", 4)
	v.predict([]string{"euclidean", "manhattan", "euclidean", "euclidean"}[how], []string{"linear", "linear", "kdtree", "linear"}[how], 1, false, how == 3, "far")
}
