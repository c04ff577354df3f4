package filters

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C16_bins: equal-width binning: every value gets a bin, in order of value, evenly spaced.
// bounds: 4 ranges, 1..4 bins, two values that are any multiples of 1/4 in [-16,16], inside or outside the range
func VH_C16_bins() {
	rg := [][2]float64{{0, 8}, {-4, 4}, {1, 1.5}, {5, 5}}[vk.Choose("range", 4)]
	bins := 1 + vk.Choose("bins", 4)
	// the training column holds the range's ends and something in between, in any order
	mid := (rg[0] + rg[1]) / 2
	train := [][]float64{{rg[0], mid, rg[1]}, {rg[1], rg[0], mid}, {mid, rg[1], rg[0]}}[vk.Choose("order", 3)]
	a := base.NewFloatAttribute("x")
	g := vg.New([]base.Attribute{a}, nil, 3, func(r, c int) []byte { return vg.Float(train[r]) })
	f := NewBinningFilter(g.Inst, bins)
	vk.Assert(f.AddAttribute(a) == nil, "float attribute accepted")
	vk.Assert(f.Train() == nil, "training succeeds")
	x := vk.FDyadic("x", -64, 64, 2)
	y := vk.FDyadic("y", -64, 64, 2)
	var cat *base.CategoricalAttribute
	for _, fa := range f.GetAttributesAfterFiltering() {
		vk.Assert(fa.Old == base.Attribute(a), "old attribute is the binned one")
		cat = fa.New.(*base.CategoricalAttribute)
	}
	vk.Assert(cat.GetName() == "x", "name kept")
	bin := func(v float64) int { return int(base.UnpackBytesToU64(f.Transform(a, cat, vg.Float(v)))) }
	bx, by := bin(x), bin(y)
	vk.Assert(vk.And(bx >= 0, bx <= bins), "the bin exists")
	vk.Assert(vk.Implies(x <= y, bx <= by), "bins are ordered like the values")
	lo, hi := rg[0], rg[1]
	vk.Assert(bin(lo) == 0, "the minimum is in the first bin")
	vk.Assert(vk.Implies(x <= lo, bx == 0), "values below the range share the first bin")
	if lo < hi {
		vk.Assert(bin(hi) == bins, "the maximum is in the last bin")
		vk.Assert(vk.Implies(x >= hi, bx == bins), "values above the range share the last bin")
		w := (hi - lo) / float64(bins)
		for k := 0; k < bins; k++ {
			l, h := lo+float64(k)*w, lo+float64(k+1)*w
			// clear of the bin edges (the code nudges values just below an edge up)
			vk.Assert(vk.Implies(vk.And(x > l+w/100, x < h-w/100), bx == k), "a value's bin is the width interval it lies in")
		}
		vk.Assert(len(cat.GetValues()) == bins+1, "one label per bin")
	}
	vk.Assert(bx < len(cat.GetValues()) || lo == hi, "the bin has a label")
	vk.Cover("bins")
}

// VH_C16_range: training finds the true minimum and maximum of each column.
// bounds: 2 columns of 3 integer values each in [-6,6], any map iteration order; both or one column discretised
func VH_C16_range() {
	vk.Opt("merge", 0)
	vk.Opt("maporder", 1)
	as := vg.Kinds(vg.F, vg.F)
	v := [2][3]float64{}
	g := vg.New(as, nil, 3, func(r, c int) []byte {
		x := vk.FInt(fmt.Sprintf("v%d%d", r, c), -6, 6)
		v[c][r] = x
		return vg.Float(x)
	})
	f := NewBinningFilter(g.Inst, 4)
	both := vk.Choose("both", 2) == 1
	f.AddAttribute(as[0])
	if both {
		f.AddAttribute(as[1])
	}
	vk.Assert(f.Train() == nil, "training succeeds")
	n := 1
	if both {
		n = 2
	}
	for c := 0; c < n; c++ {
		lo, hi := v[c][0], v[c][0]
		for _, x := range v[c][1:] {
			lo, hi = vk.IteF(x < lo, x, lo), vk.IteF(x > hi, x, hi)
		}
		bin := func(x float64) int { return int(base.UnpackBytesToU64(f.Transform(as[c], as[c], vg.Float(x)))) }
		vk.Assert(bin(lo) == 0, "smallest value in the first bin")
		vk.Assert(vk.Implies(lo < hi, bin(hi) == 4), "largest value in the last bin")
	}
	if !both {
		vk.Assert(vk.BytesEq(f.Transform(as[1], as[1], g.Vals[0][1]), g.Vals[0][1]), "other columns pass through")
	}
	vk.Cover("range")
}

// VH_C16_fine: values far from zero fall in the bins of their own digits.
// bounds: training values B+1, B+5 and any integer between, any query in [B-2,B+8], B = 2^25 or -2^25 (which needs double precision), 4 bins
func VH_C16_fine() {
	b := []float64{33554432, -33554432}[vk.Choose("from", 2)]
	as := vg.Kinds(vg.F)
	x := vk.FInt("x", 1, 5)
	at := vk.Choose("at", 3)
	g := vg.New(as, nil, 3, func(r, c int) []byte { return vg.Float(b + []float64{x, 1, 5}[(r+at)%3]) })
	f := NewBinningFilter(g.Inst, 4)
	f.AddAttribute(as[0])
	vk.Assert(f.Train() == nil, "training succeeds")
	q := vk.FInt("q", -2, 8)
	want := vk.IteF(q < 1, 1, vk.IteF(q > 5, 5, q)) - 1
	got := base.UnpackBytesToU64(f.Transform(as[0], as[0], vg.Float(b+q)))
	vk.Assert(float64(int(got)) == want, "a value's bin")
}

// VH_C16_labels: every bin has its own label, whatever the attribute's precision.
// bounds: precision 0..2, widths from 8 down to 1/64, 2..4 bins, 3 columns of which any subset is binned
func VH_C16_labels() {
	p := vk.Choose("prec", 3)
	w := []float64{8, 1, 0.25, 1.0 / 64}[vk.Choose("w", 4)]
	bins := 2 + vk.Choose("bins", 3)
	as := vg.Kinds(vg.F, vg.C, vg.F)
	as[0].(*base.FloatAttribute).Precision = p
	g := vg.New(as, []int{1}, 2, func(r, c int) []byte {
		if c == 1 {
			return vg.Cat(r)
		}
		return vg.Float(float64(r) * w)
	})
	f := NewBinningFilter(g.Inst, bins)
	sub := vk.Choose("sub", 4)
	if sub&1 != 0 {
		f.AddAttribute(as[0])
	}
	if sub&2 != 0 {
		f.AddAttribute(as[2])
	}
	vk.Assert(f.AddAttribute(as[1]) != nil, "categorical attributes are refused")
	vk.Assert(f.AddAttribute(base.NewFloatAttribute("other")) != nil, "unknown attributes are refused")
	vk.Assert(f.Train() == nil, "training succeeds")
	d := base.NewLazilyFilteredInstances(g.Inst, f)
	for i, a := range as {
		on := i == 0 && sub&1 != 0 || i == 2 && sub&2 != 0
		n := vg.HasName(d.AllAttributes(), a.GetName())
		vk.Assert(n != nil, "name kept")
		c, isCat := n.(*base.CategoricalAttribute)
		if !on {
			vk.Assert(n.Equals(a), "other attributes are kept")
			for r := 0; r < 2; r++ {
				vk.Assert(vk.BytesEq(vg.Get(d, n, r), g.Vals[r][i]), "other columns pass through")
			}
			continue
		}
		vk.Assert(isCat, "a binned attribute is categorical")
		vk.Assert(len(c.GetValues()) == bins+1, "one label per bin")
		for r := 0; r < 2; r++ {
			k := base.UnpackBytesToU64(vg.Get(d, n, r))
			vk.Assert(int(k) < len(c.GetValues()), "every bin has a label")
			vk.Assert(c.GetStringFromSysVal(vg.Get(d, n, r)) == c.GetValues()[k], "label of the bin")
		}
	}
	cls := d.AllClassAttributes()
	vk.Assert(len(cls) == 1 && cls[0].GetName() == "c1", "class attribute kept")
	vk.Cover("labels")
}

func vChiGrid(n int, val func(r int) float64) (*vg.Grid, []float64, []int) {
	as := []base.Attribute{base.NewFloatAttribute("x"), vg.Attr(vg.C, "k", "u", "v")}
	xs, ks := make([]float64, n), make([]int, n)
	g := vg.New(as, []int{1}, n, func(r, c int) []byte {
		if c == 0 {
			xs[r] = val(r)
			return vg.Float(xs[r])
		}
		ks[r] = vk.Choose(fmt.Sprintf("k%d", r), 2)
		return vg.Cat(ks[r])
	})
	return g, xs, ks
}

// VH_C16_freq: the frequency table counts every row once, under its value and class.
// bounds: 4 rows of any integer values in [-3,3] and 2 classes (thorough: 5 rows)
func VH_C16_freq() {
	n := 4
	if vk.Thorough() {
		n = 5
	}
	g, xs, ks := vChiGrid(n, func(r int) float64 { return vk.FInt(fmt.Sprintf("x%d", r), -3, 3) })
	t := ChiMBuildFrequencyTable(g.Attrs[0], g.Inst)
	for i := range xs {
		for k, cls := range []string{"u", "v"} {
			want := 0
			for j := range xs {
				want += vk.B2I(vk.And(xs[j] == xs[i], ks[j] == k))
			}
			got, hits := 0, 0
			for _, e := range t {
				hits += vk.B2I(e.Value == xs[i])
				got += vk.IteInt(e.Value == xs[i], e.Frequency[cls], 0)
			}
			vk.Assert(hits == 1, "every value has one entry")
			vk.Assert(got == want, "rows of a value and class are counted once each")
		}
	}
	total := 0
	for _, e := range t {
		total += e.Frequency["u"] + e.Frequency["v"]
	}
	vk.Assert(total == n, "frequencies sum to the number of rows")
	vk.Cover("freq")
}

// VH_C16_chimerge: the intervals keep all rows, start at training values, and values map into their interval.
// bounds: 4 rows of 3 (thorough: 4) different values, 2 classes, minimum 2 or 3 intervals, 2 significance levels, one value (multiple of 1/2) to transform
func VH_C16_chimerge() {
	vk.Opt("merge", 0)
	n, w := 4, 3
	if vk.Thorough() {
		w = 4
	}
	g, xs, ks := vChiGrid(n, func(r int) float64 { return float64(vk.Choose(fmt.Sprintf("x%d", r), w) - 1) })
	f := NewChiMergeFilter(g.Inst, []float64{0.9, 0.5}[vk.Choose("sig", 2)])
	f.MinRows = 2 + vk.Choose("minrows", 2)
	vk.Assert(f.AddAttribute(g.Attrs[0]) == nil, "float attribute accepted")
	vk.Assert(f.Train() == nil, "training succeeds")
	t := f.tables[g.Attrs[0]]
	distinct := 0
	lo := xs[0]
	for i := range xs {
		d := true
		for j := 0; j < i; j++ {
			d = vk.And(d, xs[i] != xs[j])
		}
		distinct += vk.B2I(d)
		lo = vk.IteF(xs[i] < lo, xs[i], lo)
	}
	vk.Assert(vk.Or(len(t) >= f.MinRows, len(t) == distinct), "never fewer intervals than asked for")
	vk.Assert(len(t) <= distinct, "no more intervals than values")
	vk.Assert(len(t) > 0 && t[0].Value == lo, "the first interval starts at the smallest value")
	for i := range t {
		known := false
		for _, x := range xs {
			known = vk.Or(known, t[i].Value == x)
		}
		vk.Assert(known, "intervals start at values that occur")
		if i > 0 {
			vk.Assert(t[i-1].Value < t[i].Value, "intervals ascend")
		}
		for k, cls := range []string{"u", "v"} {
			want := 0
			for j := range xs {
				in := t[i].Value <= xs[j]
				if i+1 < len(t) {
					in = vk.And(in, xs[j] < t[i+1].Value)
				}
				want += vk.B2I(vk.And(in, ks[j] == k))
			}
			vk.Assert(t[i].Frequency[cls] == want, "an interval counts exactly the rows whose values lie in it")
		}
	}
	x := vk.FDyadic("q", -5, 5, 1)
	b := base.UnpackBytesToU64(f.Transform(g.Attrs[0], nil, vg.Float(x)))
	vk.Assert(b < uint64(len(t)), "the interval exists")
	for i := range t {
		above := t[i].Value <= x
		below := true
		if i+1 < len(t) {
			below = x < t[i+1].Value
		}
		if i == 0 {
			above = true
		}
		vk.Assert(vk.Iff(vk.And(above, below), b == uint64(i)), "a value's interval is the one it lies in")
	}
	c := f.GetAttributesAfterFiltering()[0].New.(*base.CategoricalAttribute)
	vk.Assert(len(c.GetValues()) == len(t), "one category per interval")
	vk.Cover("chimerge")
}

// VH_C16_merging: adjacent values whose classes are distributed alike are merged, clearly different ones are not.
// bounds: 16 rows, 4 per value 0..3, all rows of a value of one class, every assignment of 2 classes to the values
func VH_C16_merging() {
	cls := make([]int, 4)
	for i := range cls {
		cls[i] = vk.Choose(fmt.Sprint("c", i), 2)
	}
	per := 4 // rows per value, all of one class
	as := []base.Attribute{base.NewFloatAttribute("x"), vg.Attr(vg.C, "k", "u", "v")}
	g := vg.New(as, []int{1}, 4*per, func(r, c int) []byte {
		if c == 0 {
			return vg.Float(float64(r / per))
		}
		return vg.Cat(cls[r/per])
	})
	f := NewChiMergeFilter(g.Inst, 0.9)
	f.AddAttribute(as[0])
	f.Train()
	t := f.tables[as[0]]
	var want []float64
	for i := range cls {
		if i == 0 || cls[i] != cls[i-1] {
			want = append(want, float64(i))
		}
	}
	if len(want) == 1 {
		vk.Assert(len(t) == f.MinRows && t[0].Value == 0, "rows of one class are merged into as few intervals as allowed")
		return
	}
	vk.Assert(len(t) == len(want), "equally distributed neighbours merge, different ones stay apart")
	for i := range want {
		vk.Assert(t[i].Value == want[i], "intervals start where the classes change")
	}
	vk.Cover("merging")
}

// VH_C16_statistic: the chi-squared statistic of two intervals is the textbook one.
// bounds: frequencies 0..6 of 2 classes in each of 2 intervals, neither interval empty
func VH_C16_statistic() {
	var o [2][2]int
	for i := range o {
		for j := range o[i] {
			o[i][j] = vk.Choose(fmt.Sprintf("o%d%d", i, j), 7)
		}
	}
	r := [2]int{o[0][0] + o[0][1], o[1][0] + o[1][1]}
	vk.Assume(r[0] > 0 && r[1] > 0)
	e := [2]*FrequencyTableEntry{}
	for i := range e {
		e[i] = &FrequencyTableEntry{float64(i), map[string]int{}}
		for j, c := range []string{"u", "v"} {
			if o[i][j] > 0 {
				e[i].Frequency[c] = o[i][j]
			}
		}
	}
	n := float64(r[0] + r[1])
	want := 0.0
	for i := range o {
		for j := range o[i] {
			ex := float64(o[0][j]+o[1][j]) * float64(r[i]) / n
			d := float64(o[i][j]) - ex
			if o[0][j]+o[1][j] == 0 {
				continue
			}
			want += d * d / math.Max(ex, 0.5)
		}
	}
	got := chiComputeStatistic(e[0], e[1])
	vk.Assert(math.Abs(got-want) < 1e-9, "chi-squared statistic")
	// 90% and 95% points of the chi-squared distribution
	for _, q := range [][3]float64{{1, 2.705543, 0.9}, {1, 3.841459, 0.95}, {2, 4.60517, 0.9}, {3, 7.814728, 0.95}, {4, 7.77944, 0.9}} {
		vk.Assert(math.Abs(chiSquaredPercentile(int(q[0]), q[1])-q[2]) < 0.005, "percentage points")
	}
	vk.Cover("statistic")
}

// VH_C16_lazy: a filtered view of discretised columns shows each value's bin, and the other columns as they are; columns are chosen by equal attributes too.
// bounds: 2 float columns of the values -6, 0.5 and 3, a categorical one, 2 rows, 2 bins, either or both discretised, the class first or last
func VH_C16_lazy() {
	vk.Opt("merge", 0)
	kinds := [][]int{{vg.F, vg.F, vg.C}, {vg.C, vg.F, vg.F}}[vk.Choose("layout", 2)]
	as, same := vg.Kinds(kinds...), vg.Kinds(kinds...)
	var fl []int
	for i, k := range kinds {
		if k == vg.F {
			fl = append(fl, i)
		}
	}
	g := vg.New(as, []int{2 - 2*(fl[0])}, 2, func(r, c int) []byte {
		if kinds[c] == vg.C {
			return vg.Any(as[c], fmt.Sprint("k", r))
		}
		return vg.Float([]float64{-6, 0.5, 3}[vk.Choose(fmt.Sprint("v", r, c), 3)])
	})
	f := NewBinningFilter(g.Inst, 2)
	m := 1 + vk.Choose("mask", 3)
	by := [][]base.Attribute{as, same}[vk.Choose("equal", 2)]
	for i, c := range fl {
		if m>>uint(i)&1 == 1 {
			vk.Assert(f.AddAttribute(by[c]) == nil, "float attribute accepted")
		}
	}
	vk.Assert(f.Train() == nil, "training succeeds")
	d := base.NewLazilyFilteredInstances(g.Inst, f)
	vLazyAgrees(d, g.Inst, f, "discretised")
	for i, c := range fl {
		n := vg.HasName(d.AllAttributes(), as[c].GetName())
		_, isCat := n.(*base.CategoricalAttribute)
		vk.Assert(isCat == (m>>uint(i)&1 == 1), "exactly the chosen columns become categorical")
		lo, hi := g.Vals[0][c], g.Vals[1][c]
		a, b := base.UnpackBytesToFloat(lo), base.UnpackBytesToFloat(hi)
		if isCat {
			p, q := base.UnpackBytesToU64(vg.Get(d, n, 0)), base.UnpackBytesToU64(vg.Get(d, n, 1))
			vk.Assert(vk.Implies(a < b, vk.And(p == 0, q == 2)) && vk.Implies(a > b, vk.And(p == 2, q == 0)), "the ends are in the outer bins")
		} else {
			vk.Assert(vk.And(vk.BytesEq(vg.Get(d, n, 0), lo), vk.BytesEq(vg.Get(d, n, 1), hi)), "other columns pass through")
		}
	}
}

// VH_C16_many: long columns and many bins.
// bounds: 80 rows of values in [0,64] and one at any of five places that is -64, 1/4, 64 or 192; 32 bins; two values that are any multiples of 1/4 in [-90,200]
func VH_C16_many() {
	vk.Opt("merge", 0)
	const n, bins = 80, 32
	at := []int{0, 15, 31, 64, n - 1}[vk.Choose("at", 5)]
	v := []float64{-64, 0.25, 64, 192}[vk.Choose("v", 4)]
	a := base.NewFloatAttribute("x")
	lo, hi := v, v
	g := vg.New([]base.Attribute{a}, nil, n, func(r, c int) []byte {
		x := float64((r*37 + 37) % 65)
		if r == at {
			x = v
		}
		lo, hi = math.Min(lo, x), math.Max(hi, x)
		return vg.Float(x)
	})
	f := NewBinningFilter(g.Inst, bins)
	vk.Assert(f.AddAttribute(a) == nil, "float attribute accepted")
	vk.Assert(f.Train() == nil, "training succeeds")
	cat := f.GetAttributesAfterFiltering()[0].New.(*base.CategoricalAttribute)
	bin := func(x float64) int { return int(base.UnpackBytesToU64(f.Transform(a, cat, vg.Float(x)))) }
	w := (hi - lo) / bins
	vk.Assert(bin(lo) == 0, "the minimum is in the first bin")
	vk.Assert(bin(hi) == bins, "the maximum is in the last bin")
	x, y := vk.FDyadic("x", -360, 800, 2), vk.FDyadic("y", -360, 800, 2)
	bx, by := bin(x), bin(y)
	vk.Assert(vk.And(bx >= 0, bx <= bins), "the bin exists")
	vk.Assert(vk.Implies(x <= y, bx <= by), "bins are ordered like the values")
	for _, k := range []int{0, 1, 15, 16, 30, 31} {
		l, h := lo+float64(k)*w, lo+float64(k+1)*w
		vk.Assert(vk.Implies(vk.And(x > l+w/100, x < h-w/100), bx == k), "a value's bin is the width interval it lies in")
	}
	vk.Assert(len(cat.GetValues()) == bins+1, "one label per bin")
	vk.Cover("many")
}

// VH_C16_manyrows: the frequency table and the intervals of a long column.
// bounds: 40 rows of 20 different values in two classes, three of which (first, middle, last) are any of the values
func VH_C16_manyrows() {
	vk.Opt("merge", 0)
	const n = 40
	as := []base.Attribute{base.NewFloatAttribute("x"), vg.Attr(vg.C, "k", "u", "v")}
	xs, ks := make([]float64, n), make([]int, n)
	p := vk.Choose("place", 3)
	g := vg.New(as, []int{1}, n, func(r, c int) []byte {
		if c == 0 {
			xs[r] = float64(r * 7 % 20)
			if r == []int{0, 17, n - 1}[p] {
				xs[r] = float64(vk.Choose("x", 22) - 1)
			}
			return vg.Float(xs[r])
		}
		ks[r] = vk.B2I(r*7%20 > 6 && r%3 != 0)
		return vg.Cat(ks[r])
	})
	t := ChiMBuildFrequencyTable(as[0], g.Inst)
	seen := map[float64]bool{}
	for _, e := range t {
		vk.Assert(!seen[e.Value], "every value has one entry")
		seen[e.Value] = true
		for k, cls := range []string{"u", "v"} {
			want := 0
			for j := range xs {
				want += vk.B2I(xs[j] == e.Value && ks[j] == k)
			}
			vk.Assert(e.Frequency[cls] == want, "rows of a value and class are counted once each")
		}
	}
	f := NewChiMergeFilter(g.Inst, 0.9)
	f.AddAttribute(as[0])
	vk.Assert(f.Train() == nil, "training succeeds")
	t = f.tables[as[0]]
	total := 0
	for i, e := range t {
		if i > 0 {
			vk.Assert(t[i-1].Value < e.Value, "intervals ascend")
		}
		for k, cls := range []string{"u", "v"} {
			want := 0
			for j := range xs {
				want += vk.B2I(xs[j] >= e.Value && (i+1 == len(t) || xs[j] < t[i+1].Value) && ks[j] == k)
			}
			vk.Assert(e.Frequency[cls] == want, "an interval counts exactly the rows whose values lie in it")
			total += want
		}
	}
	vk.Assert(total == n, "frequencies sum to the number of rows")
	q := vk.FDyadic("q", -4, 44, 1)
	b := base.UnpackBytesToU64(f.Transform(as[0], nil, vg.Float(q)))
	for i := range t {
		in := vk.And(vk.Or(i == 0, t[i].Value <= q), vk.Or(i+1 == len(t), i+1 < len(t) && q < t[vk.IteInt(i+1 < len(t), i+1, i)].Value))
		vk.Assert(vk.Iff(in, b == uint64(i)), "a value's interval is the one it lies in")
	}
	vk.Cover("manyrows")
}
