package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vIDGrid: column 0 is symbolic, column 1 is the class, the last column carries the row number.
func vIDGrid(rows int) *vgrid {
	g := vSortGrid([]int{kF, kC}, rows, vCell)
	g.inst.AddClassAttribute(g.attrs[1])
	return g
}

// vRowOf returns the source row shown at row i, after checking the row is whole.
func vRowOf(g *vgrid, d FixedDataGrid, i int, label string) int {
	s, err := d.GetAttribute(g.attrs[2])
	vk.Assert(err == nil, label+": attribute resolves")
	o := int(UnpackBytesToFloat(d.Get(s, i)))
	vk.Assert(o >= 0 && o < len(g.vals), label+": shows a source row")
	for c := range g.attrs {
		vSame(d, g.attrs[c], i, g.vals[o][c], label+": rows stay whole")
	}
	return o
}

// VH_C08_shuffle: shuffling (in place or lazily) permutes whole rows, for every sequence of random draws.
// bounds: 0-4 rows; dense in place, dense lazily, views
func VH_C08_shuffle() {
	rows := vk.Choose("rows", 5)
	g := vIDGrid(rows)
	var out FixedDataGrid
	switch vk.Choose("how", 3) {
	case 0:
		out = Shuffle(g.inst)
	case 1:
		out = LazyShuffle(g.inst)
	default:
		out = Shuffle(NewInstancesViewFromAttrs(g.inst, g.attrs))
	}
	_, n := out.Size()
	vk.Assert(n == rows, "row count")
	seen := make([]bool, rows)
	for i := 0; i < rows; i++ {
		o := vRowOf(g, out, i, "shuffle")
		vk.Assert(!seen[o], "no row appears twice")
		seen[o] = true
	}
	vMapAgrees(out, g.attrs, false, "shuffled")
}

// VH_C08_split: a train/test split partitions the rows, for every sequence of random draws.
// bounds: 0-3 rows, proportions 0, 0.5 and 1
func VH_C08_split() {
	rows := vk.Choose("rows", 4)
	g := vIDGrid(rows)
	p := []float64{0, 0.5, 1}[vk.Choose("p", 3)]
	var src FixedDataGrid = g.inst
	if vk.Choose("view", 2) == 1 {
		src = NewInstancesViewFromAttrs(g.inst, g.attrs)
	}
	// the in-place shuffle moves the rows of a dense source
	train, test := InstancesTrainTestSplit(src, p)
	_, n1 := train.Size()
	_, n2 := test.Size()
	vk.Assert(n1+n2 == rows, "every row is in one part")
	seen := make([]bool, rows)
	for _, d := range []FixedDataGrid{train, test} {
		_, n := d.Size()
		for i := 0; i < n; i++ {
			o := vRowOf(g, d, i, "split")
			vk.Assert(!seen[o], "no row is in both parts or twice in one")
			seen[o] = true
		}
		vk.Assert(len(d.AllClassAttributes()) == 1, "class kept")
		vk.Assert(len(d.AllAttributes()) == 3, "attributes kept")
	}
}

// VH_C08_sample: sampling with replacement yields exactly the asked number of whole source rows.
// bounds: 1-3 rows, sizes 0-4, every draw sequence; dense and view sources
func VH_C08_sample() {
	rows := 1 + vk.Choose("rows", 3)
	size := vk.Choose("size", 5)
	g := vIDGrid(rows)
	var src FixedDataGrid = g.inst
	if vk.Choose("view", 2) == 1 {
		src = NewInstancesViewFromRows(g.inst, map[int]int{0: rows - 1})
	}
	out := SampleWithReplacement(src, size)
	_, n := out.Size()
	vk.Assert(n == size, "the sample has the asked size")
	for i := 0; i < n; i++ {
		vRowOf(g, out, i, "sample")
	}
	vk.Assert(len(out.AllClassAttributes()) == 1, "class kept")
	_ = fmt.Sprint
}

// VH_C08_orders: some draws lead to each order of the rows, to each row being in either part of a split and to each row being in each place of a sample.
// bounds: 3 rows (thorough 4) of a table or a view, samples of 2; every draw
func VH_C08_orders() {
	rows := 3 + vk.B2I(vk.Thorough())
	g := vIDGrid(rows)
	rowsOf := func(d FixedDataGrid) string {
		_, n := d.Size()
		s := ""
		for i := 0; i < n; i++ {
			s += fmt.Sprint(vRowOf(g, d, i, "orders"))
		}
		return s
	}
	has := func(s string, k int) bool {
		for _, c := range s {
			if int(c-'0') == k {
				return true
			}
		}
		return false
	}
	switch how := vk.Choose("how", 5); how {
	case 0, 1, 4:
		f := Shuffle
		if how == 1 {
			f = LazyShuffle
		}
		var src FixedDataGrid = g.inst
		if how == 4 { // what can't be changed in place is shuffled by a view
			l := make([]int, rows)
			for i := range l {
				l[i] = rows - 1 - i
			}
			src = NewInstancesViewFromVisible(src, l, src.AllAttributes())
		}
		s := rowsOf(f(src))
		var each func(p string)
		each = func(p string) {
			if len(p) == rows {
				vk.Possible(s == p, fmt.Sprint("rows are shuffled to ", p, []string{"", " by a view", "", "", " from a view"}[how]))
				return
			}
			for k := 0; k < rows; k++ {
				if !has(p, k) {
					each(p + fmt.Sprint(k))
				}
			}
		}
		each("")
	case 2:
		train, test := InstancesTrainTestSplit(g.inst, 0.5)
		a, b := rowsOf(train), rowsOf(test)
		for k := 0; k < rows; k++ {
			vk.Possible(has(a, k), fmt.Sprint("row ", k, " is in the first part"))
			vk.Possible(has(b, k), fmt.Sprint("row ", k, " is in the second part"))
		}
	default:
		s := rowsOf(SampleWithReplacement(g.inst, 2))
		for k := 0; k < rows; k++ {
			for i := 0; i < 2; i++ {
				vk.Possible(int(s[i]-'0') == k, fmt.Sprint("row ", k, " is in place ", i, " of a sample"))
			}
		}
		vk.Possible(s[0] == s[1], "a row is in a sample twice")
	}
}

// VH_C08_many: long tables: shuffles, splits and samples keep whole rows.
// bounds: 70 rows; every outcome of the first draw (thorough: the first two), the others fixed; four ways
func VH_C08_many() {
	vk.Opt("somedraws", 1+vk.B2I(vk.Thorough()))
	const rows = 70
	g := vIDGrid(rows)
	seen := make([]int, rows)
	count := func(d FixedDataGrid) int {
		_, n := d.Size()
		for i := 0; i < n; i++ {
			seen[vRowOf(g, d, i, "many rows")]++
		}
		return n
	}
	n := 0
	switch how := vk.Choose("how", 4); how {
	case 0:
		n = count(Shuffle(g.inst))
	case 1:
		n = count(LazyShuffle(g.inst))
	case 2:
		train, test := InstancesTrainTestSplit(g.inst, 0.3)
		n = count(train) + count(test)
	default:
		vk.Assert(count(SampleWithReplacement(g.inst, 80)) == 80, "the sample has the asked size")
		return
	}
	vk.Assert(n == rows, "row count")
	for _, k := range seen {
		vk.Assert(k == 1, "every row appears once")
	}
}
