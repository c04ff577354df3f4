package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vLess: strict order of cells of one kind.
func vLess(k int, a, b []byte) bool {
	switch k {
	case kF:
		return UnpackBytesToFloat(a) < UnpackBytesToFloat(b)
	case kC:
		return UnpackBytesToU64(a) < UnpackBytesToU64(b)
	}
	return a[0] < b[0]
}

func vSortCheck(g *vgrid, kinds []int, cols []int, cell string) {
	rows := len(g.vals)
	dir := Ascending
	if vk.Choose("dir", 2) == 1 {
		dir = Descending
	}
	var specs []AttributeSpec
	for _, c := range cols {
		specs = append(specs, g.specs[c])
	}
	lazy := vk.Choose("lazy", 2) == 1
	var out FixedDataGrid
	var err error
	if lazy {
		out, err = LazySort(g.inst, dir, specs)
	} else {
		out, err = Sort(g.inst, dir, specs)
	}
	vk.Assert(err == nil, "no error")
	id := len(kinds) - 1 // the last column carries the concrete row number
	idSpec, _ := out.GetAttribute(g.attrs[id])
	_, n := out.Size()
	vk.Assert(n == rows, "row count kept")
	seen := make([]bool, rows)
	for i := 0; i < rows; i++ {
		o := int(UnpackBytesToFloat(out.Get(idSpec, i)))
		vk.Assert(o >= 0 && o < rows && !seen[o], "the result is a permutation of the rows")
		seen[o] = true
		for c := range kinds {
			s, _ := out.GetAttribute(g.attrs[c])
			vk.Assert(vk.BytesEq(out.Get(s, i), g.vals[o][c]), "rows move whole")
		}
	}
	for i := 0; i+1 < rows; i++ {
		// lexicographic: out of order iff some prefix is equal and then the wrong way round
		bad, eq := false, true
		for _, c := range cols {
			s, _ := out.GetAttribute(g.attrs[c])
			a, b := out.Get(s, i), out.Get(s, i+1)
			if dir == Descending {
				a, b = b, a
			}
			bad = vk.Or(bad, vk.And(eq, vLess(kinds[c], b, a)))
			eq = vk.And(eq, vk.Not(vLess(kinds[c], a, b)), vk.Not(vLess(kinds[c], b, a)))
		}
		vk.Assert(vk.Not(bad), "adjacent rows are in the asked order")
	}
	if lazy {
		for r := 0; r < rows; r++ {
			for c := range kinds {
				vk.Assert(vk.BytesEq(g.inst.Get(g.specs[c], r), g.vals[r][c]), "lazy sort leaves the source alone")
			}
		}
	}
}

// VH_C07_cats: sorting by categorical and binary keys.
// bounds: 3 rows, key lists {cat}, {bin}, {cat,bin}, {bin,cat}; ascending/descending; eager/lazy
func VH_C07_cats() {
	g := vSortGrid([]int{kC, kB}, 3, vCell)
	cols := [][]int{{0}, {1}, {0, 1}, {1, 0}}[vk.Choose("cols", 4)]
	vSortCheck(g, []int{kC, kB, kF}, cols, "")
}

// VH_C07_floats: sorting by one float key, signs mixed.
// bounds: 3 rows of integers -2..2 (thorough: 4 rows, halves -2..2)
func VH_C07_floats() {
	rows := 3
	cell := vOrdCell(-2, 2)
	if vk.Thorough() {
		rows = 4
		cell = func(k int, n string) []byte { return PackFloatToBytes(vk.FDyadic(n, -4, 4, 1)) }
	}
	g := vSortGrid([]int{kF}, rows, cell)
	vSortCheck(g, []int{kF, kF}, []int{0}, "")
}

// VH_C07_mixed: two keys of different kinds decide lexicographically, first key first.
// bounds: 2 rows (thorough: 3), a float key (-1..1) and a binary key in either order
func VH_C07_mixed() {
	g := vSortGrid([]int{kF, kB}, 2+vk.B2I(vk.Thorough()), vOrdCell(-1, 1))
	cols := [][]int{{0, 1}, {1, 0}}[vk.Choose("cols", 2)]
	vSortCheck(g, []int{kF, kB, kF}, cols, "")
}

// VH_C07_bits: two floats that differ in any one byte come out in numeric order.
// bounds: 5 base values (both signs, tiny, huge), each of the 8 bytes of the second value replaced by any value (quick: multiples of 17) that leaves a number
func VH_C07_bits() {
	base := []float64{1.5, -1.5, 5e-324, -1e300, 0}[vk.Choose("base", 5)]
	p := vk.Choose("byte", 8)
	n := 0
	g := vSortGrid([]int{kF}, 2, func(k int, name string) []byte {
		b := PackFloatToBytes(base)
		if n++; n == 2 {
			if vk.Thorough() {
				b[p] = vk.U8("x")
			} else {
				b[p] = byte(17 * vk.Int("x", 0, 15))
			}
			f := UnpackBytesToFloat(b)
			vk.Assume(f == f)
		}
		return b
	})
	vSortCheck(g, []int{kF, kF}, []int{0}, "")
}

// VH_C07_manycats: category indices above 127 and above 255 sort by index.
// bounds: 2 rows, any indices among {0,1,127,128,200,255,256,300}
func VH_C07_manycats() {
	c := NewCategoricalAttribute()
	c.SetName("c")
	for i := 0; i < 301; i++ {
		c.GetSysValFromString(fmt.Sprint(i))
	}
	inst := NewDenseInstances()
	s := inst.AddAttribute(c)
	inst.Extend(2)
	pool := []uint64{0, 1, 127, 128, 200, 255, 256, 300}
	a, b := pool[vk.Choose("a", 8)], pool[vk.Choose("b", 8)]
	inst.Set(s, 0, PackU64ToBytes(a))
	inst.Set(s, 1, PackU64ToBytes(b))
	out, err := Sort(inst, Ascending, []AttributeSpec{s})
	vk.Assert(err == nil, "no error")
	lo, hi := a, b
	if b < a {
		lo, hi = b, a
	}
	vk.Assert(UnpackBytesToU64(out.Get(s, 0)) == lo && UnpackBytesToU64(out.Get(s, 1)) == hi, "indices ascend")
}

// VH_C07_many: many rows are sorted, with many ties.
// bounds: 60 (thorough 300) rows of a 3-valued category, a float and a bit by 1..3 of them, one row any (among 3 categories and 9 numbers)
// time: 60 200
func VH_C07_many() {
	n := 60 + 240*vk.B2I(vk.Thorough())
	kinds := []int{kC, kF, kB, kF}
	at := []int{0, n / 2, n - 1}[vk.Choose("at", 3)]
	g := vMany(kinds, nil, n, -1)
	id := len(kinds) - 1
	for r := 0; r < n; r++ {
		set := func(c int, v []byte) {
			g.inst.Set(g.specs[c], r, v)
			g.vals[r][c] = v
		}
		set(id, PackFloatToBytes(float64(r)))
		if r == at {
			set(0, PackU64ToBytes(uint64(vk.Choose("k", 3))))
			set(1, PackFloatToBytes(float64(vk.Choose("x", 9)*5)-20))
		}
	}
	vSortCheck(g, kinds, [][]int{{1}, {0, 1}, {2, 0}, {2, 1, 0}}[vk.Choose("by", 4)], "many")
}

// VH_C07_views: what is shown by a view is sorted as the view shows it: only its rows, by its own order, and no key that it hides is needed.
// bounds: 4 rows of a category, a float (-1..1, integer) and a bit; views of 2..3 (with two keys 2) rows of them in any of 3 selections, with or without hiding a column, a view of 2 also sorted again the other way; keys {cat}, {float}, {float,bit}; ascending/descending
func VH_C07_views() {
	kinds := []int{kC, kF, kB}
	keys := [][]int{{0}, {1}, {1, 2}}[vk.Choose("keys", 3)]
	used := func(c int) bool {
		for _, k := range keys {
			if c == k {
				return true
			}
		}
		return false
	}
	g := vSortGrid(kinds, 4, func(k int, n string) []byte {
		if k == kF {
			return vOrdCell(-1, 1)(k, n)
		}
		return vCell(k, n)
	})
	sels := [][]int{{1, 3}, {3, 1}, {3, 0, 2}}
	if len(keys) > 1 && !vk.Thorough() {
		sels = sels[:2]
	}
	sel := sels[vk.Choose("rows", len(sels))]
	attrs := g.attrs
	if vk.Choose("hide", 2) == 1 {
		for c := range kinds {
			if !used(c) {
				attrs = append(append([]Attribute{}, g.attrs[:c]...), g.attrs[c+1:]...)
				break
			}
		}
	}
	var src FixedDataGrid = NewInstancesViewFromVisible(g.inst, sel, attrs)
	dir := []SortDirection{Ascending, Descending}[vk.Choose("dir", 2)]
	for again := 0; again < 2; again++ {
		if again == 1 && len(sel) > 2 && !vk.Thorough() {
			break
		}
		var ks []Attribute
		for _, c := range keys {
			ks = append(ks, g.attrs[c])
		}
		out, err := LazySort(src, dir, ResolveAttributes(src, ks))
		vk.Assert(err == nil, "no error")
		_, n := out.Size()
		vk.Assert(n == len(sel), "the view's rows are sorted")
		vk.Assert(len(out.AllAttributes()) == len(attrs), "the view's columns are there")
		id, err := out.GetAttribute(g.attrs[3])
		vk.Assert(err == nil, "columns that are no keys are there")
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			o := int(UnpackBytesToFloat(out.Get(id, i)))
			in := false
			for _, r := range sel {
				in = in || r == o
			}
			vk.Assert(in && !seen[o], "every row of the view comes once")
			seen[o] = true
			for c := range kinds {
				if s, err := out.GetAttribute(g.attrs[c]); err == nil {
					vk.Assert(vk.BytesEq(out.Get(s, i), g.vals[o][c]), "rows move whole")
				}
			}
		}
		for i := 0; i+1 < n; i++ {
			bad, eq := false, true
			for _, c := range keys {
				s, _ := out.GetAttribute(g.attrs[c])
				a, b := out.Get(s, i), out.Get(s, i+1)
				if dir == Descending {
					a, b = b, a
				}
				bad = vk.Or(bad, vk.And(eq, vLess(kinds[c], b, a)))
				eq = vk.And(eq, vk.Not(vLess(kinds[c], a, b)), vk.Not(vLess(kinds[c], b, a)))
			}
			vk.Assert(vk.Not(bad), "adjacent rows are in the asked order")
		}
		src = out
		dir = Ascending + Descending - dir
	}
}
