package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C10_class: the class distribution counts each class value over every row.
// bounds: 0-4 rows, 3 classes; dense and view sources
func VH_C10_class() {
	rows := vk.Choose("rows", 5)
	g := vDense([]int{kF, kC}, []int{1}, rows)
	var d FixedDataGrid = g.inst
	if rows > 1 && vk.Choose("view", 2) == 1 {
		d = NewInstancesViewFromVisible(g.inst, []int{rows - 1, 0, 0}, g.attrs)
		g.vals = [][][]byte{g.vals[rows-1], g.vals[0], g.vals[0]}
	}
	want := []int{0, 0, 0}
	for _, r := range g.vals {
		for k := range want {
			want[k] += vk.B2I(UnpackBytesToU64(r[1]) == uint64(k))
		}
	}
	byVal := GetClassDistributionByCategoricalValue(d)
	vk.Assert(len(byVal) == 3, "one count per class value")
	dist := GetClassDistribution(d)
	tot := 0
	for k := range want {
		vk.Assert(byVal[k] == want[k], "count by category index")
		vk.Assert(dist[string("abc"[k])] == want[k], "count by class name")
		tot += dist[string("abc"[k])]
	}
	vk.Assert(tot == len(g.vals) && len(dist) <= 3, "counts add up to the rows")
}

// VH_C10_float: binary float class distribution.
// bounds: 0-4 rows, any non-NaN class values
func VH_C10_float() {
	rows := vk.Choose("rows", 5)
	g := vDense([]int{kC, kF}, []int{1}, rows)
	one := 0
	for _, r := range g.vals {
		f := UnpackBytesToFloat(r[1])
		vk.Assume(f == f)
		one += vk.B2I(f > 0.5)
	}
	d := GetClassDistributionByBinaryFloatValue(g.inst)
	vk.Assert(len(d) == 2 && d[1] == one && d[0] == rows-one, "counts of values above and not above one half")
}

// VH_C10_split: distributions after a speculative split count each (part, class) pair.
// bounds: 0-3 rows, split on a category, a bit, or a float threshold (any values)
func VH_C10_split() {
	kind := vk.Choose("kind", 3)
	rows := vk.Choose("rows", 4)
	g := vDense([]int{kind, kC}, []int{1}, rows)
	var got map[string]map[string]int
	part := func(r int) string { return g.attrs[0].GetStringFromSysVal(g.vals[r][0]) }
	if kind == kF {
		t := vk.F64("t")
		got = GetClassDistributionAfterThreshold(g.inst, g.attrs[0], t)
		part = func(r int) string {
			if UnpackBytesToFloat(g.vals[r][0]) > t {
				return "1"
			}
			return "0"
		}
	} else {
		got = GetClassDistributionAfterSplit(g.inst, g.attrs[0])
	}
	total := 0
	for p, m := range got {
		for c, n := range m {
			want := 0
			for r := 0; r < rows; r++ {
				want += vk.B2I(vk.And(vk.StrEq(part(r), p), vk.StrEq(g.attrs[1].GetStringFromSysVal(g.vals[r][1]), c)))
			}
			vk.Assert(n == want, "count of a (part, class) pair")
			total += n
		}
	}
	vk.Assert(total == rows, "counts add up to the rows")
}

// VH_C10_many: the same for long tables and many classes.
// bounds: 70 rows, 12 classes, any classes of two rows (first and last, or two in the middle)
func VH_C10_many() {
	const rows, nc = 70, 12
	c := NewCategoricalAttribute()
	c.SetName("c")
	for i := 0; i < nc; i++ {
		c.GetSysValFromString(fmt.Sprint("k", i))
	}
	inst := NewDenseInstances()
	sp := inst.AddAttribute(c)
	inst.AddClassAttribute(c)
	inst.Extend(rows)
	at := [][2]int{{0, rows - 1}, {31, 32}}[vk.Choose("at", 2)]
	ks := make([]int, rows)
	for r := range ks {
		ks[r] = r * r % 11
		if r == at[0] || r == at[1] {
			ks[r] = vk.Int(fmt.Sprint("k", r), 0, nc-1)
		}
		inst.Set(sp, r, PackU64ToBytes(uint64(ks[r])))
	}
	byVal, dist := GetClassDistributionByCategoricalValue(inst), GetClassDistribution(inst)
	vk.Assert(len(byVal) == nc, "one count per class value")
	for k := 0; k < nc; k++ {
		want := 0
		for _, x := range ks {
			want += vk.B2I(x == k)
		}
		vk.Assert(byVal[k] == want, "count by category index")
		vk.Assert(dist[fmt.Sprint("k", k)] == want, "count by class name")
	}
}
