package base

import (
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vParts checks that parts partition the rows of g by key and drop attribute at.
func vParts(g *vgrid, parts map[string]FixedDataGrid, at int, key func(r int) string, label string) {
	rows := len(g.vals)
	total := 0
	seen := make([]bool, rows)
	for k, d := range parts {
		nc, n := d.Size()
		vk.Assert(n > 0, label+": no empty part")
		vk.Assert(nc == len(g.attrs)-1, label+": the split attribute is dropped")
		vk.Assert(!vHas(d.AllAttributes(), g.attrs[at]), label+": the split attribute is hidden")
		vk.Assert(len(d.AllClassAttributes()) == 1, label+": class kept")
		total += n
		s, err := d.GetAttribute(g.attrs[2])
		vk.Assert(err == nil, label+": attribute resolves")
		for i := 0; i < n; i++ {
			o := int(UnpackBytesToFloat(d.Get(s, i)))
			vk.Assert(o >= 0 && o < rows && !seen[o], label+": every row in one part once")
			seen[o] = true
			vk.Assert(vk.StrEq(key(o), k), label+": rows go to the part of their value")
			for c := range g.attrs {
				if c != at {
					vSame(d, g.attrs[c], i, g.vals[o][c], label+": rows stay whole")
				}
			}
		}
	}
	vk.Assert(total == rows, label+": no row lost")
}

// VH_C09_values: decomposing on a categorical or binary attribute.
// bounds: 0-4 rows, 3 categories or bits, dense and re-mapped view sources
func VH_C09_values() {
	k := 1 + vk.Choose("kind", 2)
	g := vSortGrid([]int{k, kC}, vk.Choose("rows", 5), vCell)
	g.inst.AddClassAttribute(g.attrs[1])
	parts := DecomposeOnAttributeValues(g.inst, g.attrs[0])
	vParts(g, parts, 0, func(r int) string { return g.attrs[0].GetStringFromSysVal(g.vals[r][0]) }, "by value")
}

// VH_C09_view: decomposing a re-ordered view keeps its row contents.
// bounds: 3 rows, every re-mapping permutation of a cycle or swap
func VH_C09_view() {
	g := vSortGrid([]int{kC, kC}, 3, vCell)
	g.inst.AddClassAttribute(g.attrs[1])
	m := []map[int]int{{0: 2, 2: 0}, {0: 1, 1: 2, 2: 0}, {}}[vk.Choose("map", 3)]
	parts := DecomposeOnAttributeValues(NewInstancesViewFromRows(g.inst, m), g.attrs[0])
	vParts(g, parts, 0, func(r int) string { return g.attrs[0].GetStringFromSysVal(g.vals[r][0]) }, "view by value")
}

// VH_C09_threshold: decomposing on a numeric threshold sends a row to "1" exactly when its value is above it.
// bounds: 0-4 rows, any float values and threshold (NaN included)
func VH_C09_threshold() {
	g := vSortGrid([]int{kF, kC}, vk.Choose("rows", 5), vCell)
	g.inst.AddClassAttribute(g.attrs[1])
	t := vk.F64("t")
	parts := DecomposeOnNumericAttributeThreshold(g.inst, g.attrs[0], t)
	for k := range parts {
		vk.Assert(k == "0" || k == "1", "two parts at most")
	}
	vParts(g, parts, 0, func(r int) string {
		if UnpackBytesToFloat(g.vals[r][0]) > t {
			return "1"
		}
		return "0"
	}, "by threshold")
}
