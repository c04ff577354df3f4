package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

var c02Shapes = [][]int{
	{kF}, {kB}, {kC},
	{kF, kC, kB},
	{kB, kB, kB, kF, kC, kF},
	{kB, kB, kB, kB, kB, kB, kB, kB, kB, kF}, // nine bits: two bytes
	{kC, kF, kC, kB, kF, kB, kC},
}

// VH_C02_readback: every cell reads back the last value stored in it and nothing else moves.
// bounds: 7 column layouts of up to 10 columns (float, categorical, binary; >8 binary), 1-3 rows, any cell values, one overwrite of any cell, then Extend by 0-2 rows
func VH_C02_readback() {
	kinds := c02Shapes[vk.Choose("shape", len(c02Shapes))]
	rows := 1 + vk.Choose("rows", 3)
	g := vDense(kinds, nil, rows)
	wr := vk.Choose("wr", rows)
	wc := vk.Choose("wc", len(kinds))
	nv := vCell(kinds[wc], "new")
	g.inst.Set(g.specs[wc], wr, nv)
	g.vals[wr][wc] = nv
	for r := 0; r < rows; r++ {
		for c := range kinds {
			vk.Assert(vk.BytesEq(g.inst.Get(g.specs[c], r), g.vals[r][c]), "cell holds its last value")
		}
	}
	add := vk.Choose("add", 3)
	vk.Assert(g.inst.Extend(add) == nil, "extend")
	nc, nr := g.inst.Size()
	vk.Assert(nc == len(kinds) && nr == rows+add, "size")
	for r := 0; r < rows; r++ {
		for c := range kinds {
			vSame(g.inst, g.attrs[c], r, g.vals[r][c], "cell survives Extend")
		}
	}
	if add > 0 {
		// new rows are writable and do not disturb old ones
		r := rows + add - 1
		nv := vCell(kinds[wc], "new2")
		g.inst.Set(g.specs[wc], r, nv)
		vk.Assert(vk.BytesEq(g.inst.Get(g.specs[wc], r), nv), "cell in an extended row")
		for r := 0; r < rows; r++ {
			for c := range kinds {
				vk.Assert(vk.BytesEq(g.inst.Get(g.specs[c], r), g.vals[r][c]), "old cells untouched by writes to new rows")
			}
		}
	}
}

// VH_C02_symrow: the row and the bit column written are symbolic.
// bounds: 11 binary columns, 4 rows; any row/column pair, any value
func VH_C02_symrow() {
	inst := NewDenseInstances()
	var specs []AttributeSpec
	for i := 0; i < 11; i++ {
		specs = append(specs, inst.AddAttribute(NewBinaryAttribute(fmt.Sprint("b", i))))
	}
	f := inst.AddAttribute(NewFloatAttribute("f"))
	inst.Extend(4)
	r, q := vk.Int("r", 0, 3), vk.Int("q", 0, 3)
	c, d := vk.Int("c", 0, 10), vk.Int("d", 0, 10)
	fv := vk.F64("f")
	inst.Set(f, r, PackFloatToBytes(fv))
	v := byte(vk.Int("v", 0, 1))
	inst.Set(specs[c], r, []byte{v})
	got := inst.Get(specs[d], q)
	vk.Assert(len(got) == 1, "one byte")
	want := vk.IteInt(vk.And(r == q, c == d), int(v), 0)
	vk.Assert(int(got[0]) == want, "only the addressed bit changes")
	fg := inst.Get(f, q)
	vk.Assert(vk.Implies(r == q, vk.BytesEq(fg, PackFloatToBytes(fv))), "float cell")
	vk.Assert(vk.Implies(r != q, vk.BytesEq(fg, make([]byte, 8))), "other float cells stay zero")
}

// VH_C02_pages: layouts wider than a memory page (several groups per type) keep cells apart.
// bounds: 510-515 float or categorical columns (page boundary at 512), 2 rows, 4 symbolic cells around the boundary
func VH_C02_pages() {
	n := 510 + vk.Choose("n", 6)
	kind := vk.Choose("kind", 2)
	inst := NewDenseInstances()
	var specs []AttributeSpec
	var attrs []Attribute
	for i := 0; i < n; i++ {
		a := vAttr(kind, fmt.Sprint("x", i))
		attrs = append(attrs, a)
		specs = append(specs, inst.AddAttribute(a))
	}
	other := vAttr(1-kind, "other")
	ospec := inst.AddAttribute(other)
	inst.Extend(2)
	cols := []int{0, 508, 509, n - 1}
	var vals [][]byte
	for r := 0; r < 2; r++ {
		for _, c := range cols {
			v := vCell(kind, fmt.Sprint("v", r, "_", c))
			inst.Set(specs[c], r, v)
			vals = append(vals, v)
		}
	}
	ov := vCell(1-kind, "ov")
	inst.Set(ospec, 1, ov)
	k := 0
	for r := 0; r < 2; r++ {
		for _, c := range cols {
			if c == 509 && n-1 == 509 {
				k++
				continue
			}
			vk.Assert(vk.BytesEq(inst.Get(specs[c], r), vals[k]), "cell holds its last value")
			k++
		}
	}
	vk.Assert(vk.BytesEq(inst.Get(ospec, 1), ov), "other type's cell")
	z := inst.Get(specs[1], 1)
	vk.Assert(vk.BytesEq(z, make([]byte, 8)), "untouched cell is zero")
	nc, nr := inst.Size()
	vk.Assert(nc == n+1 && nr == 2, "size")
}

// VH_C02_groups: user-named groups, mixed with defaults, also isolate cells.
// bounds: 2 named groups (fixed or bit), 5 columns, 2 rows, all values, columns added in either order
func VH_C02_groups() {
	inst := NewDenseInstances()
	vk.Assert(inst.CreateAttributeGroup("G", 8) == nil, "create")
	vk.Assert(inst.CreateAttributeGroup("H", 0) == nil, "create bits")
	kinds := []int{kF, kB, kF, kB, kC}
	groups := []string{"G", "H", "", "", ""}
	if vk.Choose("order", 2) == 1 {
		groups = []string{"", "H", "G", "H", ""}
	}
	var specs []AttributeSpec
	var attrs []Attribute
	for i, k := range kinds {
		a := vAttr(k, fmt.Sprint("x", i))
		attrs = append(attrs, a)
		if groups[i] == "" {
			specs = append(specs, inst.AddAttribute(a))
		} else {
			s, err := inst.AddAttributeToAttributeGroup(a, groups[i])
			vk.Assert(err == nil, "add to group")
			specs = append(specs, s)
		}
	}
	inst.Extend(2)
	var vals [][]byte
	for r := 0; r < 2; r++ {
		for c, k := range kinds {
			v := vCell(k, fmt.Sprint("v", r, c))
			inst.Set(specs[c], r, v)
			vals = append(vals, v)
		}
	}
	i := 0
	for r := 0; r < 2; r++ {
		for c := range kinds {
			vk.Assert(vk.BytesEq(inst.Get(specs[c], r), vals[i]), "cell holds its last value")
			vSame(inst, attrs[c], r, vals[i], "resolved cell")
			i++
		}
	}
	_, err := inst.AddAttributeToAttributeGroup(vAttr(kB, "zz"), "G")
	vk.Assert(err != nil, "incompatible attribute rejected")
	_, err = inst.AddAttributeToAttributeGroup(vAttr(kF, "zz"), "nope")
	vk.Assert(err != nil, "missing group rejected")
}

// VH_C02_many: many rows, added in steps, keep their cells apart.
// bounds: a float, a categorical and 9 binary columns; up to 9000 rows in 1..4 steps around the sizes of pages; any cells in 7 rows, the others checked to be zero next to these
// time: 60 200
func VH_C02_many() {
	steps := [][]int{{511, 2}, {1, 4095, 1, 1}, {4096, 4096}, {513, 512, 300}, {1, 1, 1, 1023}, {9000}, {255, 1, 1, 256}}[vk.Choose("steps", 7)]
	inst := NewDenseInstances()
	kinds := []int{kF, kC}
	for i := 0; i < 9; i++ {
		kinds = append(kinds, kB)
	}
	var specs []AttributeSpec
	for i, k := range kinds {
		specs = append(specs, inst.AddAttribute(vAttr(k, fmt.Sprint("x", i))))
	}
	type cell struct {
		r, c int
		v    []byte
	}
	var cells []cell
	written := map[int]bool{}
	n := 0
	for _, s := range steps {
		vk.Assert(inst.Extend(s) == nil, "rows are added")
		for _, r := range []int{n, n + s/2, n + s - 1} {
			if written[r] {
				continue
			}
			written[r] = true
			for _, c := range []int{0, 1, 2, 9, 10} {
				v := vCell(kinds[c], fmt.Sprint("v", r, "_", c))
				inst.Set(specs[c], r, v)
				cells = append(cells, cell{r, c, v})
			}
		}
		n += s
		_, rows := inst.Size()
		vk.Assert(rows == n, "the rows are there")
		for _, x := range cells {
			vk.Assert(vk.BytesEq(inst.Get(specs[x.c], x.r), x.v), "cells keep their values")
		}
		for r := range written {
			for c := range kinds {
				if r+1 < n && !written[r+1] {
					vk.Assert(vk.BytesEq(inst.Get(specs[c], r+1), make([]byte, len(inst.Get(specs[c], r+1)))), "other cells are zero")
				}
			}
		}
	}
}
