package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C05_visible: a view of chosen rows and attributes shows exactly those, in that order.
// bounds: 4 source rows, 3 columns; every list of up to 3 rows (repeats allowed), every non-empty ordered attribute choice of up to 3
func VH_C05_visible() {
	g := vDense([]int{kF, kC, kB}, []int{1}, 4)
	n := vk.Choose("n", 4)
	var rows []int
	for i := 0; i < n; i++ {
		rows = append(rows, vk.Choose(fmt.Sprint("r", i), 4))
	}
	perm := [][]int{{0, 1, 2}, {2, 0, 1}, {1, 0}, {2}, {0, 2}, {1}}[vk.Choose("attrs", 6)]
	var attrs []Attribute
	cls := false
	for _, p := range perm {
		attrs = append(attrs, g.attrs[p])
		cls = cls || p == 1
	}
	v := NewInstancesViewFromVisible(g.inst, rows, attrs)
	nc, nr := v.Size()
	vk.Assert(nc == len(attrs) && nr == n, "size")
	all := v.AllAttributes()
	vk.Assert(len(all) == len(attrs), "attributes")
	for i := range attrs {
		vk.Assert(all[i].Equals(attrs[i]), "attribute order kept")
	}
	for i := 0; i < 3; i++ {
		_, err := v.GetAttribute(g.attrs[i])
		vk.Assert((err == nil) == vHas(attrs, g.attrs[i]), "hidden attributes do not resolve")
	}
	for i, r := range rows {
		for _, p := range perm {
			vSame(v, g.attrs[p], i, g.vals[r][p], "view row shows its source row")
		}
	}
	vk.Assert(len(v.AllClassAttributes()) == vk.B2I(cls), "class attributes carried over if visible")
	vk.Assert((v.AddClassAttribute(g.attrs[2]) == nil) == vHas(attrs, g.attrs[2]), "hidden attribute cannot become a class")
}

// VH_C05_rows: a re-mapped view shows source row m[i] at row i, and row i where unmapped.
// bounds: 3 rows, every partial mapping, plus views of such views
func VH_C05_rows() {
	g := vDense([]int{kF, kB}, []int{1}, 3)
	m := map[int]int{}
	want := []int{0, 1, 2}
	for i := 0; i < 3; i++ {
		if t := vk.Choose(fmt.Sprint("t", i), 4); t < 3 {
			m[i] = t
			want[i] = t
		}
	}
	v := NewInstancesViewFromRows(g.inst, m)
	nc, nr := v.Size()
	vk.Assert(nc == 2 && nr == 3, "size")
	for i := range want {
		for c := range g.attrs {
			vSame(v, g.attrs[c], i, g.vals[want[i]][c], "re-mapped row")
		}
	}
	w := NewInstancesViewFromRows(v, map[int]int{0: 1})
	for c := range g.attrs {
		vSame(w, g.attrs[c], 0, g.vals[want[1]][c], "view of a re-mapped view")
		vSame(w, g.attrs[c], 2, g.vals[want[2]][c], "view of a re-mapped view")
	}
	vk.Assert(len(v.AllClassAttributes()) == 1, "class attributes carried over")
}

// VH_C05_live: views are windows: later writes to the source show through, masked attributes stay reachable only via the source.
// bounds: 2 rows, any values
func VH_C05_live() {
	g := vDense([]int{kF, kC}, nil, 2)
	v := NewInstancesViewFromAttrs(g.inst, g.attrs[:1])
	w := NewInstancesViewFromVisible(v, []int{1, 1, 0}, g.attrs[:1])
	nv := vCell(kF, "nv")
	g.inst.Set(g.specs[0], 1, nv)
	vSame(v, g.attrs[0], 1, nv, "write shows through attribute view")
	vSame(w, g.attrs[0], 0, nv, "write shows through row view")
	vSame(w, g.attrs[0], 1, nv, "write shows through row view")
	vSame(w, g.attrs[0], 2, g.vals[0][0], "other row unchanged")
	nc, nr := v.Size()
	vk.Assert(nc == 1 && nr == 2, "size")
	vk.Assert(vPanics(func() { NewInstancesViewFromAttrs(v, g.attrs[1:]) }), "a hidden attribute cannot be viewed again")
}

// VH_C05_strings: row printing goes through the mapping.
// bounds: 2 rows of categories and bits
func VH_C05_strings() {
	g := vDense([]int{kC, kB}, nil, 2)
	v := NewInstancesViewFromVisible(g.inst, []int{1, 0}, g.attrs)
	for i := 0; i < 2; i++ {
		want := g.attrs[0].GetStringFromSysVal(g.vals[1-i][0]) + " " + g.attrs[1].GetStringFromSysVal(g.vals[1-i][1])
		vk.Assert(vk.StrEq(v.RowString(i), want), "row string")
		vk.Assert(vk.StrEq(g.inst.RowString(1-i), want), "dense row string")
	}
}

// VH_C05_classes: a view's classes are those of its source that it shows, in the order of its attributes, and so are a prediction vector's.
// bounds: 3 columns, any of them classes, every ordered choice of them, by attributes alone, with rows, or through a second view; any map iteration order
func VH_C05_classes() {
	vk.Opt("maporder", 1)
	g := vDense([]int{kC, kC, kB}, nil, 1)
	cls := []bool{false, false, false}
	for i, a := range g.attrs {
		if vk.Choose(fmt.Sprint("class", i), 2) == 1 {
			cls[i] = true
			vk.Assert(g.inst.AddClassAttribute(a) == nil, "a class is marked")
		}
	}
	perm := [][]int{{0, 1, 2}, {2, 0, 1}, {1, 0}, {2, 1}, {0, 2}, {1}}[vk.Choose("attrs", 6)]
	var attrs, want []Attribute
	for _, p := range perm {
		attrs = append(attrs, g.attrs[p])
		if cls[p] {
			want = append(want, g.attrs[p])
		}
	}
	var v FixedDataGrid
	switch vk.Choose("view", 3) {
	case 0:
		v = NewInstancesViewFromAttrs(g.inst, attrs)
	case 1:
		v = NewInstancesViewFromVisible(g.inst, []int{0}, attrs)
	case 2:
		v = NewInstancesViewFromRows(NewInstancesViewFromAttrs(g.inst, attrs), map[int]int{0: 0})
	}
	got := v.AllClassAttributes()
	vk.Assert(len(got) == len(want), "the classes the view shows")
	for i := range want {
		vk.Assert(got[i].Equals(want[i]), "classes come in the order of the view's attributes")
	}
	if len(want) == 0 {
		return
	}
	p := GeneratePredictionVector(v).AllAttributes()
	vk.Assert(len(p) == len(want), "a prediction vector has the view's classes")
	for _, a := range want {
		vk.Assert(vHas(p, a), "a prediction vector has each of the view's classes")
	}
}

// VH_C05_namesakes: a column resolves through a view only if the view shows that very column, whatever the names.
// bounds: 3 columns of any kinds, two or three of one name, two of them possibly of different categories, every ordered choice of them, four ways to make the view
func VH_C05_namesakes() {
	kinds := [][]int{{kF, kC, kB}, {kC, kC, kF}, {kB, kF, kC}}[vk.Choose("kinds", 3)]
	d := NewDenseInstances()
	var attrs []Attribute
	var specs []AttributeSpec
	third := []string{"n", "m"}[vk.Choose("third", 2)]
	for i, k := range kinds {
		var a Attribute
		switch k {
		case kF:
			a = NewFloatAttribute("n")
		case kB:
			a = NewBinaryAttribute("n")
		default:
			c := NewCategoricalAttribute()
			c.GetSysValFromString(fmt.Sprint("w", i))
			a = c
		}
		a.SetName("n")
		if i == 2 {
			a.SetName(third)
		}
		attrs = append(attrs, a)
		specs = append(specs, d.AddAttribute(a))
	}
	d.Extend(2)
	var vals [][]byte
	for i := range kinds {
		x := vCell(kF, fmt.Sprint("x", i))
		if kinds[i] == kC {
			x = PackU64ToBytes(0)
		} else if kinds[i] == kB {
			x = vCell(kB, fmt.Sprint("x", i))
		}
		vals = append(vals, x)
		d.Set(specs[i], 1, x)
	}
	perm := [][]int{{0, 1}, {1, 0}, {2, 0}, {1, 2}, {0}, {1}, {2}}[vk.Choose("attrs", 7)]
	var show []Attribute
	shown := map[int]bool{}
	for _, p := range perm {
		show = append(show, attrs[p])
		shown[p] = true
	}
	var v FixedDataGrid
	switch vk.Choose("view", 4) {
	case 0:
		v = NewInstancesViewFromAttrs(d, show)
	case 1:
		v = NewInstancesViewFromVisible(d, []int{0, 1}, show)
	case 2:
		v = NewInstancesViewFromRows(NewInstancesViewFromAttrs(d, show), map[int]int{0: 0})
	case 3:
		v = NewInstancesViewFromAttrs(NewInstancesViewFromVisible(d, []int{0, 1}, attrs), show)
	}
	for i, a := range attrs {
		s, err := v.GetAttribute(a)
		vk.Assert((err == nil) == shown[i], "only the shown columns resolve")
		if err == nil {
			vk.Assert(s.GetAttribute().Equals(a), "resolves to that column")
			vk.Assert(vk.BytesEq(v.Get(s, 1), vals[i]), "and reads its cells")
		}
	}
}
