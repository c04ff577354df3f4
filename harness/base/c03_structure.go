package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vAnew makes an attribute that equals another.
func vAnew(a Attribute) Attribute {
	switch a.(type) {
	case *FloatAttribute:
		return vAttr(kF, a.GetName())
	case *BinaryAttribute:
		return vAttr(kB, a.GetName())
	}
	return vAttr(kC, a.GetName())
}

// vClassOps runs a sequence of class attribute operations on d and checks the resulting set.
func vClassOps(d DataGrid, attrs []Attribute, start []bool, nops int) {
	cls := append([]bool{}, start...)
	for k := 0; k < nops; k++ {
		op := vk.Choose(fmt.Sprint("op", k), 2)
		i := vk.Choose(fmt.Sprint("at", k), len(attrs))
		var err error
		a := attrs[i]
		if vk.Choose(fmt.Sprint("anew", k), 2) == 1 {
			a = vAnew(a)
		}
		if op == 0 {
			err = d.AddClassAttribute(a)
			cls[i] = true
		} else {
			err = d.RemoveClassAttribute(a)
			cls[i] = false
		}
		vk.Assert(err == nil, "class operation succeeds")
		got := d.AllClassAttributes()
		n := 0
		for j, a := range attrs {
			if cls[j] {
				n++
			}
			vk.Assert(vHas(got, a) == cls[j], "class set follows add/remove")
		}
		vk.Assert(len(got) == n, "class set has no extras or duplicates")
		i = 0
		for _, a := range d.AllAttributes() {
			if i < len(got) && got[i].Equals(a) {
				i++
			}
		}
		vk.Assert(i == len(got), "class attributes are listed in the order of the attributes")
	}
	vk.Assert(len(NonClassAttributes(d)) == len(attrs)-len(d.AllClassAttributes()), "non-class attributes are the rest")
	for _, a := range NonClassAttributes(d) {
		vk.Assert(!vHas(d.AllClassAttributes(), a), "non-class excludes class")
	}
	for _, a := range NonClassFloatAttributes(d) {
		_, ok := a.(*FloatAttribute)
		vk.Assert(ok && !vHas(d.AllClassAttributes(), a), "non-class float")
	}
	nf := 0
	for j, a := range attrs {
		if _, ok := a.(*FloatAttribute); ok && !cls[j] {
			nf++
		}
	}
	vk.Assert(len(NonClassFloatAttributes(d)) == nf, "every non-class float listed")
}

// VH_C03_class: adding and removing class attributes on every grid type.
// bounds: 3 attributes, every sequence of 3 operations by the attributes or by equal ones made anew, grids: dense, view by attributes, view by rows, matrix; attributes of one or different names
func VH_C03_class() {
	vOneName = vk.Choose("onename", 2) == 1
	kind := vk.Choose("grid", 4)
	if kind == 3 {
		m := vMat(2, 3)
		vClassOps(m, m.AllAttributes(), []bool{false, false, false}, 3)
		return
	}
	g := vDense([]int{kF, kC, kB}, []int{1}, 1)
	var d DataGrid = g.inst
	if kind == 1 {
		d = NewInstancesViewFromAttrs(g.inst, g.attrs)
	} else if kind == 2 {
		d = NewInstancesViewFromRows(g.inst, map[int]int{0: 0})
	}
	vClassOps(d, g.attrs, []bool{false, true, false}, 3)
	if kind > 0 {
		vk.Assert(len(g.inst.AllClassAttributes()) == 1, "a view's class changes stay in the view")
	}
}

// VH_C03_layout: attributes are found again, once, under every layout, and after allocation the layout is frozen.
// bounds: up to 5 attributes of any kinds in any order, default and named groups, 0-2 rows
func VH_C03_layout() {
	n := 1 + vk.Choose("n", 4)
	inst := NewDenseInstances()
	vk.Assert(inst.CreateAttributeGroup("G", 8) == nil, "create group")
	var attrs []Attribute
	var specs []AttributeSpec
	for i := 0; i < n; i++ {
		k := vk.Choose(fmt.Sprint("k", i), 3)
		a := vAttr(k, fmt.Sprint("x", i))
		attrs = append(attrs, a)
		if k == kF && i%2 == 0 {
			s, err := inst.AddAttributeToAttributeGroup(a, "G")
			vk.Assert(err == nil, "add to group")
			specs = append(specs, s)
		} else {
			specs = append(specs, inst.AddAttribute(a))
		}
	}
	rows := vk.Choose("rows", 3)
	inst.Extend(rows)
	nc, nr := inst.Size()
	vk.Assert(nc == n && nr == rows, "size")
	all := inst.AllAttributes()
	vk.Assert(len(all) == n, "every attribute listed once")
	for i, a := range attrs {
		vk.Assert(vHas(all, a), "attribute listed")
		s, err := inst.GetAttribute(a)
		vk.Assert(err == nil && s == specs[i], "attribute resolves to the spec AddAttribute returned")
		vk.Assert(s.GetAttribute() == a, "spec names its attribute")
	}
	for i := range specs {
		for j := 0; j < i; j++ {
			vk.Assert(specs[i].pond != specs[j].pond || specs[i].position != specs[j].position, "no two attributes share storage")
		}
	}
	_, err := inst.GetAttribute(vAttr(kF, "missing"))
	vk.Assert(err != nil, "unknown attribute reported")
	_, err = inst.GetAttributeGroup("missing")
	vk.Assert(err != nil, "unknown group reported")
	ag, err := inst.GetAttributeGroup("G")
	vk.Assert(err == nil && ag == inst.AllAttributeGroups()["G"], "group found")
	vk.Assert(inst.CreateAttributeGroup("H", 8) != nil, "no new groups after allocation")
	vk.Assert(vPanics(func() { inst.AddAttribute(vAttr(kF, "late")) }), "no new attributes after allocation")
}

// VH_C03_resolve: attributes are resolved to their specs in the order they are asked for.
// bounds: 3 attributes of all kinds (any of the 6 orders, or 2 of them) or 14 of two kinds (in reverse, or rotated by any number), in instances, views of these and matrices (floats only)
func VH_C03_resolve() {
	var d DataGrid
	var attrs []Attribute
	var specs []AttributeSpec
	grid := vk.Choose("grid", 3)
	n := []int{3, 14}[vk.Choose("many", 2)]
	if grid == 2 {
		m := vMat(1, n)
		d, attrs = m, m.AllAttributes()
	} else {
		inst := NewDenseInstances()
		for i := 0; i < n; i++ {
			attrs = append(attrs, vAttr([]int{kF, kB, kC}[i%(3-n/14)], fmt.Sprint("x", i)))
			specs = append(specs, inst.AddAttribute(attrs[i]))
		}
		inst.Extend(1)
		d = inst
		if grid == 1 {
			var back []Attribute
			for i := range attrs {
				back = append(back, attrs[n-1-i])
			}
			d = NewInstancesViewFromAttrs(inst, back)
		}
	}
	var order []int
	if n == 3 {
		order = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {2, 0}, {1}}[vk.Choose("order", 8)]
	} else {
		rot := vk.Choose("rotate", n+1)
		for i := 0; i < n; i++ {
			if rot == n {
				order = append(order, n-1-i)
			} else {
				order = append(order, (i+rot)%n)
			}
		}
	}
	var ask []Attribute
	for _, i := range order {
		ask = append(ask, attrs[i])
	}
	got := ResolveAttributes(d, ask)
	vk.Assert(len(got) == len(ask), "one spec for each attribute")
	for k, i := range order {
		vk.Assert(got[k].GetAttribute().Equals(attrs[i]), "specs are in the order of the attributes asked for")
		if specs != nil {
			vk.Assert(got[k] == specs[i], "the spec is the attribute's")
		}
	}
	for k, s := range ResolveAllAttributes(d) {
		vk.Assert(s.GetAttribute().Equals(d.AllAttributes()[k]), "all specs are in the order of the attributes")
	}
}

// VH_C03_frozen: adding an attribute to a group after allocation is refused, so stored cells keep their meaning.
// bounds: 2 float attributes in a group, 2 rows, any values
func VH_C03_frozen() {
	inst := NewDenseInstances()
	inst.CreateAttributeGroup("G", 8)
	a, b := vAttr(kF, "a"), vAttr(kF, "b")
	sa, _ := inst.AddAttributeToAttributeGroup(a, "G")
	sb, _ := inst.AddAttributeToAttributeGroup(b, "G")
	inst.Extend(2)
	var vals [][]byte
	for r := 0; r < 2; r++ {
		for i, s := range []AttributeSpec{sa, sb} {
			v := vCell(kF, fmt.Sprint("v", r, i))
			inst.Set(s, r, v)
			vals = append(vals, v)
		}
	}
	vPanics(func() { inst.AddAttributeToAttributeGroup(vAttr(kF, "late"), "G") })
	k := 0
	for r := 0; r < 2; r++ {
		for _, s := range []AttributeSpec{sa, sb} {
			vk.Assert(vk.BytesEq(inst.Get(s, r), vals[k]), "stored cells keep their values when an attribute arrives too late")
			k++
		}
	}
}

// VH_C03_mixed: a group takes only attributes compatible with all of its members.
// bounds: groups of 1-3 members of any kinds, a newcomer of any kind
func VH_C03_mixed() {
	inst := NewDenseInstances()
	inst.CreateAttributeGroup("G", 8)
	n := 1 + vk.Choose("n", 3)
	k := vk.Choose("k", 3)
	for i := 0; i < n; i++ {
		_, err := inst.AddAttributeToAttributeGroup(vAttr(k, fmt.Sprint("x", i)), "G")
		vk.Assert(err == nil, "compatible attribute accepted")
	}
	k2 := vk.Choose("k2", 3)
	before := len(inst.AllAttributes())
	_, err := inst.AddAttributeToAttributeGroup(vAttr(k2, "new"), "G")
	vk.Assert((err == nil) == (k == k2), "an incompatible attribute is refused, a compatible one accepted")
	if err != nil {
		vk.Assert(len(inst.AllAttributes()) == before, "a refused attribute leaves no trace")
	}
	_, err = inst.AddAttributeToAttributeGroup(vAttr(k, "other"), "H")
	vk.Assert(err != nil, "unknown group is an error")
}
