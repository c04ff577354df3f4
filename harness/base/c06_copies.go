package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C06_copy: a dense copy of any grid holds the same attributes, classes and values and is independent of it.
// bounds: dense, masked view, re-mapped view, filtered and matrix sources; 1-3 rows, 3 columns, 1 class attribute (with 1 row: none, 1 or 2), any cells; any map iteration order; attributes of one or different names
func VH_C06_copy() {
	vk.Opt("maporder", 1)
	vOneName = vk.Choose("onename", 2) == 1
	rows := 1 + vk.Choose("rows", 3)
	g := vDense([]int{kF, kC, kB}, [][]int{{1}, {0, 2}, {2, 1}, {}}[vk.Choose("classes", 1+3*vk.B2I(rows == 1))], rows)
	var d FixedDataGrid = g.inst
	switch vk.Choose("src", 5) {
	case 1:
		d = NewInstancesViewFromVisible(g.inst, []int{rows - 1, 0}, []Attribute{g.attrs[2], g.attrs[1]})
	case 2:
		d = NewInstancesViewFromRows(g.inst, map[int]int{0: rows - 1, rows - 1: 0})
	case 3:
		f := &vFilter{}
		f.AddAttribute(g.attrs[0])
		d = NewLazilyFilteredInstances(g.inst, f)
	case 4:
		d = vMat(rows, 2)
		d.AddClassAttribute(d.AllAttributes()[1])
	}
	c := NewDenseCopy(d)
	vSameGrid(c, d, "copy")
	// independence
	a := d.AllAttributes()[0]
	s, _ := c.GetAttribute(a)
	ds, _ := d.GetAttribute(a)
	before := append([]byte{}, d.Get(ds, 0)...)
	nv := make([]byte, len(before))
	for i := range nv {
		nv[i] = before[i] ^ 1
	}
	c.Set(s, 0, nv)
	vk.Assert(vk.BytesEq(d.Get(ds, 0), before), "writing the copy leaves the source alone")
	e := NewStructuralCopy(d)
	ec, er := e.Size()
	dc, _ := d.Size()
	vk.Assert(er == 0 && ec == dc, "structural copy is empty with the same columns")
	for i, a := range d.AllAttributes() {
		vk.Assert(vHas(e.AllAttributes(), a), "structural copy attributes")
		_ = i
	}
	vk.Assert(len(e.AllClassAttributes()) == len(d.AllClassAttributes()), "structural copy classes")
	for _, a := range d.AllClassAttributes() {
		vk.Assert(vHas(e.AllClassAttributes(), a), "structural copy classes")
	}
}

// VH_C06_equal: InstancesAreEqual is true exactly when sizes, attributes and values agree.
// bounds: 2 grids of 0-2 rows, 2 columns, any cells; the second may lack or rename an attribute
func VH_C06_equal() {
	r1, r2 := vk.Choose("r1", 3), vk.Choose("r2", 3)
	mk := func(name string, rows int, a1 string) (*DenseInstances, [][]byte) {
		d := NewDenseInstances()
		s0 := d.AddAttribute(NewFloatAttribute("a"))
		s1 := d.AddAttribute(vAttr(kC, a1))
		d.Extend(rows)
		var vals [][]byte
		for r := 0; r < rows; r++ {
			x, y := vCell(kF, fmt.Sprint(name, "x", r)), vCell(kC, fmt.Sprint(name, "y", r))
			d.Set(s0, r, x)
			d.Set(s1, r, y)
			vals = append(vals, x, y)
		}
		return d, vals
	}
	n2 := []string{"b", "z"}[vk.Choose("name", 2)]
	d, v := mk("p", r1, "b")
	e, w := mk("q", r2, n2)
	eq := r1 == r2 && n2 == "b"
	if eq {
		conds := []bool{}
		for i := range v {
			conds = append(conds, vk.BytesEq(v[i], w[i]))
		}
		if len(conds) > 0 {
			eq = vk.And(conds...)
		}
	}
	vk.Assert(vk.Iff(InstancesAreEqual(d, e), eq), "equal exactly when everything agrees")
	vk.Assert(InstancesAreEqual(d, d), "reflexive")
}

// VH_C06_template: CopyDenseInstances keeps the grouping; GeneratePredictionVector holds just the classes.
// bounds: 5 columns in default and named groups, two of different categories, any map iteration order
func VH_C06_template() {
	vk.Opt("maporder", 1)
	inst := NewDenseInstances()
	inst.CreateAttributeGroup("G", 8)
	a := vAttr(kF, "a")
	inst.AddAttributeToAttributeGroup(a, "G")
	b, c, d := vAttr(kC, "b"), vAttr(kB, "c"), vAttr(kF, "d")
	inst.AddAttribute(b)
	inst.AddAttribute(c)
	inst.AddAttribute(d)
	e := NewCategoricalAttribute()
	e.SetName("e")
	e.GetSysValFromString("z")
	inst.AddAttribute(e)
	inst.AddClassAttribute(b)
	inst.Extend(2)
	if vk.Choose("part", 2) == 1 {
		vPrediction(inst, b)
		return
	}
	cp := CopyDenseInstances(inst, inst.AllAttributes())
	vk.Assert(CheckStrictlyCompatible(inst, cp) && CheckStrictlyCompatible(cp, inst), "template copy is strictly compatible")
	for n, ag := range inst.AllAttributeGroups() {
		ag2, err := cp.GetAttributeGroup(n)
		vk.Assert(err == nil && len(ag2.Attributes()) == len(ag.Attributes()), "same groups")
		vk.Assert(ag2.RowSizeInBytes() == ag.RowSizeInBytes(), "same row size")
	}
}

func vPrediction(inst *DenseInstances, b Attribute) {
	p := GeneratePredictionVector(inst)
	pc, pr := p.Size()
	vk.Assert(pc == 1 && pr == 2, "prediction vector has one class column and every row")
	vk.Assert(len(p.AllClassAttributes()) == 1 && p.AllClassAttributes()[0].Equals(b), "prediction vector's class")
	v := vk.Choose("v", 3)
	r := vk.Choose("r", 2)
	SetClass(p, r, string("abc"[v]))
	vk.Assert(GetClass(p, r) == string("abc"[v]), "SetClass then GetClass")
	vk.Assert(GetClass(p, 1-r) == "a", "other rows unchanged")
}

// VH_C06_strict: CheckStrictlyCompatible and CheckCompatible compare every group and attribute.
// bounds: 2 grids of up to 3 float/category attributes with names from a pool of 2
func VH_C06_strict() {
	mk := func(p string) (*DenseInstances, []string) {
		d := NewDenseInstances()
		n := 1 + vk.Choose(p+"n", 3)
		var ids []string
		for i := 0; i < n; i++ {
			k := vk.Choose(fmt.Sprint(p, "k", i), 2)
			nm := fmt.Sprint("x", i)
			if vk.Choose(fmt.Sprint(p, "m", i), 2) == 1 {
				nm = fmt.Sprint("y", i)
			}
			d.AddAttribute(vAttr(k, nm))
			ids = append(ids, fmt.Sprint(k, nm))
		}
		return d, ids
	}
	d, x := mk("p")
	e, y := mk("q")
	// expected: the same multiset per kind in the same order
	part := func(ids []string, k byte) []string {
		var r []string
		for _, s := range ids {
			if s[0] == k {
				r = append(r, s)
			}
		}
		return r
	}
	same := true
	for _, k := range []byte{'0', '1'} {
		a, b := part(x, k), part(y, k)
		if len(a) != len(b) {
			same = false
			continue
		}
		for i := range a {
			same = same && a[i] == b[i]
		}
	}
	vk.Assert(CheckStrictlyCompatible(d, e) == same, "strict compatibility")
	comp := len(x) == len(y)
	for _, s := range x {
		in := false
		for _, t := range y {
			in = in || s == t
		}
		comp = comp && in
	}
	vk.Assert((CheckCompatible(d, e) != nil) == comp, "compatibility")
}
