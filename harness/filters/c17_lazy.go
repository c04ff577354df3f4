package filters

import (
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C17_agree: filtered grids show the transformed cells, however read; other columns pass through.
// bounds: float, 3-category and binary columns 2 rows of any content, every subset filtered, 4 class subsets, 2 filters
func VH_C17_agree() {
	as := vg.Kinds(vg.F, vg.C, vg.B)
	var cls []int
	cm := []int{0, 1, 6, 7}[vk.Choose("cls", 4)]
	for i := 0; i < 3; i++ {
		if cm>>uint(i)&1 == 1 {
			cls = append(cls, i)
		}
	}
	g := vg.New(as, cls, 2, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprintf("v%d%d", r, c)) })
	m := vk.Choose("mask", 8)
	f := vSomeFilter(g.Inst, vk.Choose("filter", 2), func(i int) bool { return m>>uint(i)&1 == 1 })
	d := base.NewLazilyFilteredInstances(g.Inst, f)
	vLazyAgrees(d, g.Inst, f, "filtered")
	vk.Cover("agree")
}

// VH_C17_class: class attributes can be set and unset by either their old or their new name.
// bounds: 3 columns (float, 3-category, binary), filtered or not, every column, by old or new attribute
func VH_C17_class() {
	vk.Opt("maporder", 1)
	as := vg.Kinds(vg.F, vg.C, vg.B)
	g := vg.New(as, nil, 1, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprintf("v%d%d", r, c)) })
	m := vk.Choose("mask", 8)
	f := vSomeFilter(g.Inst, vk.Choose("filter", 2), func(i int) bool { return m>>uint(i)&1 == 1 })
	d := base.NewLazilyFilteredInstances(g.Inst, f)
	vk.Assert(len(d.AllClassAttributes()) == 0, "no class attributes to begin with")
	c := vk.Choose("col", 3)
	vk.Assert(d.AddClassAttribute(as[c]) == nil, "old attribute accepted")
	cl := d.AllClassAttributes()
	var want []string
	for _, fa := range f.GetAttributesAfterFiltering() {
		if fa.Old.Equals(as[c]) {
			want = append(want, fa.New.GetName())
		}
	}
	if want == nil {
		want = []string{as[c].GetName()}
	}
	vk.Assert(len(cl) == len(want), "as many class attributes as the column became")
	for _, w := range want {
		vk.Assert(vg.HasName(cl, w) != nil, "everything the column became is marked")
	}
	non := base.NonClassAttributes(d)
	vk.Assert(len(non)+len(cl) == len(d.AllAttributes()), "the rest is not")
	vk.Assert(d.AddClassAttribute(base.NewFloatAttribute("zz")) != nil, "unknown attributes are refused")
	vk.Assert(d.RemoveClassAttribute(as[c]) == nil, "removal by the old attribute")
	vk.Assert(len(d.AllClassAttributes()) == 0, "nothing is left marked")
	n := cl[vk.Choose("new", len(cl))]
	vk.Assert(d.AddClassAttribute(n) == nil, "new attribute accepted")
	vk.Assert(vg.HasName(d.AllClassAttributes(), n.GetName()) != nil, "and marked")
	vk.Cover("class")
}

// VH_C17_stack: a filter over a filtered grid, and a dense copy of a filtered grid.
// bounds: 3 columns (float, 3-category, binary), 2 rows of any content, any pair of filters over any subsets
func VH_C17_stack() {
	as := vg.Kinds(vg.F, vg.C, vg.B)
	g := vg.New(as, []int{1}, 2, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprintf("v%d%d", r, c)) })
	m := vk.Choose("mask", 8)
	f1 := vSomeFilter(g.Inst, vk.Choose("filter1", 2), func(i int) bool { return m>>uint(i)&1 == 1 })
	d1 := base.NewLazilyFilteredInstances(g.Inst, f1)
	odd := vk.Choose("odd", 3)
	f2 := vSomeFilter(d1, vk.Choose("filter2", 2), func(i int) bool { return odd == 2 || i%2 == odd })
	d2 := base.NewLazilyFilteredInstances(d1, f2)
	vLazyAgrees(d2, d1, f2, "stacked")
	if vk.Choose("copy", 2) == 1 {
		c := base.NewDenseCopy(d2)
		for _, a := range d2.AllAttributes() {
			for r := 0; r < 2; r++ {
				vk.Assert(vk.BytesEq(vg.Get(c, a, r), vg.Get(d2, a, r)), "a dense copy holds the filtered cells")
			}
		}
		vk.Assert(len(c.AllClassAttributes()) == len(d2.AllClassAttributes()), "a dense copy keeps the class attributes")
	}
	vk.Cover("stack")
}

// VH_C17_view: filters over a row view, and a view over a filtered grid.
// bounds: 3 source rows, any 2 rows selected in any order, float+categorical+binary, any subset filtered
func VH_C17_view() {
	as := vg.Kinds(vg.F, vg.C, vg.B)
	g := vg.New(as, []int{1}, 3, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprintf("v%d%d", r, c)) })
	rows := []int{vk.Choose("r0", 3), vk.Choose("r1", 3)}
	m := vk.Choose("mask", 8)
	on := func(i int) bool { return m>>uint(i)&1 == 1 }
	if vk.Choose("order", 2) == 0 {
		v := base.NewInstancesViewFromVisible(g.Inst, rows, as)
		f := vSomeFilter(v, 1, on)
		d := base.NewLazilyFilteredInstances(v, f)
		vLazyAgrees(d, v, f, "filter over view")
	} else {
		f := vSomeFilter(g.Inst, 1, on)
		d := base.NewLazilyFilteredInstances(g.Inst, f)
		v := base.NewInstancesViewFromVisible(d, rows, d.AllAttributes())
		for _, a := range d.AllAttributes() {
			for i, r := range rows {
				vk.Assert(vk.BytesEq(vg.Get(v, a, i), vg.Get(d, a, r)), "view shows the filtered cells of its rows")
			}
		}
	}
	vk.Cover("view")
}

// VH_C17_text: a filtered row prints its filtered values.
// bounds: float (integer 0..3), 3-category and binary columns, every subset filtered
func VH_C17_text() {
	as := vg.Kinds(vg.F, vg.C, vg.B)
	x, k, b := vk.Choose("x", 4), vk.Choose("k", 3), vk.Choose("b", 2)
	g := vg.New(as, nil, 1, func(r, c int) []byte {
		return [][]byte{vg.Float(float64(x)), vg.Cat(k), {byte(b)}}[c]
	})
	m := vk.Choose("mask", 8)
	f := vSomeFilter(g.Inst, 0, func(i int) bool { return m>>uint(i)&1 == 1 })
	d := base.NewLazilyFilteredInstances(g.Inst, f)
	var want []string
	for _, a := range d.AllAttributes() {
		want = append(want, a.GetStringFromSysVal(vg.Get(d, a, 0)))
	}
	vk.Assert(d.RowString(0) == strings.Join(want, " "), "the row's text is its values' text")
	vk.Cover("text")
}

// VH_C17_other: a filter trained on one grid and applied to another with equal attributes shows the other's cells transformed; class marks and lookups go by equality.
// bounds: 3 columns (float, 3-category, binary), trained on 2 fixed rows, 2 rows of any content (integers in [-3,3]), every subset filtered, 3 filters, each column marked by an equal attribute
func VH_C17_other() {
	vk.Opt("merge", 0)
	mk := func(tag string) (*vg.Grid, []base.Attribute) {
		as := vg.Kinds(vg.F, vg.C, vg.B)
		return vg.New(as, nil, 2, func(r, c int) []byte {
			if tag != "h" {
				return [][]byte{vg.Float(float64(r)), vg.Cat(r), {byte(r)}}[c]
			}
			if c == 0 {
				return vg.Float(vk.FInt(fmt.Sprint(tag, r), -3, 3))
			}
			return vg.Any(as[c], fmt.Sprintf("%s%d%d", tag, r, c))
		}), as
	}
	g, _ := mk("g")
	h, _ := mk("h")
	m := vk.Choose("mask", 8)
	f := vSomeFilter(g.Inst, vk.Choose("filter", 3), func(i int) bool { return m>>uint(i)&1 == 1 })
	_, others := mk("o")
	h.Inst.AddClassAttribute(others[vk.Choose("class", 3)])
	d := base.NewLazilyFilteredInstances(h.Inst, f)
	vLazyAgrees(d, h.Inst, f, "filter of another grid")
	for i, o := range others {
		if f2, ok := o.(*base.FloatAttribute); ok && m&1 == 0 {
			s, err := d.GetAttribute(f2)
			vk.Assert(err == nil && vk.BytesEq(d.Get(s, 0), h.Vals[0][i]), "columns which pass through are found by equal attributes")
			vk.Assert(d.AddClassAttribute(f2) == nil && vg.HasName(d.AllClassAttributes(), f2.GetName()) != nil, "and can be marked by them")
			vk.Assert(d.RemoveClassAttribute(f2) == nil && vg.HasName(d.AllClassAttributes(), f2.GetName()) == nil, "and unmarked")
		}
	}
}
