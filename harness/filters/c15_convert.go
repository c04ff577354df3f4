package filters

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

var vCats = []string{"p", "q", "r", "s"}

// vAttrOf makes an attribute of one of 5 shapes: float, binary, categorical with 1..4 values.
func vAttrOf(shape int, name string) base.Attribute {
	switch shape {
	case 0:
		return base.NewFloatAttribute(name)
	case 1:
		return base.NewBinaryAttribute(name)
	}
	return vg.Attr(vg.C, name, vCats[:shape-1]...)
}

// vExpect checks the cells of row r produced from old attribute a with old value v.
func vConverted(d base.FixedDataGrid, a base.Attribute, v []byte, r int, read func([]byte) float64, label string) {
	all := d.AllAttributes()
	switch x := a.(type) {
	case *base.CategoricalAttribute:
		k := base.UnpackBytesToU64(v)
		cats := x.GetValues()
		if len(cats) > 2 {
			for i, c := range cats {
				n := vg.HasName(all, fmt.Sprintf("%s_%s", a.GetName(), c))
				vk.Assert(n != nil, label+": one new attribute per category")
				got := read(vg.Get(d, n, r))
				vk.Assert(vk.Iff(k == uint64(i), got == 1), label+": 1 in the observed category's attribute only")
				vk.Assert(vk.Iff(k != uint64(i), got == 0), label+": 0 in every other category's attribute")
			}
			return
		}
		n := vg.HasName(all, a.GetName())
		vk.Assert(n != nil, label+": one attribute of the same name")
		vk.Assert(read(vg.Get(d, n, r)) == float64(k), label+": two categories become 0 and 1")
	case *base.BinaryAttribute:
		n := vg.HasName(all, a.GetName())
		vk.Assert(n != nil, label+": one attribute of the same name")
		vk.Assert(read(vg.Get(d, n, r)) == float64(v[0]), label+": bit keeps its value")
	}
}

// VH_C15_binary: BinaryConvertFilter turns every kind of column into bits.
// bounds: 2 columns, each a float, a binary or a categorical of 1..4 values, 2 rows of any content (any float bits)
func VH_C15_binary() {
	vk.Opt("maporder", 1)
	as := []base.Attribute{vAttrOf(vk.Choose("s0", 6), "x"), vAttrOf(vk.Choose("s1", 6), "y")}
	g := vg.New(as, nil, 2, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprintf("v%d%d", r, c)) })
	f := NewBinaryConvertFilter()
	for _, a := range as {
		vk.Assert(f.AddAttribute(a) == nil, "attribute accepted")
	}
	vk.Assert(f.Train() == nil, "training succeeds")
	d := base.NewLazilyFilteredInstances(g.Inst, f)
	for _, a := range d.AllAttributes() {
		_, ok := a.(*base.BinaryAttribute)
		vk.Assert(ok, "every resulting attribute is binary")
	}
	read := func(b []byte) float64 {
		vk.Assert(len(b) == 1, "a bit is one byte")
		return float64(b[0])
	}
	want := 0
	for c, a := range as {
		want += vWidth(a)
		for r := 0; r < 2; r++ {
			if _, ok := a.(*base.FloatAttribute); ok {
				n := vg.HasName(d.AllAttributes(), a.GetName())
				vk.Assert(n != nil, "float column keeps its name")
				x := base.UnpackBytesToFloat(g.Vals[r][c])
				b := vg.Get(d, n, r)
				vk.Assert(vk.Iff(x != 0, b[0] == 1), "a float becomes 1 exactly when it is not zero")
				vk.Assert(vk.Iff(x == 0, b[0] == 0), "a float becomes 0 exactly when it is zero")
			}
			vConverted(d, a, g.Vals[r][c], r, read, "binary")
		}
	}
	n, rows := d.Size()
	vk.Assert(n == want && len(d.AllAttributes()) == want && rows == 2, "number of resulting attributes")
	vk.Cover("binary")
}

func vWidth(a base.Attribute) int {
	if c, ok := a.(*base.CategoricalAttribute); ok && len(c.GetValues()) > 2 {
		return len(c.GetValues())
	}
	return 1
}

// VH_C15_float: FloatConvertFilter turns every kind of column into floats and keeps floats bit for bit.
// bounds: 2 columns, each a float, a binary or a categorical of 1..4 values, 2 rows of any content (any float bits)
func VH_C15_float() {
	vk.Opt("maporder", 1)
	as := []base.Attribute{vAttrOf(vk.Choose("s0", 6), "x"), vAttrOf(vk.Choose("s1", 6), "y")}
	g := vg.New(as, nil, 2, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprintf("v%d%d", r, c)) })
	f := NewFloatConvertFilter()
	for _, a := range as {
		vk.Assert(f.AddAttribute(a) == nil, "attribute accepted")
	}
	vk.Assert(f.Train() == nil, "training succeeds")
	d := base.NewLazilyFilteredInstances(g.Inst, f)
	for _, a := range d.AllAttributes() {
		_, ok := a.(*base.FloatAttribute)
		vk.Assert(ok, "every resulting attribute is a float")
	}
	read := func(b []byte) float64 { return base.UnpackBytesToFloat(b) }
	want := 0
	for c, a := range as {
		want += vWidth(a)
		for r := 0; r < 2; r++ {
			if _, ok := a.(*base.FloatAttribute); ok {
				n := vg.HasName(d.AllAttributes(), a.GetName())
				vk.Assert(n != nil, "float column keeps its name")
				vk.Assert(vk.BytesEq(vg.Get(d, n, r), g.Vals[r][c]), "floats are unchanged")
			}
			vConverted(d, a, g.Vals[r][c], r, read, "float")
		}
	}
	n, rows := d.Size()
	vk.Assert(n == want && len(d.AllAttributes()) == want && rows == 2, "number of resulting attributes")
	vk.Cover("float")
}

// VH_C15_source: converting never changes the source data, also when read through both filters at once.
// bounds: 3 columns (float, categorical of 3, binary), 2 rows of any content, either filter or one over the other
func VH_C15_source() {
	as := []base.Attribute{vAttrOf(0, "x"), vAttrOf(4, "y"), vAttrOf(1, "z")}
	g := vg.New(as, []int{1}, 2, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprintf("v%d%d", r, c)) })
	var d base.FixedDataGrid = g.Inst
	for i := 0; i < 2; i++ {
		var f base.Filter
		switch vk.Choose(fmt.Sprint("f", i), 3) {
		case 0:
			f = NewBinaryConvertFilter()
		case 1:
			f = NewFloatConvertFilter()
		default:
			continue
		}
		for _, a := range d.AllAttributes() {
			vk.Assert(f.AddAttribute(a) == nil, "attribute accepted")
		}
		vk.Assert(f.Train() == nil, "training succeeds")
		d = base.NewLazilyFilteredInstances(d, f)
	}
	for r := 0; r < 2; r++ {
		for _, a := range d.AllAttributes() {
			b := vg.Get(d, a, r)
			c := vg.Get(d, a, r)
			vk.Assert(vk.BytesEq(b, c), "reading twice gives the same value")
			if a.GetType() == base.BinaryType {
				vk.Assert(b[0] <= 1, "a bit is 0 or 1")
			}
		}
		for c, a := range as {
			vk.Assert(vk.BytesEq(vg.Get(g.Inst, a, r), g.Vals[r][c]), "source unchanged")
		}
		for i, c := range vCats[:3] {
			n := vg.HasName(d.AllAttributes(), "y_"+c)
			if n == nil {
				continue
			}
			b := vg.Get(d, n, r)
			one := b[0] == 1
			if len(b) == 8 {
				one = base.UnpackBytesToFloat(b) == 1
			}
			vk.Assert(vk.Iff(one, base.UnpackBytesToU64(g.Vals[r][1]) == uint64(i)), "category indicators survive stacking")
		}
	}
	vk.Cover("source")
}
