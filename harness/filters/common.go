package filters

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

func vSomeFilter(d base.FixedDataGrid, which int, on func(i int) bool) base.Filter {
	var f base.Filter
	switch which {
	case 0:
		f = NewBinaryConvertFilter()
	case 1:
		f = NewFloatConvertFilter()
	default:
		f = NewBinningFilter(d, 3)
	}
	for i, a := range d.AllAttributes() {
		if on(i) {
			if f.AddAttribute(a) != nil && which < 2 {
				panic("attribute refused")
			}
		}
	}
	if f.Train() != nil {
		panic("training failed")
	}
	return f
}

// vLazyAgrees: the filtered grid shows, for each attribute, what the filter makes of its source cell.
func vLazyAgrees(d base.FixedDataGrid, src base.FixedDataGrid, f base.Filter, label string) {
	fas := f.GetAttributesAfterFiltering()
	_, rows := d.Size()
	_, srows := src.Size()
	vk.Assert(rows == srows, label+": as many rows as the source")
	nattr := 0
	isCls := func(cs []base.Attribute, a base.Attribute) bool {
		n := 0
		for _, c := range cs {
			if c.Equals(a) {
				n++
			}
		}
		vk.Assert(n <= 1, label+": class attributes are listed once")
		return n == 1
	}
	for _, a := range src.AllAttributes() {
		var ns, os []base.Attribute
		for _, fa := range fas {
			if fa.Old.Equals(a) {
				ns, os = append(ns, fa.New), append(os, fa.Old)
			}
		}
		pass := len(ns) == 0
		if pass {
			ns = append(ns, a)
		}
		for i, n := range ns {
			nattr++
			have := vg.HasName(d.AllAttributes(), n.GetName())
			vk.Assert(have != nil && have.Equals(n), label+": resulting attribute is listed")
			vk.Assert(isCls(src.AllClassAttributes(), a) == isCls(d.AllClassAttributes(), have), label+": class marks follow the attribute")
			for r := 0; r < rows; r++ {
				old := vg.Get(src, a, r)
				want := old
				if !pass {
					want = f.Transform(os[i], n, old)
				}
				vk.Assert(vk.BytesEq(vg.Get(d, have, r), want), label+": cell is the transformed source cell")
			}
		}
	}
	k, _ := d.Size()
	vk.Assert(k == nattr && len(d.AllAttributes()) == nattr, label+": number of attributes")
	// row iteration agrees with direct reads, for any order of columns
	specs := base.ResolveAllAttributes(d)
	vk.Assert(len(specs) == nattr, label+": every attribute resolves")
	if len(d.AllAttributes())%2 == 1 {
		for i, j := 0, len(specs)-1; i < j; i, j = i+1, j-1 {
			specs[i], specs[j] = specs[j], specs[i]
		}
	}
	next := 0
	err := d.MapOverRows(specs, func(v [][]byte, r int) (bool, error) {
		vk.Assert(r == next, label+": rows in order")
		next++
		for i, s := range specs {
			vk.Assert(vk.BytesEq(v[i], d.Get(s, r)), label+": iteration shows the same values as direct reads")
		}
		return true, nil
	})
	vk.Assert(err == nil && next == rows, label+": every row visited")
}
