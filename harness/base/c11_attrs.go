package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C11_codes: a categorical attribute's codes are a stable bijection.
// bounds: 4 values of 2 arbitrary bytes each, in any order and with any repetitions (thorough: 6)
func VH_C11_codes() {
	n := 4
	if vk.Thorough() {
		n = 6
	}
	a := NewCategoricalAttribute()
	var ss []string
	var codes []uint64
	for i := 0; i < n; i++ {
		s := vk.Str(fmt.Sprintf("s%d", i), 2)
		known := false
		for _, t := range ss {
			if vk.StrEq(s, t) {
				known = true
			}
		}
		pre := a.GetSysVal(s)
		vk.Assert((pre != nil) == known, "GetSysVal is non-nil exactly for known values")
		c := a.GetSysValFromString(s)
		if known {
			vk.Assert(vk.BytesEq(pre, c), "looking up and adding agree")
		}
		ss = append(ss, s)
		codes = append(codes, UnpackBytesToU64(c))
		vk.Assert(len(a.GetValues()) <= i+1, "no more values than were given")
	}
	for i := range ss {
		c := PackU64ToBytes(codes[i])
		vk.Assert(vk.StrEq(a.GetStringFromSysVal(c), ss[i]), "code maps back to its string")
		vk.Assert(vk.StrEq(a.GetUsrVal(c), ss[i]), "GetUsrVal maps back to its string")
		vk.Assert(vk.BytesEq(a.GetSysVal(ss[i]), c), "codes are stable")
		vk.Assert(vk.StrEq(a.GetValues()[codes[i]], ss[i]), "GetValues lists values by code")
		for j := range ss {
			vk.Assert(vk.Iff(codes[i] == codes[j], vk.StrEq(ss[i], ss[j])), "codes are equal exactly when strings are")
		}
	}
}

// VH_C11_equals: Equals and Compatible decide exactly what they should.
// bounds: two attributes of any kind, any 1-byte names, up to 2 distinct 1-byte categories each
// outside: whether the same categories in a different order are Equal (the interface and the implementation disagree)
func VH_C11_equals() {
	a, ka, na, va := vAnyAttr("a")
	b, kb, nb, vb := vAnyAttr("b")
	sameVals, sameSet := len(va) == len(vb), len(va) == len(vb)
	for i := range va {
		if sameVals {
			sameVals = vk.And(sameVals, vk.StrEq(va[i], vb[i]))
		}
		in := false
		for j := range vb {
			in = vk.Or(in, vk.StrEq(va[i], vb[j]))
		}
		sameSet = vk.And(sameSet, in)
	}
	eq := a.Equals(b)
	vk.Assert(eq == b.Equals(a), "Equals is symmetric")
	vk.Assert(a.Equals(a), "Equals is reflexive")
	vk.Assert(vk.Implies(eq, vk.And(ka == kb, vk.StrEq(na, nb), vk.Or(ka != kC, sameSet))), "equal attributes share type, name and categories")
	vk.Assert(vk.Implies(vk.And(ka == kb, vk.StrEq(na, nb), vk.Or(ka != kC, sameVals)), eq), "attributes with the same type, name and categories are equal")
	cp := a.Compatible(b)
	vk.Assert(cp == b.Compatible(a), "Compatible is symmetric")
	vk.Assert(vk.Iff(cp, vk.And(ka == kb, vk.Or(ka != kC, sameVals))), "compatible exactly when stored values mean the same")
	vk.Assert(a.GetType() == map[int]int{kF: Float64Type, kC: CategoricalType, kB: BinaryType}[ka], "type constant")
	vk.Assert(vk.StrEq(a.GetName(), na), "name is kept")
}

// VH_C11_sets: intersection and difference of attribute lists.
// bounds: lists of 3 and 2 float attributes with arbitrary 1-byte names (thorough: 4 and 3)
func VH_C11_sets() {
	n1, n2 := 3, 2
	if vk.Thorough() {
		n1, n2 = 4, 3
	}
	mk := func(tag string, n int) (r []Attribute, names []string) {
		for i := 0; i < n; i++ {
			s := vk.Str(fmt.Sprintf("%s%d", tag, i), 1)
			names = append(names, s)
			r = append(r, NewFloatAttribute(s))
		}
		return
	}
	a1, s1 := mk("a", n1)
	a2, s2 := mk("b", n2)
	// a shared pointer, for the reference versions
	if vk.Choose("share", 2) == 1 {
		a2[0], s2[0] = a1[1], s1[1]
	}
	in := func(i int) bool {
		for _, s := range s2 {
			if s == s1[i] {
				return true
			}
		}
		return false
	}
	inter, diff := AttributeIntersect(a1, a2), AttributeDifference(a1, a2)
	var wi, wd []Attribute
	for i := range a1 {
		if in(i) {
			wi = append(wi, a1[i])
		} else {
			wd = append(wd, a1[i])
		}
	}
	same := func(got, want []Attribute, label string) {
		vk.Assert(len(got) == len(want), label+": length")
		for i := range want {
			vk.Assert(got[i] == want[i], label+": the attributes of the first list, in order")
		}
	}
	same(inter, wi, "intersection")
	same(diff, wd, "difference")
	ri, rd := AttributeIntersectReferences(a1, a2), AttributeDifferenceReferences(a1, a2)
	cnt := func(l []Attribute, a Attribute) (n int) {
		for _, x := range l {
			if x == a {
				n++
			}
		}
		return
	}
	for i := range a1 {
		p := cnt(a2, a1[i]) > 0
		vk.Assert((cnt(ri, a1[i]) == 1) == p, "reference intersection holds exactly the shared references")
		vk.Assert((cnt(rd, a1[i]) == 1) == !p, "reference difference holds exactly the unshared references")
	}
	vk.Assert(len(ri)+len(rd) == n1, "reference intersection and difference split the first list")
}

// VH_C11_nonclass: the non-class attribute helpers.
// bounds: 4 columns of any kinds, every subset marked as class
func VH_C11_nonclass() {
	var kinds []int
	var cls []int
	for i := 0; i < 4; i++ {
		kinds = append(kinds, vk.Choose("k", 3))
		if vk.Choose("cls", 2) == 1 {
			cls = append(cls, i)
		}
	}
	g := vDense(kinds, cls, 0)
	isCls := func(i int) bool {
		for _, c := range cls {
			if c == i {
				return true
			}
		}
		return false
	}
	nf, nc := NonClassFloatAttributes(g.inst), NonClassAttributes(g.inst)
	wf, wc := 0, 0
	for i, a := range g.attrs {
		if !isCls(i) {
			wc++
			vk.Assert(vHas(nc, a), "non-class attribute listed")
			if kinds[i] == kF {
				wf++
				vk.Assert(vHas(nf, a), "non-class float attribute listed")
			}
		}
	}
	vk.Assert(len(nf) == wf && len(nc) == wc, "nothing else is listed")
}

// VH_C11_text: values survive conversion to text and back.
// bounds: floats that are multiples of 1/4 in [-64,64] at precision 2..4; both bits; binary text "0","1","-1","2.5"
func VH_C11_text() {
	f := NewFloatAttribute("f")
	f.Precision = 2 + vk.Choose("p", 3)
	x := vk.FDyadic("x", -256, 256, 2)
	s := f.GetStringFromSysVal(PackFloatToBytes(x))
	back, err := f.CheckSysValFromString(s)
	vk.Assert(err == nil, "own text is accepted")
	vk.Assert(UnpackBytesToFloat(back) == x, "float text round trip")
	vk.Assert(UnpackBytesToFloat(f.GetSysValFromString(s)) == x, "float text round trip, panicking form")
	b := NewBinaryAttribute("b")
	bit := byte(vk.Int("bit", 0, 1))
	t := b.GetStringFromSysVal([]byte{bit})
	r := b.GetSysValFromString(t)
	vk.Assert(len(r) == 1 && r[0] == bit, "binary text round trip")
	_, err = f.CheckSysValFromString("1x")
	vk.Assert(err != nil, "text that is no number is refused")
	vk.Assert(vPanics(func() { f.GetSysValFromString("abc") }), "text that is no number panics")
	vk.Assert(b.GetSysValFromString("2.5")[0] == 1 && b.GetSysValFromString("0.0")[0] == 0, "binary numerals")
}
