package base

import (
	"bytes"
	"fmt"
	"strings"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C14_roundtrip: instances written as dense ARFF and read back hold the same values.
// bounds: 1..3 columns of kinds f/c, 1..2 rows, multiples of 1/4 in [-64,64], every category assignment, every class column
func VH_C14_roundtrip() {
	kinds := [][]int{{kF, kC}, {kC, kF}, {kF, kC, kF}, {kC, kC}, {kC}}[vk.Choose("shape", 5)]
	cls := vk.Choose("cls", len(kinds))
	rows := 1 + vk.Choose("rows", 2)
	g := vDenseWith(kinds, []int{cls}, rows, func(k int, n string) []byte {
		if k == kF {
			return PackFloatToBytes(vk.FDyadic(n, -256, 256, 2))
		}
		return PackU64ToBytes(uint64(vk.Conc(vk.Int(n, 0, 2))))
	})
	p := vPut("x.arff", "")
	vk.Assert(SerializeInstancesToDenseARFF(g.inst, p, "rel") == nil, "writes")
	d, err := ParseDenseARFFToInstances(p)
	vk.Assert(err == nil, "reads")
	c, r := d.Size()
	vk.Assert(c == len(kinds) && r == rows, "same size")
	for i, a := range g.attrs {
		b := GetAttributeByName(d, a.GetName())
		vk.Assert(b != nil && b.GetType() == a.GetType(), "same column kind")
		if ca, ok := a.(*CategoricalAttribute); ok {
			vk.Assert(strings.Join(ca.GetValues(), "|") == strings.Join(b.(*CategoricalAttribute).GetValues(), "|"), "same categories in order")
		}
		s, err := d.GetAttribute(b)
		vk.Assert(err == nil, "column resolves")
		for j := 0; j < rows; j++ {
			vk.Assert(vk.BytesEq(d.Get(s, j), g.vals[j][i]), "same cell")
		}
	}
	cl := d.AllClassAttributes()
	vk.Assert(len(cl) == 1 && cl[0].GetName() == g.attrs[cls].GetName(), "same class attribute")
}

// VH_C14_order: attributes are written in the order asked for.
// bounds: 3 columns, every order of writing
func VH_C14_order() {
	g := vDenseWith([]int{kF, kC, kF}, []int{1}, 1, func(k int, n string) []byte {
		if k == kF {
			return PackFloatToBytes(vk.FDyadic(n, -256, 256, 2))
		}
		return PackU64ToBytes(uint64(vk.Conc(vk.Int(n, 0, 2))))
	})
	perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vk.Choose("perm", 6)]
	var as []Attribute
	for _, i := range perm {
		as = append(as, g.attrs[i])
	}
	var buf bytes.Buffer
	vk.Assert(SerializeInstancesToWriterDenseARFFWithAttributes(&buf, g.inst, as, "rel") == nil, "writes")
	p := vPut("x.arff", buf.String())
	ra := ParseARFFGetAttributes(p)
	vk.Assert(len(ra) == 3, "all attributes are declared")
	for i := range ra {
		vk.Assert(ra[i].GetName() == as[i].GetName(), "declared in the order asked for")
	}
	d, err := ParseDenseARFFToInstances(p)
	vk.Assert(err == nil, "reads")
	for i := range perm {
		s, err := d.GetAttribute(ra[i])
		vk.Assert(err == nil, "resolves")
		vk.Assert(vk.BytesEq(d.Get(s, 0), g.vals[0][perm[i]]), "same cell")
	}
}

// VH_C14_layout: comments, blank lines, letter case and spacing do not change what is read.
// bounds: every combination of 2 keyword cases, 6 category spacings, comment/blank/none at 3 places, trailing space after @data
func VH_C14_layout() {
	up := vk.Choose("case", 2) == 1
	kw := func(s string) string {
		if up {
			return strings.ToUpper(s)
		}
		return s
	}
	extra := func(tag string) string {
		return []string{"", "% a comment, with commas\n", "\n"}[vk.Choose(tag, 3)]
	}
	x, y := vk.FDyadic("x", -256, 256, 2), vk.FDyadic("y", -256, 256, 2)
	cx, cy := vk.Choose("cx", 2), vk.Choose("cy", 2)
	cats := []string{"no", "yes"}
	var sb strings.Builder
	sb.WriteString(kw("@relation") + " r\n" + extra("e0"))
	sb.WriteString(kw("@attribute") + " num " + kw("real") + "\n")
	sb.WriteString(kw("@attribute") + " cat " + []string{"{no, yes}", "{no,yes}", "{no,  yes}", "{ no,yes }", "{no ,yes}", " { no , yes } "}[vk.Choose("sp", 6)] + "\n" + extra("e1"))
	sb.WriteString(kw("@data") + []string{"", " "}[vk.Choose("trail", 2)] + "\n")
	fmt.Fprintf(&sb, "%.2f,%s\n", x, cats[cx])
	sb.WriteString(extra("e2"))
	fmt.Fprintf(&sb, "%.2f, %s\n", y, cats[cy])
	p := vPut("l.arff", sb.String())
	n, err := ParseARFFGetRows(p)
	vk.Assert(err == nil && n == 2, "rows counted")
	d, err := ParseDenseARFFToInstances(p)
	vk.Assert(err == nil, "reads")
	c, r := d.Size()
	vk.Assert(c == 2 && r == 2, "size")
	na, ca := GetAttributeByName(d, "num"), GetAttributeByName(d, "cat")
	ns, _ := d.GetAttribute(na)
	cs, _ := d.GetAttribute(ca)
	vk.Assert(strings.Join(ca.(*CategoricalAttribute).GetValues(), "|") == "no|yes", "categories")
	vk.Assert(UnpackBytesToFloat(d.Get(ns, 0)) == x && UnpackBytesToFloat(d.Get(ns, 1)) == y, "numbers")
	vk.Assert(ca.GetStringFromSysVal(d.Get(cs, 0)) == cats[cx] && ca.GetStringFromSysVal(d.Get(cs, 1)) == cats[cy], "categories of rows")
	vk.Assert(len(d.AllClassAttributes()) == 1 && d.AllClassAttributes()[0].GetName() == "cat", "last attribute is the class")
}

// VH_C14_bad: an undeclared category or a malformed number is an error.
// bounds: any 2-letter text p..u in either column of either row
func VH_C14_bad() {
	w := vk.Str("w", 2)
	for i := 0; i < 2; i++ {
		vk.Assume(vk.And(w[i] >= 'p', w[i] <= 'u'))
	}
	row, col := vk.Choose("row", 2), vk.Choose("col", 2)
	var sb strings.Builder
	sb.WriteString("@relation r\n@attribute num real\n@attribute cat {no, yes}\n@data\n")
	for r := 0; r < 2; r++ {
		switch {
		case r != row:
			sb.WriteString("1.50,no\n")
		case col == 0:
			sb.WriteString(w)
			sb.WriteString(",no\n")
		default:
			sb.WriteString("1.50,")
			sb.WriteString(w)
			sb.WriteString("\n")
		}
	}
	_, err := ParseDenseARFFToInstances(vPut("b.arff", sb.String()))
	vk.Assert(err != nil, "reported")
}

// VH_C14_numbers: a number is read to its last digit, in every usual notation.
// bounds: a file of 3 rows; 2^25 plus any multiple of 1/4 in [-64,64], and 9 texts from the smallest to the largest number
func VH_C14_numbers() {
	forms := []struct {
		text string
		f    float64
	}{
		{"0.1", 0.1}, {"+3", 3}, {"1e3", 1000}, {"-2.5E-2", -0.025}, {".5", 0.5},
		{"16777217", 16777217}, {"3.141592653589793", 3.141592653589793}, {"5e-324", 5e-324}, {"1.7976931348623157e308", 1.7976931348623157e308},
	}
	k := vk.Choose("form", len(forms))
	x := vk.FDyadic("x", -256, 256, 2) + 33554432
	text := fmt.Sprintf("@relation r\n@attribute n real\n@attribute k {u, v}\n@data\n1.50,u\n%.2f,v\n%s,u\n", x, forms[k].text)
	d, err := ParseDenseARFFToInstances(vPut("n.arff", text))
	vk.Assert(err == nil, "parses")
	a := GetAttributeByName(d, "n")
	vk.Assert(a != nil && a.GetType() == Float64Type, "numeric column")
	s, err := d.GetAttribute(a)
	vk.Assert(err == nil, "column resolves")
	for r, want := range []float64{1.5, x, forms[k].f} {
		vk.Assert(UnpackBytesToFloat(d.Get(s, r)) == want, "number")
	}
}

// VH_C14_overwrite: writing to a path leaves nothing of an older file there.
// bounds: old file absent, shorter or longer; 1 row of a number (multiple of 1/4) and a category
func VH_C14_overwrite() {
	g := vDenseWith([]int{kF, kC}, []int{1}, 1, func(k int, n string) []byte {
		if k == kF {
			return PackFloatToBytes(vk.FDyadic(n, -256, 256, 2))
		}
		return PackU64ToBytes(uint64(vk.Conc(vk.Int(n, 0, 2))))
	})
	p := vk.TempPath("old.arff")
	if k := vk.Choose("old", 3); k > 0 {
		vPut("old.arff", strings.Repeat("7.00,a\n", []int{0, 1, 40}[k]))
	}
	vk.Assert(SerializeInstancesToDenseARFF(g.inst, p, "rel") == nil, "writes")
	d, err := ParseDenseARFFToInstances(p)
	vk.Assert(err == nil, "reads")
	_, r := d.Size()
	vk.Assert(r == 1, "only the new row")
	s, _ := d.GetAttribute(GetAttributeByName(d, g.attrs[0].GetName()))
	vk.Assert(vk.BytesEq(d.Get(s, 0), g.vals[0][0]), "the new value")
}

// VH_C14_long: nothing is lost without an error, however long the lines are.
// bounds: 2 rows of a number and a category with any values, one of the rows, a comment or a declaration 70000 characters long
func VH_C14_long() {
	vk.Opt("steps", 60000000)
	pad := strings.Repeat(" ", 70000)
	at := vk.Choose("long", 4)
	long := func(i int) string { return map[bool]string{true: pad}[i == at] }
	c := []string{"no", "yes"}
	x, y := vk.Choose("x", 2), vk.Choose("y", 2)
	p := vPut("long.arff", "@relation r\n%"+long(0)+"\n@attribute num real"+long(1)+"\n@attribute cat {no, yes}\n@data\n1.50,"+long(2)+c[x]+"\n2.50,"+long(3)+c[y]+"\n")
	d, err := ParseDenseARFFToInstances(p)
	if err != nil {
		return
	}
	_, r := d.Size()
	vk.Assert(r == 2 && len(d.AllAttributes()) == 2, "all rows and columns are there")
	s, _ := d.GetAttribute(GetAttributeByName(d, "cat"))
	vk.Assert(vk.BytesEq(d.Get(s, 0), PackU64ToBytes(uint64(x))) && vk.BytesEq(d.Get(s, 1), PackU64ToBytes(uint64(y))), "with their values")
}

// VH_C14_fields: a row with fewer or more values than there are columns is an error; blank lines are no rows.
// bounds: 1..3 columns, 2 rows, one of which has 1..4 values or is blank (of 2 kinds), indented or plain @data
func VH_C14_fields() {
	cols, at, have := 1+vk.Choose("cols", 3), vk.Choose("row", 2), vk.Choose("values", 6)-1
	var sb strings.Builder
	sb.WriteString("@relation r\n")
	for i := 0; i < cols; i++ {
		fmt.Fprintf(&sb, "@attribute a%d real\n", i)
	}
	sb.WriteString([]string{"@data\n", " @data\n"}[vk.Choose("indent", 2)])
	for r := 0; r < 2; r++ {
		n := cols
		if r == at {
			n = have
		}
		if n < 1 {
			sb.WriteString(strings.Repeat(" ", 2*(n+1)))
		}
		for i := 0; i < n; i++ {
			sb.WriteString([]string{"1.50", ",2.50", ",3.50", ",4.50"}[i])
		}
		sb.WriteString("\n")
	}
	d, err := ParseDenseARFFToInstances(vPut("f.arff", sb.String()))
	vk.Assert((err == nil) == (have < 1 || have == cols), "exactly rows with another number of values are reported")
	if err == nil {
		_, r := d.Size()
		want := 2
		if have < 1 {
			want = 1
		}
		vk.Assert(r == want, "blank lines are no rows")
		for i, a := range d.AllAttributes() {
			s, _ := d.GetAttribute(a)
			vk.Assert(UnpackBytesToFloat(d.Get(s, want-1)) == float64(i)+1.5, "the other rows are read")
		}
	}
}

// VH_C14_first: what rows begin with does not decide whether they are read.
// bounds: categories beginning with one of 7 characters or %%, as the first and the last column, 2 rows
func VH_C14_first() {
	ch := []string{"%", "@", "#", "-", "a", "'", "?", "%%"}[vk.Choose("first", 8)]
	a, b := NewCategoricalAttribute(), NewCategoricalAttribute()
	a.SetName("a")
	b.SetName("b")
	for _, c := range []*CategoricalAttribute{a, b} {
		c.GetSysValFromString("plain")
		c.GetSysValFromString(ch + "x")
	}
	inst := NewDenseInstances()
	specs := []AttributeSpec{inst.AddAttribute(a), inst.AddAttribute(b)}
	inst.AddClassAttribute(b)
	inst.Extend(2)
	var v [2][2]uint64
	for r := range v {
		for i, s := range specs {
			v[r][i] = uint64(vk.Choose(fmt.Sprint("v", r, i), 2))
			inst.Set(s, r, PackU64ToBytes(v[r][i]))
		}
	}
	p := vPut("first.arff", "")
	vk.Assert(SerializeInstancesToDenseARFF(inst, p, "rel") == nil, "writes")
	d, err := ParseDenseARFFToInstances(p)
	vk.Assert(err == nil, "reads")
	_, n := d.Size()
	vk.Assert(n == 2, "as many rows")
	for r := range v {
		for i, name := range []string{"a", "b"} {
			s, _ := d.GetAttribute(GetAttributeByName(d, name))
			vk.Assert(UnpackBytesToU64(d.Get(s, r)) == v[r][i], "same category")
		}
	}
}

// VH_C14_empty: files without attributes are reported, files without rows have none, and neither crashes.
// bounds: with and without a relation, 0..2 attributes, a data section, and a row
func VH_C14_empty() {
	s := []string{"", "@relation r\n"}[vk.Choose("relation", 2)]
	n := vk.Choose("attributes", 3)
	s += []string{"", "@attribute x real\n", "@attribute x real\n@attribute c {a, b}\n"}[n]
	data := vk.Choose("data", 3)
	s += []string{"", "@data\n", "@data\n" + []string{"1", "1", "1,b"}[n] + "\n"}[data]
	d, err := ParseDenseARFFToInstances(vPut("e.arff", s))
	vk.Assert((err == nil) == (n > 0), "files without attributes are reported")
	if err == nil {
		c, r := d.Size()
		vk.Assert(c == n && r == vk.B2I(data == 2), "as many columns and rows as the file has")
	}
}

// VH_C14_many: long files are written and read back whole.
// bounds: 3 columns, 300 (thorough 2000) rows, any values in the first, a middle or the last of them
// time: 60 200
func VH_C14_many() {
	n := 300 + 1700*vk.B2I(vk.Thorough())
	kinds := []int{kF, kC, kF}
	g := vMany(kinds, []int{1}, n, []int{0, n / 2, n - 1}[vk.Choose("at", 3)])
	p := vPut("many.arff", "")
	vk.Assert(SerializeInstancesToDenseARFF(g.inst, p, "rel") == nil, "writes")
	d, err := ParseDenseARFFToInstances(p)
	vk.Assert(err == nil, "reads")
	c, r := d.Size()
	vk.Assert(c == len(kinds) && r == n, "same size")
	for i, a := range g.attrs {
		b := GetAttributeByName(d, a.GetName())
		s, err := d.GetAttribute(b)
		vk.Assert(err == nil && b.GetType() == a.GetType(), "same column")
		for j := 0; j < n; j++ {
			vk.Assert(vk.BytesEq(d.Get(s, j), g.vals[j][i]), "same cell")
		}
	}
}

// VH_C14_spaces: categories and their spacing: every comma parts two categories, spaces around them don't count, and those within do.
// bounds: 3 categories of 1 or 2 words of any letters, each comma and bracket with or without a space or tab before and after, values of 2 rows; the same written and read back
func VH_C14_spaces() {
	var cats []string
	for i := 0; i < 3; i++ {
		c := fmt.Sprint("k", i)
		if vk.Choose("words", 2) == 1 {
			c += " of " + string(rune('p'+i))
		}
		cats = append(cats, c)
	}
	sp := func() string { return []string{"", " ", "\t"}[vk.Choose("space", 3)] }
	a, b := sp(), sp()
	text := "{" + a + cats[0] + b + "," + a + cats[1] + a + "," + b + cats[2] + b + "}"
	vals := []int{vk.Choose("v0", 3), vk.Choose("v1", 3)}
	p := vPut("s.arff", "@relation r\n@attribute cat "+text+"\n@attribute num real\n@data\n"+cats[vals[0]]+",1\n"+cats[vals[1]]+", 2\n")
	for i := 0; i < 2; i++ {
		d, err := ParseDenseARFFToInstances(p)
		vk.Assert(err == nil, "reads")
		_, r := d.Size()
		vk.Assert(r == 2, "both rows are read")
		ca := GetAttributeByName(d, "cat").(*CategoricalAttribute)
		vk.Assert(strings.Join(ca.GetValues(), "|") == strings.Join(cats, "|"), "the categories are those between the commas")
		s, _ := d.GetAttribute(ca)
		for k, v := range vals {
			vk.Assert(ca.GetStringFromSysVal(d.Get(s, k)) == cats[v], "categories of rows")
		}
		p = vk.TempPath("t.arff")
		vk.Assert(SerializeInstancesToDenseARFFWithAttributes(d, d.AllAttributes(), p, "r") == nil, "writes")
	}
}
