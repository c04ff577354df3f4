package base

import (
	"bytes"
	"fmt"
	"strings"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vWord is a categorical text that does not look like a number: a letter or
// punctuation mark followed by a letter.
func vWord(name string) string {
	s := vk.Str(name, 2)
	vk.Assume(vk.Or(s[0] == 'x', s[0] == ',', s[0] == '"', s[0] == ';', s[0] == '#'))
	vk.Assume(vk.And(s[1] >= 'a', s[1] <= 'd'))
	return s
}

// VH_C13_roundtrip: instances written as CSV and read back hold the same values.
// bounds: 2 float columns and 1 or 2 categorical columns, 1..2 rows, floats multiples of 1/4 in [-64,64], any category assignment, any class column
func VH_C13_roundtrip() {
	kinds := [][]int{{kF, kC}, {kC, kF}, {kF, kC, kF}, {kC, kF, kC}}[vk.Choose("shape", 4)]
	cls := vk.Choose("cls", len(kinds))
	rows := 1 + vk.Choose("rows", 2)
	g := vDenseWith(kinds, []int{cls}, rows, func(k int, n string) []byte {
		if k == kF {
			return PackFloatToBytes(vk.FDyadic(n, -256, 256, 2))
		}
		return PackU64ToBytes(uint64(vk.Conc(vk.Int(n, 0, 2))))
	})
	var buf bytes.Buffer
	vk.Assert(SerializeInstancesToCSVStream(g.inst, &buf) == nil, "writes")
	d, err := ParseCSVToInstancesFromReader(bytes.NewReader(buf.Bytes()), true)
	vk.Assert(err == nil, "reads")
	c, r := d.Size()
	vk.Assert(c == len(kinds) && r == rows, "same size")
	for i, a := range g.attrs {
		b := GetAttributeByName(d, a.GetName())
		vk.Assert(b != nil && b.GetType() == a.GetType(), "same column kind")
		s, err := d.GetAttribute(b)
		vk.Assert(err == nil, "column resolves")
		for j := 0; j < rows; j++ {
			if kinds[i] == kF {
				vk.Assert(UnpackBytesToFloat(d.Get(s, j)) == UnpackBytesToFloat(g.vals[j][i]), "same number")
			} else {
				vk.Assert(b.GetStringFromSysVal(d.Get(s, j)) == a.GetStringFromSysVal(g.vals[j][i]), "same category")
			}
		}
	}
	cl := d.AllClassAttributes()
	vk.Assert(len(cl) == 1 && cl[0].GetName() == g.attrs[cls].GetName(), "same class attribute")
}

// VH_C13_words: category texts come back unchanged, whatever needs quoting.
// bounds: 3 rows of one categorical column, texts of one of , " ; # x followed by a..d
func VH_C13_words() {
	a := NewCategoricalAttribute()
	a.SetName("k")
	d := NewDenseInstances()
	s := d.AddAttribute(a)
	n := NewFloatAttribute("n")
	ns := d.AddAttribute(n)
	d.AddClassAttribute(a)
	d.Extend(2)
	var w []string
	for i := 0; i < 2; i++ {
		t := vWord(fmt.Sprintf("w%d", i))
		w = append(w, t)
		d.Set(s, i, a.GetSysValFromString(t))
		d.Set(ns, i, PackFloatToBytes(float64(i)))
	}
	var buf bytes.Buffer
	vk.Assert(SerializeInstancesToCSVStream(d, &buf) == nil, "writes")
	r, err := ParseCSVToInstancesFromReader(bytes.NewReader(buf.Bytes()), true)
	vk.Assert(err == nil, "reads")
	b := GetAttributeByName(r, "k")
	vk.Assert(b != nil, "column is there")
	bs, err := r.GetAttribute(b)
	vk.Assert(err == nil, "column resolves")
	for i := 0; i < 2; i++ {
		vk.Assert(vk.StrEq(b.GetStringFromSysVal(r.Get(bs, i)), w[i]), "same text")
	}
}

func vCSVText(header bool, cols, rows int) (string, [][]float64, [][]string) {
	var sb strings.Builder
	if header {
		for c := 0; c < cols; c++ {
			if c > 0 {
				sb.WriteString(",")
			}
			fmt.Fprintf(&sb, " col%d ", c)
		}
		sb.WriteString("\n")
	}
	var fs [][]float64
	var ws [][]string
	for r := 0; r < rows; r++ {
		var f []float64
		var w []string
		for c := 0; c < cols; c++ {
			if c > 0 {
				sb.WriteString(",")
			}
			if c%2 == 0 {
				x := vk.FDyadic(fmt.Sprintf("f%d_%d", r, c), -256, 256, 2)
				f = append(f, x)
				w = append(w, "")
				fmt.Fprintf(&sb, " %.2f ", x)
			} else {
				f = append(f, 0)
				t := []string{"red", "blue", "green"}[vk.Choose("w", 3)]
				w = append(w, t)
				fmt.Fprintf(&sb, " %s", t)
			}
		}
		sb.WriteString("\n")
		fs = append(fs, f)
		ws = append(ws, w)
	}
	return sb.String(), fs, ws
}

func vCSVCheck(d FixedDataGrid, attrs []Attribute, fs [][]float64, ws [][]string, label string) {
	_, rows := d.Size()
	vk.Assert(rows == len(fs), label+": one row per data line")
	for c, a := range attrs {
		s, err := d.GetAttribute(a)
		vk.Assert(err == nil, label+": column resolves")
		for r := range fs {
			if c%2 == 0 {
				vk.Assert(UnpackBytesToFloat(d.Get(s, r)) == fs[r][c], label+": number")
			} else {
				vk.Assert(a.GetStringFromSysVal(d.Get(s, r)) == ws[r][c], label+": category")
			}
		}
	}
}

// VH_C13_parse: parsing maps every field of every line to its cell, with and without headers.
// bounds: 2..3 columns, 1..2 rows, with or without header, numbers multiples of 1/4, three categories
func VH_C13_parse() {
	header := vk.Choose("header", 2) == 1
	cols, rows := 2+vk.Choose("cols", 2), 1+vk.Choose("rows", 2)
	text, fs, ws := vCSVText(header, cols, rows)
	d, err := ParseCSVToInstancesFromReader(strings.NewReader(text), header)
	vk.Assert(err == nil, "parses")
	vk.Assert(len(d.AllAttributes()) == cols, "one attribute per column")
	var attrs []Attribute
	for c := 0; c < cols; c++ {
		want := fmt.Sprintf("%d", c)
		if header {
			want = "col" + want
		}
		a := GetAttributeByName(d, want)
		vk.Assert(a != nil, "attributes named after their columns")
		attrs = append(attrs, a)
		if c%2 == 0 {
			vk.Assert(a.GetType() == Float64Type, "numeric column sniffed")
		} else {
			vk.Assert(a.GetType() == CategoricalType, "categorical column sniffed")
		}
	}
	vCSVCheck(d, attrs, fs, ws, "parsed")
	cl := d.AllClassAttributes()
	vk.Assert(len(cl) == 1 && cl[0].Equals(attrs[cols-1]), "last column is the class")
	n, err := ParseCSVGetRowsFromReader(strings.NewReader(text))
	want := rows
	if header {
		want++
	}
	vk.Assert(err == nil && n == want, "row counter")
}

// VH_C13_numbers: a number is read to its last digit, in every usual notation.
// bounds: a file of 3 rows; 2^25 plus any multiple of 1/4 in [-64,64], and 14 texts from the smallest to the largest number
func VH_C13_numbers() {
	forms := []struct {
		text string
		f    float64
	}{
		{"0.1", 0.1}, {"-0.1", -0.1}, {"+3", 3}, {"1e3", 1000}, {"1E3", 1000}, {"-2.5e-2", -0.025}, {"1e+2", 100}, {".5", 0.5}, {"5.", 5},
		{"16777217", 16777217}, {"9007199254740993", 9007199254740993}, {"3.141592653589793", 3.141592653589793}, {"5e-324", 5e-324}, {"1.7976931348623157e308", 1.7976931348623157e308},
	}
	k := vk.Choose("form", len(forms))
	x := vk.FDyadic("x", -256, 256, 2) + 33554432
	text := fmt.Sprintf("n,k\n1.50,u\n%.2f,v\n%s,u\n", x, forms[k].text)
	d, err := ParseCSVToInstancesFromReader(strings.NewReader(text), true)
	vk.Assert(err == nil, "parses")
	a := GetAttributeByName(d, "n")
	vk.Assert(a != nil && a.GetType() == Float64Type, "numeric column sniffed")
	s, err := d.GetAttribute(a)
	vk.Assert(err == nil, "column resolves")
	for r, want := range []float64{1.5, x, forms[k].f} {
		vk.Assert(UnpackBytesToFloat(d.Get(s, r)) == want, "number")
		f, err := NewFloatAttribute("n").CheckSysValFromString([]string{"1.50", fmt.Sprintf("%.2f", x), forms[k].text}[r])
		vk.Assert(err == nil && UnpackBytesToFloat(f) == want, "number by itself")
	}
}

// VH_C13_files: files are read as their text is, and files that do not exist are reported.
// bounds: files of 2..3 columns, 1..2 rows, with or without header, numbers of 0..3 decimals, three categories; every function taking a path
func VH_C13_files() {
	header := vk.Choose("header", 2) == 1
	cols, rows := 2+vk.Choose("cols", 2), 1+vk.Choose("rows", 2)
	var sb strings.Builder
	var fs [][]float64
	var ws [][]string
	var names []string
	prec := 0
	for c := 0; c < cols; c++ {
		names = append(names, fmt.Sprint(c))
	}
	if header {
		names = []string{"one", "two", "three"}[:cols]
		sb.WriteString(strings.Join(names, ",") + "\n")
	}
	for r := 0; r < rows; r++ {
		var line, w []string
		var f []float64
		for c := 0; c < cols; c++ {
			if c == 1 {
				line = append(line, []string{"red", "blue", "green"}[vk.Choose(fmt.Sprint("w", r), 3)])
				f = append(f, 0)
			} else {
				k := vk.Choose(fmt.Sprint("f", r, c), 3)
				line = append(line, []string{"7", "-0.5", "1.125"}[k])
				f = append(f, []float64{7, -0.5, 1.125}[k])
				if d := []int{0, 1, 3}[k]; d > prec {
					prec = d
				}
			}
			w = append(w, line[c])
		}
		sb.WriteString(strings.Join(line, ",") + "\n")
		fs, ws = append(fs, f), append(ws, w)
	}
	vPut("some.csv", sb.String())
	path := vk.TempPath("some.csv")
	find := func(d *DenseInstances) []Attribute {
		var as []Attribute
		for _, n := range names {
			a := GetAttributeByName(d, n)
			vk.Assert(a != nil, "columns are there under their names")
			as = append(as, a)
		}
		return as
	}
	n, err := ParseCSVGetRows(path)
	vk.Assert(err == nil && n == rows+vk.B2I(header), "rows are counted")
	n, err = ParseCSVEstimateFilePrecision(path)
	vk.Assert(err == nil && n == prec, "the precision is that of the number with the most decimals")
	types := ParseCSVSniffAttributeTypes(path, header)
	heads := ParseCSVSniffAttributeNames(path, header)
	attrs := ParseCSVGetAttributes(path, header)
	vk.Assert(len(types) == cols && len(heads) == cols && len(attrs) == cols, "one attribute per column")
	for c := range names {
		want := Float64Type
		if c == 1 {
			want = CategoricalType
		}
		vk.Assert(types[c].GetType() == want && attrs[c].GetType() == want, "types of columns")
		vk.Assert(heads[c] == names[c] && attrs[c].GetName() == names[c], "names of columns")
		if c != 1 {
			vk.Assert(attrs[c].(*FloatAttribute).Precision == prec, "numbers show as many digits as the file has")
		}
	}
	d, err := ParseCSVToInstances(path, header)
	vk.Assert(err == nil, "the file is read")
	vCSVCheck(d, find(d), fs, ws, "read")
	t, err := ParseCSVToTemplatedInstances(path, header, d)
	vk.Assert(err == nil, "the file is read again")
	vCSVCheck(t, find(d), fs, ws, "by template")
	t, err = ParseCSVToInstancesWithAttributeGroups(path, map[string]string{names[0]: "A"}, map[string]string{names[cols-1]: "B"}, map[int]Attribute{}, header)
	vk.Assert(err == nil, "the file is read in groups")
	vCSVCheck(t, find(t), fs, ws, "in groups")
	path += "x"
	_, err = ParseCSVGetRows(path)
	_, err2 := ParseCSVEstimateFilePrecision(path)
	_, err3 := ParseCSVToInstances(path, header)
	vk.Assert(err != nil && err2 != nil && err3 != nil, "a missing file is an error")
	_, err = ParseCSVToTemplatedInstances(path, header, d)
	_, err2 = ParseCSVToInstancesWithAttributeGroups(path, nil, nil, nil, header)
	vk.Assert(err != nil && err2 != nil, "a missing file is an error")
}

// VH_C13_templated: a second file read against a template uses the template's codes.
// bounds: template and file of 2 columns, 1..2 rows each, three categories in any order of appearance
func VH_C13_templated() {
	t1, _, _ := vCSVText(true, 2, 2)
	d1, err := ParseCSVToInstancesFromReader(strings.NewReader(t1), true)
	vk.Assert(err == nil, "template parses")
	t2, fs, ws := vCSVText(true, 2, 1+vk.Choose("rows", 2))
	d2, err := ParseCSVToTemplatedInstancesFromReader(strings.NewReader(t2), true, d1)
	vk.Assert(err == nil, "parses")
	vCSVCheck(d2, []Attribute{GetAttributeByName(d1, "col0"), GetAttributeByName(d1, "col1")}, fs, ws, "templated")
	vk.Assert(len(d2.AllClassAttributes()) == 1 && d2.AllClassAttributes()[0].Equals(d1.AllClassAttributes()[0]), "class attribute of the template")
	a := GetAttributeByName(d1, "col1").(*CategoricalAttribute)
	vk.Assert(vHas(d2.AllAttributes(), a), "template attribute is used")
}

// VH_C13_groups: reading into named attribute groups gives the same cells.
// bounds: 3 columns, 1..2 rows, with or without header, every subset of columns put in a group of its own
func VH_C13_groups() {
	header := vk.Choose("header", 2) == 1
	text, fs, ws := vCSVText(header, 3, 1+vk.Choose("rows", 2))
	name := func(c int) string {
		if header {
			return fmt.Sprintf("col%d", c)
		}
		return fmt.Sprintf("%d", c)
	}
	ag := map[string]string{}
	for c := 0; c < 2; c++ {
		// a group holds compatible columns only
		if vk.Choose("grp", 2) == 1 {
			ag[name(c)] = []string{"ONE", "TWO"}[c]
		}
	}
	d, err := ParseCSVToInstancesWithAttributeGroupsFromReader(strings.NewReader(text), ag, map[string]string{name(2): "CLS"}, map[int]Attribute{}, header)
	vk.Assert(err == nil, "parses")
	var attrs []Attribute
	for c := 0; c < 3; c++ {
		a := GetAttributeByName(d, name(c))
		vk.Assert(a != nil, "column is there")
		attrs = append(attrs, a)
	}
	vCSVCheck(d, attrs, fs, ws, "grouped")
	vk.Assert(len(d.AllClassAttributes()) == 1 && d.AllClassAttributes()[0].Equals(attrs[2]), "class group")
	for c := 0; c < 2; c++ {
		if gname, ok := ag[name(c)]; ok {
			s, err := d.GetAttribute(attrs[c])
			vk.Assert(err == nil, "resolves")
			gr, err := d.GetAttributeGroup(gname)
			vk.Assert(err == nil, "group exists")
			vk.Assert(vHas(gr.Attributes(), attrs[c]), "column is in the named group")
			_ = s
		}
	}
}

// VH_C13_missing: an empty field leaves its cell unset and disturbs nothing else.
// bounds: 2 columns, 3 rows, the empty field anywhere but in the first row
func VH_C13_missing() {
	x := vk.FDyadic("x", -256, 256, 2)
	miss := 1 + vk.Choose("miss", 2)
	var sb strings.Builder
	sb.WriteString("k,v\n")
	for r := 0; r < 3; r++ {
		if r == miss {
			sb.WriteString("b,\n")
		} else {
			fmt.Fprintf(&sb, "a,%.2f\n", x)
		}
	}
	d, err := ParseCSVToInstancesFromReader(strings.NewReader(sb.String()), true)
	vk.Assert(err == nil, "parses")
	v, k := GetAttributeByName(d, "v"), GetAttributeByName(d, "k")
	vs, _ := d.GetAttribute(v)
	ks, _ := d.GetAttribute(k)
	for r := 0; r < 3; r++ {
		if r == miss {
			vk.Assert(k.GetStringFromSysVal(d.Get(ks, r)) == "b", "other field of that line")
			vk.Assert(UnpackBytesToFloat(d.Get(vs, r)) == 0, "missing value is zero")
		} else {
			vk.Assert(k.GetStringFromSysVal(d.Get(ks, r)) == "a", "other lines")
			vk.Assert(UnpackBytesToFloat(d.Get(vs, r)) == x, "other lines' numbers")
		}
	}
}

// VH_C13_bad: a field that is no number in a numeric column is reported, not invented.
// bounds: 3 rows, the bad field in row 2 or 3, 2 arbitrary letters
func VH_C13_bad() {
	w := vk.Str("w", 2)
	for i := 0; i < 2; i++ {
		vk.Assume(vk.And(w[i] >= 'p', w[i] <= 'u'))
	}
	bad := 1 + vk.Choose("bad", 2)
	var sb strings.Builder
	sb.WriteString("k,v\n")
	for r := 0; r < 3; r++ {
		if r == bad {
			sb.WriteString("b,")
			sb.WriteString(w)
			sb.WriteString("\n")
		} else {
			sb.WriteString("a,1.5\n")
		}
	}
	_, err := ParseCSVToInstancesFromReader(strings.NewReader(sb.String()), true)
	vk.Assert(err != nil, "reported")
}

// VH_C13_wide: header, cells and values line up in files with many columns.
// bounds: 14 numeric columns, 1 row, any class column, multiples of 1/4
func VH_C13_wide() {
	n := 14
	d := NewDenseInstances()
	var as []Attribute
	var ss []AttributeSpec
	for i := 0; i < n; i++ {
		as = append(as, NewFloatAttribute(fmt.Sprintf("c%d", i)))
		ss = append(ss, d.AddAttribute(as[i]))
	}
	d.AddClassAttribute(as[vk.Choose("cls", n)])
	d.Extend(1)
	var vs []float64
	for i := 0; i < n; i++ {
		vs = append(vs, vk.FDyadic(fmt.Sprintf("v%d", i), -256, 256, 2))
		d.Set(ss[i], 0, PackFloatToBytes(vs[i]))
	}
	var buf bytes.Buffer
	vk.Assert(SerializeInstancesToCSVStream(d, &buf) == nil, "writes")
	r, err := ParseCSVToInstancesFromReader(bytes.NewReader(buf.Bytes()), true)
	vk.Assert(err == nil, "reads")
	for i := 0; i < n; i++ {
		a := GetAttributeByName(r, fmt.Sprintf("c%d", i))
		vk.Assert(a != nil, "column")
		s, _ := r.GetAttribute(a)
		vk.Assert(UnpackBytesToFloat(r.Get(s, 0)) == vs[i], "value under its own header")
	}
}

// VH_C13_overwrite: writing to a path leaves nothing of an older file there.
// bounds: old file absent, shorter or longer; 1 row of a number (multiple of 1/4) and a category
func VH_C13_overwrite() {
	g := vDenseWith([]int{kF, kC}, []int{1}, 1, func(k int, n string) []byte {
		if k == kF {
			return PackFloatToBytes(vk.FDyadic(n, -256, 256, 2))
		}
		return PackU64ToBytes(uint64(vk.Conc(vk.Int(n, 0, 2))))
	})
	p := vk.TempPath("old.csv")
	if k := vk.Choose("old", 3); k > 0 {
		vPut("old.csv", strings.Repeat("7.00,a\n", []int{0, 1, 40}[k]))
	}
	vk.Assert(SerializeInstancesToCSV(g.inst, p) == nil, "writes")
	d, err := ParseCSVToInstances(p, true)
	vk.Assert(err == nil, "reads")
	_, r := d.Size()
	vk.Assert(r == 1, "only the new row")
	s, _ := d.GetAttribute(GetAttributeByName(d, g.attrs[0].GetName()))
	vk.Assert(vk.BytesEq(d.Get(s, 0), g.vals[0][0]), "the new value")
}

// VH_C13_blank: a field of spaces alone is a value, not a missing one: text keeps it apart from every other category, a number column refuses it.
// bounds: 3 rows, the blank field in either column of the second or third row, 1..2 spaces, any number and two categories
func VH_C13_blank() {
	x := vk.FDyadic("x", -256, 256, 2)
	at, col := 1+vk.Choose("row", 2), vk.Choose("col", 2)
	blank := []string{" ", "  "}[vk.Choose("spaces", 2)]
	var sb strings.Builder
	sb.WriteString("k,v\n")
	var ws []string
	for r := 0; r < 3; r++ {
		w := []string{"a", "b"}[vk.Choose("w", 2)]
		num := fmt.Sprintf("%.2f", x)
		if r == at && col == 0 {
			w = blank
		} else if r == at {
			num = blank
		}
		ws = append(ws, w)
		sb.WriteString(w + "," + num + "\n")
	}
	d, err := ParseCSVToInstancesFromReader(strings.NewReader(sb.String()), true)
	if col == 1 {
		vk.Assert(err != nil, "spaces are not a number")
		return
	}
	vk.Assert(err == nil, "parses")
	k, v := GetAttributeByName(d, "k"), GetAttributeByName(d, "v")
	ks, _ := d.GetAttribute(k)
	vs, _ := d.GetAttribute(v)
	for r := range ws {
		vk.Assert(k.GetStringFromSysVal(d.Get(ks, r)) == strings.TrimSpace(ws[r]), "every text is kept, blanks too")
		vk.Assert(UnpackBytesToFloat(d.Get(vs, r)) == x, "numbers")
	}
}

// VH_C13_empty: files without rows are reported, not a crash.
// bounds: empty, one line break, headers of 1 and 2 columns; read as they are, from another grid's template, and with groups
func VH_C13_empty() {
	s := []string{"", "\n", "a\n", "a,b\n", "a,b"}[vk.Choose("file", 5)]
	head := vk.Choose("headers", 2) == 1
	rows := vk.B2I(!head && s != "" && s != "\n")
	how := vk.Choose("how", 3)
	p := vPut("e.csv", s)
	var d *DenseInstances
	var err error
	switch how {
	case 0:
		d, err = ParseCSVToInstances(p, head)
	case 1:
		t := NewDenseInstances()
		t.AddAttribute(NewFloatAttribute("a"))
		vk.Assume(rows == 0)
		d, err = ParseCSVToTemplatedInstances(p, head, t)
	default:
		d, err = ParseCSVToInstancesWithAttributeGroups(p, map[string]string{"a": "g"}, map[string]string{}, map[int]Attribute{}, head)
	}
	vk.Assert((err == nil) == (rows > 0), "files without rows are reported")
	if err == nil {
		_, r := d.Size()
		vk.Assert(r == rows, "the row is read")
	}
}

// VH_C13_many: long files are written and read back whole.
// bounds: 3 columns, 300 (thorough 2000) rows, any values in the first, a middle or the last of them
// time: 60 200
func VH_C13_many() {
	n := 300 + 1700*vk.B2I(vk.Thorough())
	kinds := []int{kF, kC, kF}
	g := vMany(kinds, []int{1}, n, []int{0, n / 2, n - 1}[vk.Choose("at", 3)])
	p := vPut("many.csv", "")
	vk.Assert(SerializeInstancesToCSV(g.inst, p) == nil, "writes")
	d, err := ParseCSVToInstances(p, true)
	vk.Assert(err == nil, "reads")
	c, r := d.Size()
	vk.Assert(c == len(kinds) && r == n, "same size")
	for i, a := range g.attrs {
		b := GetAttributeByName(d, a.GetName())
		s, err := d.GetAttribute(b)
		vk.Assert(err == nil && b.GetType() == a.GetType(), "same column")
		for j := 0; j < n; j++ {
			if kinds[i] == kF {
				vk.Assert(UnpackBytesToFloat(d.Get(s, j)) == UnpackBytesToFloat(g.vals[j][i]), "same number")
			} else {
				vk.Assert(b.GetStringFromSysVal(d.Get(s, j)) == a.GetStringFromSysVal(g.vals[j][i]), "same category")
			}
		}
	}
}

// VH_C13_reread: one reader can be read again and again, in any way and from any place: it is always read whole.
// bounds: a header and 3 rows of a float, a category and a class column, any digit and letters of one row; any two of five ways one after the other, started at byte 0, 3, 11 or at the end
func VH_C13_reread() {
	vk.Opt("merge", 0)
	d, c := vk.Choose("digit", 10), vk.Choose("letter", 3)
	text := fmt.Sprintf("w,k,y\n1.25,a,u\n%d.5,%c,v\n-3,b,u\n", d, 'a'+c)
	r := strings.NewReader(text)
	first, err := ParseCSVToInstancesFromReader(strings.NewReader(text), true)
	vk.Assert(err == nil, "reads")
	r.Seek([]int64{0, 3, 11, int64(len(text))}[vk.Choose("at", 4)], 0)
	for i := 0; i < 2; i++ {
		switch vk.Choose(fmt.Sprint("way", i), 5) {
		case 0:
			got, err := ParseCSVToInstancesFromReader(r, true)
			vk.Assert(err == nil, "reads again")
			vSameGrid(got, first, "the same instances again")
			vk.Assert(fmt.Sprint(got) == fmt.Sprint(first), "the same text again")
		case 1:
			n, err := ParseCSVGetRowsFromReader(r)
			vk.Assert(err == nil && n == 4, "all lines are counted again")
		case 2:
			as := ParseCSVGetAttributesFromReader(r, true)
			vk.Assert(len(as) == 3, "the same columns again")
			for j, n := range []string{"w", "k", "y"} {
				_, isF := as[j].(*FloatAttribute)
				vk.Assert(as[j].GetName() == n && isF == (j == 0), "the same columns again")
			}
		case 3:
			p, err := ParseCSVEstimateFilePrecisionFromReader(r)
			vk.Assert(err == nil && p == 2, "the same precision again")
		default:
			got, err := ParseCSVToTemplatedInstancesFromReader(r, true, first)
			if err != nil {
				panic(err)
			}
			_, n := got.Size()
			vk.Assert(n == 3, "the same number of rows by template")
			for k := 0; k < n; k++ {
				vk.Assert(got.RowString(k) == first.RowString(k), "the same rows by template")
			}
		}
	}
	vk.Cover("reread")
}
