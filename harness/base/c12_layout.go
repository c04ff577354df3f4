package base

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"os"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

type vPart struct {
	name string
	data []byte
}

func vTar(w *tar.Writer, parts []vPart) {
	for _, p := range parts {
		vk.Assert(w.WriteHeader(&tar.Header{Name: p.name, Size: int64(len(p.data))}) == nil, "header")
		_, err := w.Write(p.data)
		vk.Assert(err == nil, "data")
	}
	vk.Assert(w.Close() == nil, "closes")
}

func vLayout(prefix string, f, c, b [][]byte) []vPart {
	parts := []vPart{
		{prefix + "MANIFEST", []byte("golearn 1.0")},
		{prefix + "DIMS", []byte{3, 0, 0, 0, 0, 0, 0, 0, byte(len(f)), 0, 0, 0, 0, 0, 0, 0}},
		{prefix + "CATTRS", []byte(`[{"attr":{"values":["u","v","w"]},"name":"c","type":"categorical"}]`)},
		{prefix + "ATTRS", []byte(`[{"name":"b","type":"binary"},{"attr":{"precision":5},"name":"f","type":"float"}]`)},
	}
	var d []byte
	for i := range f {
		d = append(append(append(d, b[i]...), f[i]...), c[i]...)
	}
	return append(parts, vPart{prefix + "DATA", d})
}

// VH_C12_layout: a file saved earlier in this version's format stays readable: parts are found by their names, in any order, and every cell lands in its row and column.
// bounds: 3 columns of all kinds, 2 rows of any cells; parts in order, reversed or rotated, alone or in a classifier's archive among other parts
func VH_C12_layout() {
	var f, c, b [][]byte
	for i := 0; i < 2; i++ {
		f = append(f, vCell(kF, "f"))
		c = append(c, vCell(kC, "c"))
		b = append(b, vCell(kB, "b"))
	}
	where := vk.Choose("where", 2)
	prefix := []string{"", "TRAIN"}[where]
	parts := vLayout(prefix, f, c, b)
	if where == 1 {
		parts = append([]vPart{
			{"CLS_MANIFEST", []byte("golearn 1.0")},
			{"METADATA", []byte(`{"format_version":1,"classifier":"K","ClassifierVersion":"7","classifier_metadata":{"x":"y"}}`)},
			{"a/U", []byte{5, 1, 0, 0, 0, 0, 0, 0}},
			{"at/ATTR_COUNT", []byte{2, 0, 0, 0, 0, 0, 0, 0}},
			{"at/1", []byte(`{"attr":{"precision":3},"name":"q","type":"float"}`)},
			{"at/0", []byte(`{"name":"p","type":"binary"}`)},
			{"n/METADATA", []byte(`{"format_version":1,"classifier":"L","ClassifierVersion":"8","classifier_metadata":null}`)},
		}, parts...)
	}
	switch vk.Choose("order", 3) {
	case 1:
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	case 2:
		parts = append(append([]vPart{}, parts[2:]...), parts[:2]...)
	}
	var got FixedDataGrid
	var err error
	if where == 0 {
		var buf bytes.Buffer
		z := gzip.NewWriter(&buf)
		vTar(tar.NewWriter(z), parts)
		vk.Assert(z.Close() == nil, "compresses")
		got, err = DeserializeInstances(bytes.NewReader(buf.Bytes()))
		vk.Assert(err == nil, "reads")
	} else {
		path := vk.TempPath("layout.cls")
		file, e := os.Create(path)
		vk.Assert(e == nil, "creates")
		z := gzip.NewWriter(file)
		vTar(tar.NewWriter(z), parts)
		vk.Assert(z.Close() == nil && file.Close() == nil, "closes the file")
		r, e := ReadSerializedClassifierStub(path)
		vk.Assert(e == nil, "opens")
		vk.Assert(r.Metadata.ClassifierName == "K" && r.Metadata.ClassifierVersion == "7" && r.Metadata.ClassifierMetadata["x"] == "y", "metadata is read")
		m, e := r.ReadMetadataAtPrefix("n")
		vk.Assert(e == nil && m.ClassifierName == "L" && m.ClassifierVersion == "8", "a part's own metadata is read")
		u, e := r.GetU64ForKey(r.Prefix("a", "U"))
		vk.Assert(e == nil && u == 261, "an integer is read")
		as, e := r.GetAttributesForKey("at")
		vk.Assert(e == nil && len(as) == 2, "attributes are read")
		vk.Assert(as[0].Equals(NewBinaryAttribute("p")) && as[1].GetName() == "q" && as[1].(*FloatAttribute).Precision == 3, "attributes are read in order")
		got, err = r.GetInstancesForKey(prefix)
		vk.Assert(err == nil, "reads")
	}
	nc, nr := got.Size()
	vk.Assert(nc == 3 && nr == 2, "same size")
	fa := NewFloatAttribute("f")
	fa.Precision = 5
	ca := NewCategoricalAttribute()
	ca.SetName("c")
	for _, s := range []string{"u", "v", "w"} {
		ca.GetSysValFromString(s)
	}
	at := func(a Attribute, want [][]byte) {
		s, e := got.GetAttribute(a)
		vk.Assert(e == nil, "the attribute is there")
		for i := range want {
			vk.Assert(vk.BytesEq(got.Get(s, i), want[i]), "every cell is in its place")
		}
	}
	at(fa, f)
	at(ca, c)
	at(NewBinaryAttribute("b"), b)
	cl := got.AllClassAttributes()
	vk.Assert(len(cl) == 1 && cl[0].Equals(ca), "the class is the one stored")
	s, _ := got.GetAttribute(fa)
	vk.Assert(s.GetAttribute().(*FloatAttribute).Precision == 5, "the number of decimals is the one stored")
}

// VH_C12_match: attributes read from a file are replaced by their equals of the data, each in its place, and one without an equal is an error.
// bounds: any 1 or 2 attributes of any kinds, copies of the data's or not, in any order, against 3 columns
func VH_C12_match() {
	g := vDense([]int{kF, kC, kB}, []int{1}, 1)
	n := 1 + vk.Choose("n", 2)
	var in []Attribute
	var want []int
	for i := 0; i < n; i++ {
		at := vk.Choose("at", 4)
		want = append(want, at)
		if at == 3 {
			in = append(in, vAttr(vk.Choose("k", 3), "none"))
			continue
		}
		d, err := SerializeAttribute(g.attrs[at])
		vk.Assert(err == nil, "serialises")
		a, err := DeserializeAttribute(d)
		vk.Assert(err == nil && a != g.attrs[at], "reads")
		in = append(in, a)
	}
	out, err := ReplaceDeserializedAttributesWithVersionsFromInstances(in, g.inst)
	for _, at := range want {
		if at == 3 {
			vk.Assert(err != nil, "an attribute the data lacks is an error")
			return
		}
	}
	vk.Assert(err == nil && len(out) == n, "all are matched")
	for i, at := range want {
		vk.Assert(out[i] == g.attrs[at], "each is the data's own, in its place")
	}
}

// VH_C12_corrupt: an archive with a missing, cut or contradictory part is an error, not a panic and not other data.
// bounds: 3 columns of all kinds, 2 rows; any part missing; another version; dimensions cut or of more or fewer columns or rows, negative or huge ones too; attribute lists that are not lists, or of unknown kinds, wrong fields or no kind; data cut by 1 or 8 bytes
func VH_C12_corrupt() {
	z8 := []byte{0, 0, 0, 0, 0, 0, 0, 0}
	f, c, b := [][]byte{z8, z8}, [][]byte{z8, z8}, [][]byte{{1}, {0}}
	parts := vLayout("", f, c, b)
	at := vk.Choose("part", 5)
	p := &parts[at]
	switch bad := vk.Choose("bad", 8); {
	case bad == 0:
		parts = append(append([]vPart{}, parts[:at]...), parts[at+1:]...)
	case at == 0:
		p.data = [][]byte{nil, []byte("golearn"), []byte("golearn 1.0\n"), []byte("golearn 2.0"), []byte("golearn 1.1"), []byte(" golearn 1.0"), []byte("GOLEARN 1.0")}[bad-1]
	case at == 1:
		switch bad {
		case 1:
			p.data = p.data[:15]
		case 2:
			p.data = nil
		case 3:
			p.data[0] = 2
		case 4:
			p.data[0] = 4
		case 5:
			p.data[8] = 3
		case 6:
			p.data[[]int{7, 15}[vk.Choose("which", 2)]] = 0x80
		case 7:
			p.data[[]int{6, 14}[vk.Choose("which", 2)]] = 1
		}
	case at == 4:
		p.data = p.data[:len(p.data)-[]int{1, 8}[bad%2]]
	default:
		p.data = []byte([]string{``, `{`, `[{"name":"b"}]`, `[{"name":"b","type":"text"}]`, `[{"attr":3,"name":"f","type":"float"}]`, `[3]`, `[]`}[bad-1])
	}
	var buf bytes.Buffer
	z := gzip.NewWriter(&buf)
	vTar(tar.NewWriter(z), parts)
	vk.Assert(z.Close() == nil, "compresses")
	_, err := DeserializeInstances(bytes.NewReader(buf.Bytes()))
	vk.Assert(err != nil, "a corrupt archive is an error")
}

// VH_C12_corruptcls: a classifier's archive with a missing or malformed part is an error where it is read, not a panic.
// bounds: any of 7 parts missing, empty, cut by a byte, or of another kind's contents
func VH_C12_corruptcls() {
	parts := []vPart{
		{"CLS_MANIFEST", []byte("golearn 1.0")},
		{"METADATA", []byte(`{"format_version":1,"classifier":"K"}`)},
		{"U", []byte{5, 1, 0, 0, 0, 0, 0, 0}},
		{"J", []byte(`{"a":1}`)},
		{"at/ATTR_COUNT", []byte{2, 0, 0, 0, 0, 0, 0, 0}},
		{"at/0", []byte(`{"name":"p","type":"binary"}`)},
		{"at/1", []byte(`{"attr":{"precision":3},"name":"q","type":"float"}`)},
	}
	at := vk.Choose("part", 7)
	p := &parts[at]
	switch vk.Choose("bad", 4) {
	case 0:
		p.name = "X"
	case 1:
		p.data = nil
	case 2:
		p.data = p.data[:len(p.data)-1]
	case 3:
		p.data = []byte(`[]`)
	}
	path := vk.TempPath("corrupt.cls")
	file, err := os.Create(path)
	vk.Assert(err == nil, "creates")
	z := gzip.NewWriter(file)
	vTar(tar.NewWriter(z), parts)
	vk.Assert(z.Close() == nil && file.Close() == nil, "closes the file")
	r, err := ReadSerializedClassifierStub(path)
	vk.Assert((err != nil) == (at < 2), "the version and the metadata are checked on opening")
	if err != nil {
		return
	}
	_, err = r.GetU64ForKey("U")
	vk.Assert((err != nil) == (at == 2), "a malformed number is an error")
	var j map[string]int
	err = r.GetJSONForKey("J", &j)
	vk.Assert((err != nil) == (at == 3), "a malformed object is an error")
	_, err = r.GetAttributesForKey("at")
	vk.Assert((err != nil) == (at >= 4), "a malformed attribute or list is an error")
}
