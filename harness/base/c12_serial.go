package base

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C12_attr: attributes survive serialisation.
// bounds: any kind, any printable 1-byte name, precision 0..20, up to 2 printable 1-byte categories
// outside: names and categories with control or non-ASCII characters
func VH_C12_attr() {
	a, k, _, vals := vAnyAttr("a")
	print := func(s string) {
		vk.Assume(s[0] >= 32 && s[0] < 127)
	}
	print(a.GetName())
	for _, v := range vals {
		print(v)
	}
	b, err := SerializeAttribute(a)
	vk.Assert(err == nil, "serialises")
	r, err := DeserializeAttribute(b)
	vk.Assert(err == nil, "deserialises")
	vk.Assert(r.Equals(a) && a.Equals(r), "equal after the round trip")
	vk.Assert(vk.StrEq(r.GetName(), a.GetName()), "same name")
	vk.Assert(r.GetType() == a.GetType(), "same type")
	switch k {
	case kF:
		vk.Assert(r.(*FloatAttribute).Precision == a.(*FloatAttribute).Precision, "same precision")
	case kC:
		rv := r.(*CategoricalAttribute).GetValues()
		vk.Assert(len(rv) == len(vals), "same number of categories")
		for i := range vals {
			vk.Assert(vk.StrEq(rv[i], vals[i]), "same categories in the same order")
		}
	}
}

// VH_C12_attrs: attribute lists survive serialisation through a classifier archive.
// bounds: lists of 0..3 attributes of any kinds and numbers of decimals, together and alone; any integer, 3 bytes, a text, a small JSON object; keys read in two orders and again
func VH_C12_attrs() {
	n := vk.Choose("n", 4)
	var attrs []Attribute
	for i := 0; i < n; i++ {
		attrs = append(attrs, vAttr(vk.Choose("k", 3), fmt.Sprintf("x%d", i)))
		if f, ok := attrs[i].(*FloatAttribute); ok {
			f.Precision = []int{2, 0, 17, 30}[vk.Choose("decimals", 2+2*vk.B2I(n == 1))]
		}
	}
	same := func(a, b Attribute, label string) {
		vk.Assert(a.Equals(b), label)
		if f, ok := b.(*FloatAttribute); ok {
			vk.Assert(a.(*FloatAttribute).Precision == f.Precision, "the number of decimals survives")
		}
	}
	path := vk.TempPath("attrs.cls")
	w, err := CreateSerializedClassifierStub(path, ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "n", ClassifierVersion: "v"})
	vk.Assert(err == nil, "create")
	v := vk.U64("v")
	vk.Assert(w.WriteAttributesForKey("A", attrs) == nil, "write attributes")
	vk.Assert(w.WriteU64ForKey("U", v) == nil, "write integer")
	bs := []byte{vk.U8("b0"), vk.U8("b1"), vk.U8("b2")}
	vk.Assert(w.WriteBytesForKey("B", bs) == nil, "write bytes")
	vk.Assert(w.WriteBytesForKey("S", []byte("a\nb")) == nil, "write text")
	js := map[string]int{"p": vk.Choose("json", 3) - 1, "": 7}
	vk.Assert(w.WriteJSONForKey("J", js) == nil, "write JSON")
	for i, a := range attrs {
		vk.Assert(w.WriteAttributeForKey(w.Prefix("at", fmt.Sprint(i)), a) == nil, "write attribute")
	}
	vk.Assert(w.Close() == nil, "close")
	r, err := ReadSerializedClassifierStub(path)
	vk.Assert(err == nil, "open")
	vk.Assert(r.Metadata.ClassifierName == "n" && r.Metadata.ClassifierVersion == "v" && r.Metadata.FormatVersion == 1, "metadata survives")
	// keys can be read in any order
	order := vk.Choose("order", 2)
	rd := func() {
		g, err := r.GetBytesForKey("B")
		vk.Assert(err == nil && vk.BytesEq(g, bs), "bytes survive")
	}
	if order == 0 {
		rd()
	}
	u, err := r.GetU64ForKey("U")
	vk.Assert(err == nil && u == v, "integer survives")
	got, err := r.GetAttributesForKey("A")
	vk.Assert(err == nil && len(got) == n, "attribute list survives")
	for i := range got {
		same(got[i], attrs[i], "attributes survive in order")
	}
	if order == 1 {
		rd()
	}
	for i := n - 1; i >= 0; i-- {
		a, err := r.GetAttributeForKey(r.Prefix("at", fmt.Sprint(i)))
		vk.Assert(err == nil, "an attribute survives")
		same(a, attrs[i], "an attribute survives")
		b, err := r.GetAttributeForKey(r.Prefix("at", fmt.Sprint(i)))
		vk.Assert(err == nil && b.Equals(attrs[i]), "a key can be read again")
	}
	var back map[string]int
	vk.Assert(r.GetJSONForKey("J", &back) == nil && len(back) == 2 && back["p"] == js["p"] && back[""] == 7, "JSON survives")
	t, err := r.GetStringForKey("S")
	vk.Assert(err == nil && t == "a\nb", "text survives")
	_, err = r.GetBytesForKey("missing")
	_, err2 := r.GetStringForKey("missing")
	vk.Assert(err != nil && err2 != nil && r.GetJSONForKey("missing", &back) != nil, "missing key is an error")
	_, err = r.GetU64ForKey("missing")
	_, err2 = r.GetAttributeForKey("missing")
	_, err3 := r.GetAttributesForKey("missing")
	vk.Assert(err != nil && err2 != nil && err3 != nil, "missing key is an error")
	r.Close()
}

// VH_C12_instances: instances survive serialisation bit for bit.
// bounds: grids with columns of kinds {f,c,b},{c,f},{b,b},{f},{b,c,f} of one name in sequence, 0..2 rows, every class choice, any cell bits
func VH_C12_instances() {
	shape := vk.Choose("shape", 5)
	kinds := [][]int{{kF, kC, kB}, {kC, kF}, {kB, kB}, {kF}, {kB, kC, kF}}[shape]
	vOneName = shape == 4
	var cls []int
	for i := range kinds {
		if vk.Choose("cls", 2) == 1 {
			cls = append(cls, i)
		}
	}
	g := vDense(kinds, cls, vk.Choose("rows", 3))
	var buf bytes.Buffer
	vk.Assert(SerializeInstances(g.inst, &buf) == nil, "serialises")
	r, err := DeserializeInstances(bytes.NewReader(buf.Bytes()))
	vk.Assert(err == nil, "deserialises")
	vSameGrid(r, g.inst, "round trip")
}

// VH_C12_view: a view serialises as what it shows.
// bounds: 3x2 grid, any row mapping of 2 rows, column subset
func VH_C12_view() {
	g := vDense([]int{kF, kC}, []int{1}, 3)
	m := map[int]int{0: vk.Choose("r0", 3), 1: vk.Choose("r1", 3)}
	v := NewInstancesViewFromVisible(g.inst, []int{m[0], m[1]}, g.attrs)
	var buf bytes.Buffer
	vk.Assert(SerializeInstances(v, &buf) == nil, "serialises")
	r, err := DeserializeInstances(bytes.NewReader(buf.Bytes()))
	vk.Assert(err == nil, "deserialises")
	vSameGrid(r, v, "view round trip")
}

// VH_C12_archive: several grids under different keys of one archive.
// bounds: two 2-row grids of different shapes, any cells, read in either order
func VH_C12_archive() {
	g1 := vDense([]int{kF, kC}, []int{1}, 2)
	g2 := vDense([]int{kB, kC}, []int{1}, 2)
	path := vk.TempPath("two.cls")
	w, err := CreateSerializedClassifierStub(path, ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "n", ClassifierVersion: "v"})
	vk.Assert(err == nil, "create")
	vk.Assert(w.WriteInstancesForKey("ONE", g1.inst, true) == nil, "write first")
	vk.Assert(w.WriteInstancesForKey(w.Prefix("p", "TWO"), g2.inst, true) == nil, "write second")
	vk.Assert(w.Close() == nil, "close")
	r, err := ReadSerializedClassifierStub(path)
	vk.Assert(err == nil, "open")
	order := vk.Choose("order", 2)
	for i := 0; i < 2; i++ {
		if (i == 0) == (order == 0) {
			x, err := r.GetInstancesForKey("ONE")
			vk.Assert(err == nil, "read first")
			vSameGrid(x, g1.inst, "first")
		} else {
			x, err := r.GetInstancesForKey(r.Prefix("p", "TWO"))
			vk.Assert(err == nil, "read second")
			vSameGrid(x, g2.inst, "second")
		}
	}
	_, err = r.GetInstancesForKey("NONE")
	vk.Assert(err != nil, "missing instances are an error")
}

// VH_C12_header: archives with another format version or short dimensions are refused.
// bounds: any one-byte change of the version text
func VH_C12_header() {
	g := vDense([]int{kF}, []int{0}, 1)
	path := vk.TempPath("hdr.cls")
	ver := []byte(SerializationFormatVersion)
	i := vk.Choose("i", len(ver))
	nb := vk.U8("nb")
	vk.Assume(nb != ver[i])
	w, err := CreateSerializedClassifierStub(path, ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "n", ClassifierVersion: "v"})
	vk.Assert(err == nil, "create")
	bad := append([]byte{}, ver...)
	bad[i] = nb
	vk.Assert(w.WriteBytesForKey("XMANIFEST", bad) == nil, "write version")
	vk.Assert(w.WriteBytesForKey("XDIMS", append(PackU64ToBytes(1), PackU64ToBytes(1)...)) == nil, "write dims")
	_ = g
	vk.Assert(w.Close() == nil, "close")
	r, err := ReadSerializedClassifierStub(path)
	vk.Assert(err == nil, "open")
	_, err = r.GetInstancesForKey("X")
	vk.Assert(err != nil, "another version is refused")
	fv := vk.Int("fv", 2, 9)
	w, err = CreateSerializedClassifierStub(path, ClassifierMetadataV1{FormatVersion: vk.Conc(fv), ClassifierName: "n", ClassifierVersion: "v"})
	vk.Assert(err == nil, "create")
	vk.Assert(w.Close() == nil, "close")
	_, err = ReadSerializedClassifierStub(path)
	vk.Assert(err != nil, "another metadata format version is refused")
}

// VH_C12_file: writing to a path replaces whatever was there.
// bounds: 2x2 grid, any cells; old file absent, shorter or longer
func VH_C12_file() {
	g := vDense([]int{kF, kC}, []int{1}, 2)
	p := vk.TempPath("old.bin")
	if k := vk.Choose("old", 3); k > 0 {
		vPut("old.bin", strings.Repeat("junk", []int{0, 4, 4000}[k]))
	}
	vk.Assert(SerializeInstancesToFile(g.inst, p) == nil, "writes")
	f, err := os.Open(p)
	vk.Assert(err == nil, "opens")
	r, err := DeserializeInstances(f)
	vk.Assert(err == nil, "reads")
	vSameGrid(r, g.inst, "file")
}

// VH_C12_structure: instances stored without their data come back with their columns and no rows, and what is stored after them is whole.
// bounds: columns of kinds {f,c,b},{c,f},{b,b},{f},{b,c,f} of one name, every class choice, 0..2 rows of any bits
func VH_C12_structure() {
	shape := vk.Choose("shape", 5)
	kinds := [][]int{{kF, kC, kB}, {kC, kF}, {kB, kB}, {kF}, {kB, kC, kF}}[shape]
	vOneName = shape == 4
	var cls []int
	for i := range kinds {
		if vk.Choose("cls", 2) == 1 {
			cls = append(cls, i)
		}
	}
	g := vDense(kinds, cls, vk.Choose("rows", 3))
	path := vk.TempPath("structure.cls")
	w, err := CreateSerializedClassifierStub(path, ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "n", ClassifierVersion: "v"})
	vk.Assert(err == nil, "create")
	vk.Assert(w.WriteInstancesForKey("ONE", g.inst, false) == nil, "write the structure")
	vk.Assert(w.WriteInstancesForKey("TWO", g.inst, true) == nil, "write the data")
	vk.Assert(w.Close() == nil, "close")
	r, err := ReadSerializedClassifierStub(path)
	vk.Assert(err == nil, "open")
	x, err := r.GetInstancesForKey("ONE")
	vk.Assert(err == nil, "read the structure")
	vSameGrid(x, NewStructuralCopy(g.inst), "structure")
	x, err = r.GetInstancesForKey("TWO")
	vk.Assert(err == nil, "read the data")
	vSameGrid(x, g.inst, "data")
}

// VH_C12_many: many rows survive serialisation.
// bounds: 4 columns of all kinds, 200 or 700 (thorough 3000) rows, any cells in the first, a middle or the last of them
// time: 60 200
func VH_C12_many() {
	n := []int{200, 700, 3000}[vk.Choose("rows", 2+vk.B2I(vk.Thorough()))]
	g := vMany([]int{kF, kC, kB, kF}, []int{1}, n, []int{0, n / 2, n - 1}[vk.Choose("at", 3)])
	var buf bytes.Buffer
	vk.Assert(SerializeInstances(g.inst, &buf) == nil, "serialises")
	r, err := DeserializeInstances(bytes.NewReader(buf.Bytes()))
	vk.Assert(err == nil, "deserialises")
	vSameGrid(r, g.inst, "round trip")
}
