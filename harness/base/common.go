package base

import (
	"fmt"
	"os"

	"gonum.org/v1/gonum/mat"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// column kinds
const (
	kF = iota // float
	kC        // categorical (3 values)
	kB        // binary
)

type vgrid struct {
	inst  *DenseInstances
	attrs []Attribute
	specs []AttributeSpec
	vals  [][][]byte // [row][col]
}

func vAttr(kind int, name string) Attribute {
	switch kind {
	case kF:
		return NewFloatAttribute(name)
	case kC:
		c := NewCategoricalAttribute()
		c.SetName(name)
		c.GetSysValFromString("a")
		c.GetSysValFromString("b")
		c.GetSysValFromString("c")
		return c
	}
	return NewBinaryAttribute(name)
}

// vCell is one cell: any float bits / any category / any bit.
func vCell(kind int, name string) []byte {
	switch kind {
	case kF:
		return PackFloatToBytes(vk.F64(name))
	case kC:
		return PackU64ToBytes(uint64(vk.Int(name, 0, 2)))
	}
	return []byte{byte(vk.Int(name, 0, 1))}
}

// vCellOrd is a cell whose floats are small integers (ordered, never NaN).
func vCellOrd(kind int, name string, lo, hi int) []byte {
	if kind == kF {
		return PackFloatToBytes(vk.FInt(name, lo, hi))
	}
	return vCell(kind, name)
}

// vDense builds a grid; classes marks class columns; every cell is symbolic.
func vDense(kinds []int, classes []int, rows int) *vgrid {
	return vDenseWith(kinds, classes, rows, vCell)
}

// vOneName makes vDenseWith give all attributes one name (so that only their types tell them apart).
var vOneName bool

func vDenseWith(kinds []int, classes []int, rows int, cell func(int, string) []byte) *vgrid {
	g := &vgrid{inst: NewDenseInstances()}
	for i, k := range kinds {
		name := fmt.Sprintf("%c%d", "fcb"[k], i)
		if vOneName {
			name = "x"
		}
		a := vAttr(k, name)
		g.attrs = append(g.attrs, a)
		g.specs = append(g.specs, g.inst.AddAttribute(a))
	}
	for _, c := range classes {
		g.inst.AddClassAttribute(g.attrs[c])
	}
	g.inst.Extend(rows)
	for r := 0; r < rows; r++ {
		var row [][]byte
		for i, k := range kinds {
			v := cell(k, fmt.Sprintf("v%d_%d", r, i))
			g.inst.Set(g.specs[i], r, v)
			row = append(row, v)
		}
		g.vals = append(g.vals, row)
	}
	return g
}

func vOrdCell(lo, hi int) func(int, string) []byte {
	return func(k int, n string) []byte { return vCellOrd(k, n, lo, hi) }
}

// vSame asserts that grid d reads row r, attribute a as want.
func vSame(d DataGrid, a Attribute, r int, want []byte, label string) {
	s, err := d.GetAttribute(a)
	vk.Assert(err == nil, label+": attribute resolves")
	vk.Assert(vk.BytesEq(d.Get(s, r), want), label)
}

// vSpecs resolves attributes one by one, in order.
func vSpecs(d DataGrid, attrs []Attribute) []AttributeSpec {
	ret := make([]AttributeSpec, len(attrs))
	for i, a := range attrs {
		s, err := d.GetAttribute(a)
		if err != nil {
			panic(err)
		}
		ret[i] = s
	}
	return ret
}

// vHas reports whether an Equal attribute occurs.
func vHas(as []Attribute, a Attribute) bool {
	for _, x := range as {
		if x.Equals(a) {
			return true
		}
	}
	return false
}

// vMapAgrees: MapOverRows visits every row once and shows what Get shows.
func vMapAgrees(d FixedDataGrid, attrs []Attribute, ordered bool, label string) {
	specs := vSpecs(d, attrs)
	_, rows := d.Size()
	seen := make([]int, rows)
	last := -1
	err := d.MapOverRows(specs, func(vals [][]byte, r int) (bool, error) {
		vk.Assert(r >= 0 && r < rows, label+": row in range")
		seen[r]++
		vk.Assert(len(vals) == len(specs), label+": one value per spec")
		for i := range specs {
			vk.Assert(vk.BytesEq(vals[i], d.Get(specs[i], r)), label+": value is Get's value")
		}
		if ordered {
			vk.Assert(r == last+1, label+": ascending rows")
		}
		last = r
		return true, nil
	})
	vk.Assert(err == nil, label+": no error")
	for _, n := range seen {
		vk.Assert(n == 1, label+": each row once")
	}
}

func vPanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

func vMatVals(rows, cols int) []float64 {
	d := make([]float64, rows*cols)
	for i := range d {
		d[i] = vk.F64(fmt.Sprint("m", i))
	}
	return d
}

func vMat(rows, cols int) *Mat64Instances {
	return InstancesFromMat64(rows, cols, mat.NewDense(rows, cols, vMatVals(rows, cols)))
}

// vFilter is a harness filter: floats are negated into attributes named n_<old>;
// every other type is refused.
type vFilter struct{ on []Attribute }

func (f *vFilter) AddAttribute(a Attribute) error { f.on = append(f.on, a); return nil }
func (f *vFilter) GetAttributesAfterFiltering() []FilteredAttribute {
	var r []FilteredAttribute
	for _, a := range f.on {
		r = append(r, FilteredAttribute{a, NewFloatAttribute("n_" + a.GetName())})
	}
	return r
}
func (f *vFilter) String() string { return "vFilter" }
func (f *vFilter) Train() error   { return nil }
func (f *vFilter) Transform(o, n Attribute, v []byte) []byte {
	if !vHas(f.on, o) {
		panic("asked to transform an attribute that is not filtered")
	}
	r := make([]byte, 8)
	copy(r, v)
	r[7] ^= 0x80
	return r
}

// vSortGrid appends a column holding the concrete row number.
func vSortGrid(kinds []int, rows int, cell func(int, string) []byte) *vgrid {
	kinds = append(append([]int{}, kinds...), kF)
	n := 0
	return vDenseWith(kinds, nil, rows, func(k int, name string) []byte {
		n++
		if n%len(kinds) == 0 {
			return PackFloatToBytes(float64(n/len(kinds) - 1))
		}
		return cell(k, name)
	})
}

func vAnyAttr(tag string) (Attribute, int, string, []string) {
	k := vk.Choose(tag+"kind", 3)
	name := vk.Str(tag+"name", 1)
	var a Attribute
	var vals []string
	switch k {
	case kF:
		f := NewFloatAttribute(name)
		f.Precision = vk.Int(tag+"prec", 0, 6)
		a = f
	case kC:
		c := NewCategoricalAttribute()
		c.SetName(name)
		n := vk.Choose(tag+"n", 3)
		for i := 0; i < n; i++ {
			s := vk.Str(fmt.Sprintf("%sv%d", tag, i), 1)
			for _, t := range vals {
				vk.Assume(!vk.StrEq(s, t))
			}
			vals = append(vals, s)
			c.GetSysValFromString(s)
		}
		a = c
	default:
		a = NewBinaryAttribute(name)
	}
	return a, k, name, vals
}

func vPut(name, text string) string {
	p := vk.TempPath(name)
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	f.Write([]byte(text))
	f.Close()
	return p
}

func vSameGrid(got, want FixedDataGrid, label string) {
	wc, wr := want.Size()
	gc, gr := got.Size()
	vk.Assert(gc == wc && gr == wr, label+": same size")
	for _, a := range want.AllAttributes() {
		ws, err := want.GetAttribute(a)
		vk.Assert(err == nil, label+": source attribute resolves")
		gs, err := got.GetAttribute(a)
		vk.Assert(err == nil, label+": attribute resolves")
		for r := 0; r < wr; r++ {
			vk.Assert(vk.BytesEq(got.Get(gs, r), want.Get(ws, r)), label+": same cell")
		}
	}
	wcl, gcl := want.AllClassAttributes(), got.AllClassAttributes()
	vk.Assert(len(wcl) == len(gcl), label+": same number of class attributes")
	for i, a := range wcl {
		vk.Assert(vHas(gcl, a), label+": same class attributes")
		vk.Assert(gcl[i].Equals(a), label+": class attributes in order")
	}
}

// vMany makes a long grid: cells follow a pattern, except that those of row at are any.
func vMany(kinds []int, classes []int, rows, at int) *vgrid {
	i := -1
	return vDenseWith(kinds, classes, rows, func(k int, n string) []byte {
		i++
		r, c := i/len(kinds), i%len(kinds)
		switch {
		case r == at && k == kF:
			return PackFloatToBytes(vk.FDyadic(n, -256, 256, 2))
		case r == at && k == kC:
			return PackU64ToBytes(uint64(vk.Choose(n, 3)))
		case r == at:
			return []byte{byte(vk.Choose(n, 2))}
		case k == kF:
			return PackFloatToBytes(float64((r*37+c*11)%101)/4 - 5)
		case k == kC:
			return PackU64ToBytes(uint64((r + r/5 + c) % 3))
		}
		return []byte{byte((r/3 + c) % 2)}
	})
}
