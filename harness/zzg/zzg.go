// Package zzg builds symbolic grids through base's public interface.
package zzg

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

// Column kinds.
const (
	F = iota // float
	C        // categorical a, b, c
	B        // binary
)

// Grid is a dense instance set and what was written to it.
type Grid struct {
	Inst  *base.DenseInstances
	Attrs []base.Attribute
	Specs []base.AttributeSpec
	Vals  [][][]byte // [row][col]
}

// Attr makes an attribute of a kind; categories default to a, b, c.
func Attr(kind int, name string, cats ...string) base.Attribute {
	switch kind {
	case F:
		return base.NewFloatAttribute(name)
	case C:
		c := base.NewCategoricalAttribute()
		c.SetName(name)
		if len(cats) == 0 {
			cats = []string{"a", "b", "c"}
		}
		for _, v := range cats {
			c.GetSysValFromString(v)
		}
		return c
	}
	return base.NewBinaryAttribute(name)
}

// New builds a grid over the attributes; cell gives each cell's bytes.
func New(attrs []base.Attribute, classes []int, rows int, cell func(r, c int) []byte) *Grid {
	g := &Grid{Inst: base.NewDenseInstances(), Attrs: attrs}
	for _, a := range attrs {
		g.Specs = append(g.Specs, g.Inst.AddAttribute(a))
	}
	for _, c := range classes {
		g.Inst.AddClassAttribute(attrs[c])
	}
	g.Inst.Extend(rows)
	for r := 0; r < rows; r++ {
		var row [][]byte
		for i := range attrs {
			v := cell(r, i)
			g.Inst.Set(g.Specs[i], r, v)
			row = append(row, v)
		}
		g.Vals = append(g.Vals, row)
	}
	return g
}

// Kinds makes attributes named f0, c1, ... of the given kinds.
func Kinds(kinds ...int) []base.Attribute {
	var as []base.Attribute
	for i, k := range kinds {
		as = append(as, Attr(k, fmt.Sprintf("%c%d", "fcb"[k], i)))
	}
	return as
}

// Any is a cell of attribute a with any content.
func Any(a base.Attribute, name string) []byte {
	switch x := a.(type) {
	case *base.FloatAttribute:
		return base.PackFloatToBytes(vk.F64(name))
	case *base.CategoricalAttribute:
		return base.PackU64ToBytes(uint64(vk.Int(name, 0, len(x.GetValues())-1)))
	}
	return []byte{byte(vk.Int(name, 0, 1))}
}

// Float packs a float.
func Float(f float64) []byte { return base.PackFloatToBytes(f) }

// Cat packs a category code.
func Cat(k int) []byte { return base.PackU64ToBytes(uint64(k)) }

// Get reads a cell by attribute.
func Get(d base.DataGrid, a base.Attribute, r int) []byte {
	s, err := d.GetAttribute(a)
	if err != nil {
		panic(err)
	}
	return d.Get(s, r)
}

// GetF reads a float cell by attribute.
func GetF(d base.DataGrid, a base.Attribute, r int) float64 {
	return base.UnpackBytesToFloat(Get(d, a, r))
}

// Floats builds a grid of float columns from a matrix, with an optional
// categorical class column (codes may be nil) appended last.
func Floats(m [][]float64, cats []string, codes []int) *Grid {
	var as []base.Attribute
	for i := range m[0] {
		as = append(as, base.NewFloatAttribute(fmt.Sprintf("f%d", i)))
	}
	var cls []int
	if codes != nil {
		as = append(as, Attr(C, "class", cats...))
		cls = []int{len(m[0])}
	}
	return New(as, cls, len(m), func(r, c int) []byte {
		if c < len(m[r]) {
			return Float(m[r][c])
		}
		return Cat(codes[r])
	})
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// HasName returns the attribute of that name, or nil.
func HasName(as []base.Attribute, name string) base.Attribute {
	for _, a := range as {
		if a.GetName() == name {
			return a
		}
	}
	return nil
}

// Row makes a 1 x n matrix of the given numbers.
func Row(xs []float64) *mat.Dense {
	return mat.NewDense(1, len(xs), append([]float64{}, xs...))
}
