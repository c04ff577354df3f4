package meta

import (
	"errors"
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vModel is a stand-in for a classifier: it records what it is fitted on and asked about and answers as told.
type vModel struct {
	id       int
	answer   func(row int) []byte // the class cell it predicts for a row
	fail     bool
	class    base.Attribute // class attribute of its answers (that of the query if nil)
	fitAttrs []base.Attribute
	fitRows  int
	fitCells [][][]byte
	fits     int
	askAttrs []base.Attribute
	askRows  int
	asks     int
	loaded   uint64
}

func (m *vModel) Fit(g base.FixedDataGrid) error {
	m.fits++
	m.fitAttrs = g.AllAttributes()
	_, m.fitRows = g.Size()
	for _, a := range m.fitAttrs {
		var col [][]byte
		for r := 0; r < m.fitRows; r++ {
			col = append(col, vg.Get(g, a, r))
		}
		m.fitCells = append(m.fitCells, col)
	}
	return nil
}

func (m *vModel) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	m.asks++
	m.askAttrs = g.AllAttributes()
	_, m.askRows = g.Size()
	if m.fail {
		return nil, errors.New("model refuses")
	}
	ret := base.GeneratePredictionVector(g)
	spec := base.ResolveAttributes(ret, ret.AllClassAttributes())[0]
	for r := 0; r < m.askRows; r++ {
		ret.Set(spec, r, m.answer(r))
	}
	return ret, nil
}

func (m *vModel) String() string                         { return fmt.Sprint("vModel ", m.id) }
func (m *vModel) Save(string) error                      { return errors.New("no") }
func (m *vModel) Load(string) error                      { return errors.New("no") }
func (m *vModel) GetMetadata() base.ClassifierMetadataV1 { return base.ClassifierMetadataV1{} }
func (m *vModel) SaveWithPrefix(w *base.ClassifierSerializer, prefix string) error {
	return w.WriteU64ForKey(w.Prefix(prefix, "ID"), uint64(m.id))
}
func (m *vModel) LoadWithPrefix(r *base.ClassifierDeserializer, prefix string) error {
	v, err := r.GetU64ForKey(r.Prefix(prefix, "ID"))
	m.loaded = v
	return err
}

// vGrid makes a grid of numbered float columns and a class (column at); cell (r, c) of the former holds 10r+c.
func vGrid(cols, at, rows int, cats []string, class []int) *vg.Grid {
	var as []base.Attribute
	for c := 0; c <= cols; c++ {
		if c == at {
			as = append(as, vg.Attr(vg.C, "class", cats...))
		}
		if c < cols {
			as = append(as, vg.Attr(vg.F, fmt.Sprint("x", c)))
		}
	}
	return vg.New(as, []int{at}, rows, func(r, c int) []byte {
		if c == at {
			return vg.Cat(class[r])
		}
		return vg.Float(float64(10*r + c))
	})
}

func vHas(as []base.Attribute, a base.Attribute) int {
	n := 0
	for _, b := range as {
		if b.Equals(a) {
			n++
		}
	}
	return n
}

var _ = vk.Assert
