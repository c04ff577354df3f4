package base

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C04_dense: MapOverRows on dense grids shows each row once, in order, with Get's values.
// bounds: 4 layouts, 0-3 rows, any cells; spec lists: all, reversed, one column, a repeated column
func VH_C04_dense() {
	shapes := [][]int{{kF}, {kC, kB}, {kF, kC, kB, kB}, {kB, kF, kB}}
	g := vDense(shapes[vk.Choose("shape", 4)], nil, vk.Choose("rows", 4))
	vMapAgrees(g.inst, vPick(g.attrs), true, "dense")
}

func vPick(attrs []Attribute) []Attribute {
	switch vk.Choose("pick", 4) {
	case 0:
		return attrs
	case 1:
		var r []Attribute
		for i := range attrs {
			r = append(r, attrs[len(attrs)-1-i])
		}
		return r
	case 2:
		return attrs[len(attrs)-1:]
	}
	return []Attribute{attrs[0], attrs[0]}
}

// VH_C04_view: row views (masked or re-mapped), attribute views, and views of views.
// bounds: 3 source rows, every row selection of up to 3 rows (repeats allowed), every partial re-mapping, any map iteration order; attributes of one or different names
func VH_C04_view() {
	vk.Opt("maporder", 1)
	vOneName = vk.Choose("onename", 2) == 1
	g := vDense([]int{kF, kC}, nil, 3)
	switch vk.Choose("view", 4) {
	case 0:
		n := vk.Choose("n", 4)
		var rows []int
		for i := 0; i < n; i++ {
			rows = append(rows, vk.Choose(fmt.Sprint("r", i), 3))
		}
		vMapAgrees(NewInstancesViewFromVisible(g.inst, rows, g.attrs), vPick(g.attrs), false, "masked view")
	case 1:
		m := map[int]int{}
		for i := 0; i < 3; i++ {
			if t := vk.Choose(fmt.Sprint("t", i), 4); t < 3 {
				m[i] = t
			}
		}
		vMapAgrees(NewInstancesViewFromRows(g.inst, m), vPick(g.attrs), false, "re-mapped view")
	case 2:
		vMapAgrees(NewInstancesViewFromAttrs(g.inst, g.attrs[1:]), g.attrs[1:], false, "attribute view")
	case 3:
		v := NewInstancesViewFromRows(g.inst, map[int]int{0: 2, 2: 0})
		w := NewInstancesViewFromVisible(v, []int{2, 0}, g.attrs)
		vMapAgrees(w, g.attrs, false, "view of a view")
	}
}

// VH_C04_mat: matrix-backed grids.
// bounds: 1-3 rows, 1-3 columns, any floats
func VH_C04_mat() {
	m := vMat(1+vk.Choose("rows", 3), 1+vk.Choose("cols", 3))
	vMapAgrees(m, vPick(m.AllAttributes()), true, "matrix")
}

// VH_C04_filtered: lazily filtered grids transform exactly the filtered attributes.
// bounds: 3 columns (2 floats, 1 category), any subset of the floats filtered, 0-2 rows, any cells; attributes of one or different names
func VH_C04_filtered() {
	vOneName = vk.Choose("onename", 2) == 1
	g := vDense([]int{kF, kC, kF}, []int{1}, vk.Choose("rows", 3))
	f := &vFilter{}
	if vk.Choose("f0", 2) == 1 {
		f.AddAttribute(g.attrs[0])
	}
	if vk.Choose("f2", 2) == 1 {
		f.AddAttribute(g.attrs[2])
	}
	l := NewLazilyFilteredInstances(g.inst, f)
	vMapAgrees(l, l.AllAttributes(), true, "filtered")
}

// VH_C04_stop: the callback's verdict is honoured: false stops, an error stops and is returned.
// bounds: 3 rows, stop at any row, by false or by error (with true or false), on dense, masked, re-mapped, matrix and filtered grids; attributes of one or different names
func VH_C04_stop() {
	vOneName = vk.Choose("onename", 2) == 1
	g := vDense([]int{kF}, nil, 3)
	var d FixedDataGrid = g.inst
	attrs := g.attrs
	switch vk.Choose("grid", 5) {
	case 1:
		d = NewInstancesViewFromVisible(g.inst, []int{2, 0, 1}, g.attrs)
	case 2:
		d = NewInstancesViewFromRows(g.inst, map[int]int{0: 1, 1: 0})
	case 3:
		d = vMat(3, 1)
		attrs = d.AllAttributes()
	case 4:
		f := &vFilter{}
		f.AddAttribute(g.attrs[0])
		d = NewLazilyFilteredInstances(g.inst, f)
		attrs = d.AllAttributes()
	}
	at := vk.Choose("at", 3)
	how := vk.Choose("how", 3)
	calls := 0
	err := d.MapOverRows(vSpecs(d, attrs), func(v [][]byte, r int) (bool, error) {
		calls++
		if calls == at+1 {
			switch how {
			case 0:
				return false, nil
			case 1:
				return false, fmt.Errorf("stop")
			default:
				return true, fmt.Errorf("stop")
			}
		}
		return true, nil
	})
	vk.Assert(calls == at+1, "iteration stops where the callback says")
	vk.Assert((err != nil) == (how > 0), "the callback's error is returned")
}
