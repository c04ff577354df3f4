package base

import (
	"fmt"
	"sync"

	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

// vRead does one of the things that read a grid.
func vRead(d FixedDataGrid, op int) {
	as := d.AllAttributes()
	switch op {
	case 0:
		for _, a := range as {
			s, err := d.GetAttribute(a)
			vk.Assert(err == nil && len(d.Get(s, 1)) > 0, "cells can be read")
		}
	case 1:
		n := 0
		err := d.MapOverRows(ResolveAttributes(d, as), func(v [][]byte, r int) (bool, error) {
			n += len(v)
			return true, nil
		})
		vk.Assert(err == nil && n == 2*len(as), "rows can be visited")
	case 2:
		vk.Assert(len(d.AllClassAttributes()) == 1 && len(NonClassAttributes(d)) == len(as)-1, "attributes can be listed")
		_, rows := d.Size()
		vk.Assert(rows == 2, "the size can be read")
	case 3:
		vk.Assert(len(d.RowString(0)) > 0 && len(d.(fmt.Stringer).String()) > 0, "grids can be printed")
	case 4:
		c := NewDenseCopy(d)
		vk.Assert(InstancesAreEqual(c, d), "grids can be copied and compared")
	case 5:
		v := NewInstancesViewFromVisible(d, []int{1}, as)
		s, err := v.GetAttribute(as[0])
		vk.Assert(err == nil && len(v.Get(s, 0)) > 0, "grids can be viewed")
	}
}

// VH_C41_read: a grid can be read by two goroutines at once.
// bounds: instances, views by rows and attributes, filtered instances and matrices of 2 rows; reading cells, visiting rows, listing attributes, printing, copying, comparing and viewing, any two at once; interrupted at any one place where a lock is taken
// outside: writing while reading
func VH_C41_read() {
	vk.Opt("merge", 0)
	vk.Opt("race", 1)
	vk.Opt("sched", 3)
	vk.Opt("preempt", 1)
	attrs := []Attribute{NewFloatAttribute("a"), NewCategoricalAttribute(), NewBinaryAttribute("b")}
	attrs[1].SetName("c")
	inst := NewDenseInstances()
	specs := make([]AttributeSpec, 3)
	for i, a := range attrs {
		specs[i] = inst.AddAttribute(a)
	}
	vk.Assume(inst.AddClassAttribute(attrs[1]) == nil && inst.Extend(2) == nil)
	vals := []float64{vk.F64("x"), vk.F64("y")}
	vk.Assume(vals[0] == vals[0] && vals[1] == vals[1])
	for r := 0; r < 2; r++ {
		inst.Set(specs[0], r, PackFloatToBytes(vals[r]))
		inst.Set(specs[1], r, attrs[1].GetSysValFromString([]string{"x", "y"}[r]))
		inst.Set(specs[2], r, []byte{byte(r)})
	}
	var d FixedDataGrid = inst
	grid := vk.Choose("grid", 5)
	switch grid {
	case 1:
		d = NewInstancesViewFromVisible(inst, []int{1, 0}, []Attribute{attrs[2], attrs[1]})
	case 2:
		d = NewInstancesViewFromRows(inst, map[int]int{0: 1, 1: 1})
	case 3:
		f := &vFilter{}
		f.AddAttribute(attrs[0])
		d = NewLazilyFilteredInstances(inst, f)
	case 4:
		d = InstancesFromMat64(2, 2, mat.NewDense(2, 2, []float64{vals[0], 2, vals[1], 4}))
		d.AddClassAttribute(d.AllAttributes()[1])
	}
	a, b := vk.Choose("one", 6), vk.Choose("two", 6)
	if a > b {
		vk.Assume(false)
	}
	var w sync.WaitGroup
	for _, op := range []int{a, b} {
		w.Add(1)
		go func(op int) {
			vRead(d, op)
			w.Done()
		}(op)
	}
	w.Wait()
}
