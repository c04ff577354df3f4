package base

import (
	"fmt"

	dataframe "github.com/rocketlaunchr/dataframe-go"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C37_frame: a data frame becomes a grid with the same columns in the same order, the same values, and the class asked for.
// bounds: 1..3 columns (8 layouts) of kinds float (multiples of 1/4 in [-4,4], or one of 5 tiny, huge and long numbers), integer (in [-9,9], or one of 4 of up to 16 digits) and text (3 values), 1..2 (thorough 3) rows, any class column; at most four numbers vary
// outside: missing values and other kinds of series
// time: 60 200
func VH_C37_frame() {
	vk.Opt("merge", 0)
	shape := [][]int{{0}, {1, 3}, {0, 3}, {3, 2}, {2, 0, 3}, {3, 3, 1}, {3, 0, 3}, {4, 3}}[vk.Choose("shape", 8)]
	cols, rows := len(shape), 1+vk.Choose("rows", 2+vk.B2I(vk.Thorough()))
	odd := []float64{1e-7, 0.1, 123456789.123456789, -1e300, 5e-324}
	long := []int64{9007199254740991, -1234567890123456, 1000001, -9007199254740992}
	texts := []string{"u", "v", "w x"}
	n2 := 0
	var ss []dataframe.Series
	var kinds []int
	want := make([][]interface{}, cols)
	for c := 0; c < cols; c++ {
		name := fmt.Sprint("c", c)
		k := shape[c]
		kinds = append(kinds, k)
		var vals []interface{}
		for r := 0; r < rows; r++ {
			n := fmt.Sprint("v", c, r)
			if n2++; n2 > 4 && k != 3 { // enough vary
				k2 := float64(r + c)
				if k == 2 || k == 4 {
					vals = append(vals, int64(k2))
				} else {
					vals = append(vals, k2/2)
				}
				continue
			}
			switch k {
			case 0:
				vals = append(vals, vk.FDyadic(n, -16, 16, 2))
			case 1:
				vals = append(vals, odd[(vk.Choose("odd"+name, len(odd))+r)%len(odd)])
			case 2:
				vals = append(vals, int64(vk.Int(n, -9, 9)))
			case 4:
				vals = append(vals, long[(vk.Choose("long", len(long))+r)%len(long)])
			case 3:
				vals = append(vals, texts[vk.Choose(n, 2+(r+c)%2)])
			}
		}
		want[c] = vals
		switch k {
		case 0, 1:
			ss = append(ss, dataframe.NewSeriesFloat64(name, nil, vals...))
		case 2, 4:
			ss = append(ss, dataframe.NewSeriesInt64(name, nil, vals...))
		case 3:
			ss = append(ss, dataframe.NewSeriesString(name, nil, vals...))
		}
	}
	cls := vk.Choose("class", cols)
	g := ConvertDataFrameToInstances(dataframe.NewDataFrame(ss...), cls)
	nc, nr := g.Size()
	vk.Assert(nc == cols && nr == rows, "the grid has the frame's size")
	as := g.AllAttributes()
	ca := g.AllClassAttributes()
	vk.Assert(len(ca) == 1 && ca[0].GetName() == fmt.Sprint("c", cls), "the class is the column asked for")
	for c := 0; c < cols; c++ {
		name := fmt.Sprint("c", c)
		var a Attribute
		for _, b := range as {
			if b.GetName() == name {
				vk.Assert(a == nil, "every column is there once")
				a = b
			}
		}
		vk.Assert(a != nil, "every column is there")
		spec, err := g.GetAttribute(a)
		vk.Assert(err == nil, "every column is found")
		_, isF := a.(*FloatAttribute)
		_, isC := a.(*CategoricalAttribute)
		vk.Assert(isF == (kinds[c] != 3) && isC == (kinds[c] == 3), "columns keep their kind")
		for r := 0; r < rows; r++ {
			cell := g.Get(spec, r)
			switch v := want[c][r].(type) {
			case float64:
				vk.Assert(UnpackBytesToFloat(cell) == v, "numbers keep their value")
			case int64:
				vk.Assert(UnpackBytesToFloat(cell) == float64(v), "integers keep their value")
			case string:
				vk.Assert(a.GetStringFromSysVal(cell) == v, "texts keep their value")
			}
		}
	}
}
