package linear_models

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vRows is a matrix of any integers.
func vRows(name string, n, cols, lim int) (m [][]float64) {
	for r := 0; r < n; r++ {
		var row []float64
		for c := 0; c < cols; c++ {
			row = append(row, vk.FInt(fmt.Sprint(name, r, "_", c), -lim, lim))
		}
		m = append(m, row)
	}
	return
}

// vLayout makes a grid of the matrix' columns, a float class and (layouts 1 and 2) a categorical column; the class is last, first or in the middle.
func vLayout(m [][]float64, y []float64, cols, layout int) *vg.Grid {
	var as []base.Attribute
	var src []int // column of m, -1 class, -2 other
	add := func(a base.Attribute, s int) { as, src = append(as, a), append(src, s) }
	class := func() { add(vg.Attr(vg.F, "y"), -1) }
	if layout == 1 {
		class()
		add(vg.Attr(vg.C, "other", "p", "q"), -2)
	}
	for c := 0; c < cols; c++ {
		add(vg.Attr(vg.F, fmt.Sprint("x", c)), c)
		if layout == 2 && c == 0 {
			class()
			add(vg.Attr(vg.C, "other", "p", "q"), -2)
		}
	}
	if layout == 0 {
		class()
	}
	at := 0
	for i, s := range src {
		if s == -1 {
			at = i
		}
	}
	return vg.New(as, []int{at}, len(m), func(r, c int) []byte {
		switch src[c] {
		case -1:
			return vg.Float(y[r])
		case -2:
			return vg.Cat(r % 2)
		}
		return vg.Float(m[r][src[c]])
	})
}
