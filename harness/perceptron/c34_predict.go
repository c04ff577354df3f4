package perceptron

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C34_perceptron: a trained perceptron answers every row with the second class exactly if the weighted sum of its numeric columns reaches the threshold.
// bounds: 1..2 rows of 1..2 numeric columns with integers in [-4,4], weights in [-2,2], thresholds in [-3,3], class first or last (categorical or binary), with another categorical column
// time: 40 200
func VH_C34_perceptron() {
	vk.Opt("merge", 0)
	n, cols, first, bin := 1+vk.Choose("rows", 2), 1+vk.Choose("cols", 2), vk.Choose("first", 2) == 1, vk.Choose("binary", 2) == 1
	class := vg.Attr(vg.C, "class", "u", "v")
	if bin {
		class = vg.Attr(vg.B, "class")
	}
	var as []base.Attribute
	if first {
		as = append(as, class, vg.Attr(vg.C, "other", "p", "q", "r"))
	}
	off := len(as)
	for c := 0; c < cols; c++ {
		as = append(as, vg.Attr(vg.F, fmt.Sprint("x", c)))
	}
	at := 0
	if !first {
		at = len(as)
		as = append(as, class)
	}
	x := make([][]float64, n)
	g := vg.New(as, []int{at}, n, func(r, c int) []byte {
		switch {
		case c == at && bin:
			return []byte{byte(r % 2)}
		case c >= off && c < off+cols:
			v := vk.FInt(fmt.Sprint("x", r, "_", c), -4, 4)
			x[r] = append(x[r], v)
			return vg.Float(v)
		}
		return vg.Cat(r % 2)
	})
	th := vk.FInt("threshold", -3, 3)
	p := NewAveragePerceptron(cols, 1, 0, 0)
	p.threshold = th
	p.trained, p.TrainingData = true, g.Inst
	for c := range p.weights {
		p.weights[c] = float64(vk.Choose(fmt.Sprint("w", c), 3)*2 - 2 + c)
	}
	ans := p.Predict(g.Inst)
	_, rows := ans.Size()
	vk.Assert(rows == n, "every row gets an answer")
	for r := range x {
		s := 0.0
		for c, v := range x[r] {
			s += v * p.weights[c]
		}
		b := vg.Get(ans, class, r)
		vk.Assert((b[0] != 0) == (s >= th), "a row gets the class on its side")
	}
}

// VH_C34_perceptron_refuse: perceptrons that were not trained and classes that are not two-valued are refused.
// bounds: classes of 1..3 values or numeric
func VH_C34_perceptron_refuse() {
	k := vk.Choose("values", 4)
	class := vg.Attr(vg.F, "class")
	if k > 0 {
		class = vg.Attr(vg.C, "class", []string{"u", "v", "w"}[:k]...)
	}
	as := []base.Attribute{vg.Attr(vg.F, "x"), class}
	g := vg.New(as, []int{1}, 1, func(r, c int) []byte { return vg.Float(0) })
	p := NewAveragePerceptron(1, 1, 0, 0)
	vk.Assert(vg.Panics(func() { p.Predict(g.Inst) }), "a perceptron that is not trained does not predict")
	vk.Assert(vg.Panics(func() { p.Fit(g.Inst) }) == (k != 2), "classes with other than two values are refused")
}
