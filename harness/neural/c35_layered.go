package neural

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vLayered is a layered network and the data it is made from.
type vLayered struct {
	m       *MultiLayerNet
	as      []base.Attribute
	cls     int
	sizes   []int   // of the layers, inputs and outputs included
	inputs  [][]int // input nodes of each column
	classes int     // values of the class, 0 for a number
}

func vLayers() []int {
	return [][]int{{}, {1}, {2}, {2, 1}, {1, 2}}[vk.Choose("hidden", 5)]
}

func vCat(name string, n int) base.Attribute {
	return vg.Attr(vg.C, name, []string{"a", "b", "c"}[:n]...)
}

// vLayout chooses columns: a numeric one, another of some kind, and the class before, between or after.
func vLayout(hidden []int, places int) *vLayered {
	v := &vLayered{classes: []int{0, 2, 3}[vk.Choose("class", 3)]}
	class := vg.Attr(vg.F, "class")
	out := 1
	if v.classes > 0 {
		class = vCat("class", v.classes)
		if v.classes > 2 {
			out = 3
		}
	}
	as := []base.Attribute{vg.Attr(vg.F, "x")}
	in := []int{1}
	switch vk.Choose("second", 4) {
	case 1:
		as, in = append(as, vg.Attr(vg.F, "y")), append(in, 1)
	case 2:
		as, in = append(as, vCat("y", 2)), append(in, 1)
	case 3:
		as, in = append(as, vCat("y", 3)), append(in, 3)
	}
	v.cls = vk.Choose("at", places)
	if v.cls == places-1 || v.cls > len(as) {
		v.cls = len(as)
	}
	n := 0
	for c := 0; c <= len(as); c++ {
		if c == v.cls {
			v.as, v.inputs = append(v.as, class), append(v.inputs, nil)
			continue
		}
		i := c
		if c > v.cls {
			i--
		}
		v.as = append(v.as, as[i])
		v.inputs = append(v.inputs, make([]int, in[i]))
		n += in[i]
	}
	v.sizes = append(append([]int{n}, hidden...), out)
	v.m = NewMultiLayerNet(hidden)
	return v
}

// number gives the inputs their nodes, in the order in which a grid lists its attributes.
func (v *vLayered) number(inst base.FixedDataGrid) {
	n := 0
	for _, a := range base.NonClassAttributes(inst) {
		for c := range v.as {
			if v.as[c].GetName() == a.GetName() {
				for k := range v.inputs[c] {
					v.inputs[c][k] = n
					n++
				}
			}
		}
	}
}

// row gives the nodes' input for a row of cells, given as numbers.
func (v *vLayered) row(cells []float64) []float64 {
	x := make([]float64, v.sizes[0])
	for c, nodes := range v.inputs {
		for k, i := range nodes {
			x[i] = cells[c]
			if len(nodes) > 1 {
				x[i] = vk.IteF(cells[c] == float64(k), 1, 0)
			}
		}
	}
	return x
}

// data makes a grid of rows with any small integers and categories (training features are -1 or 2).
func (v *vLayered) data(name string, rows, lim int) (*vg.Grid, [][]float64) {
	cells := make([][]float64, rows)
	g := vg.New(v.as, []int{v.cls}, rows, func(r, c int) []byte {
		n := fmt.Sprint(name, r, c)
		if a, ok := v.as[c].(*base.CategoricalAttribute); ok {
			k := vk.Choose(n, len(a.GetValues()))
			cells[r] = append(cells[r], float64(k))
			return vg.Cat(k)
		}
		x := vk.FInt(n, -lim, lim)
		if name == "t" && c != v.cls {
			x = []float64{-1, 2}[vk.Choose(n, 2)]
		}
		cells[r] = append(cells[r], x)
		return vg.Float(x)
	})
	return g, cells
}

// layer gives the layer of a node.
func (v *vLayered) layer(i int) int {
	for l, n := range v.sizes {
		if i < n {
			return l
		}
		i -= n
	}
	return -1
}

func (v *vLayered) start(l int) (n int) {
	for _, k := range v.sizes[:l] {
		n += k
	}
	return n
}

// VH_C35_structure: a layered network connects every node with all of the next layer and no others, inputs with themselves, and gives all nodes but the inputs a bias, also if made anew.
// bounds: 0..2 hidden layers of 1..2 nodes, 1..2 columns (numeric, 2- and 3-valued) and a numeric, 2- or 3-valued class anywhere; random numbers from a fixed sequence without 0
func VH_C35_structure() {
	vk.Opt("norm", 1)
	v := vLayout(vLayers(), 3)
	g, _ := v.data("x", 1, 2)
	v.m.MaxIterations = 0
	v.m.Fit(g.Inst)
	if vk.Choose("again", 2) == 1 {
		v.m.Fit(g.Inst)
	}
	n := v.m.network
	total := v.start(len(v.sizes))
	vk.Assert(n.size == total && n.input == v.sizes[0], "there is a node for every input, hidden node and output")
	for s := 0; s < total; s++ {
		for t := 0; t < total; t++ {
			w := n.GetWeight(s+1, t+1)
			switch {
			case s == t:
				vk.Assert((w == 1) == (s < v.sizes[0]) && (w == 0) == (s >= v.sizes[0]), "inputs keep their values, others do not")
			case v.layer(t) == v.layer(s)+1:
				vk.Assert(w != 0, "layers are connected with the next one")
			default:
				vk.Assert(w == 0, "nothing else is connected")
			}
		}
		vk.Assert((n.GetBias(s+1) != 0) == (s >= v.sizes[0]), "all nodes but the inputs have a bias")
	}
}

// forward gives the values of all nodes, given weights by source and target.
func (v *vLayered) forward(x []float64, w func(s, t int) float64, b func(t int) float64) []float64 {
	y := append([]float64{}, x...)
	for l := 1; l < len(v.sizes); l++ {
		for t := v.start(l); t < v.start(l+1); t++ {
			z := b(t)
			for s := v.start(l - 1); s < v.start(l); s++ {
				z += w(s, t) * y[s]
			}
			y = append(y, z)
		}
	}
	return y
}

// VH_C35_predict: predictions are the values of the outputs: themselves for numbers, the one above a half for two values, the greatest for more.
// bounds: layers as in {}, {2}, {1,2} of hidden nodes, 1..2 columns (numeric, 2- and 3-valued) and a numeric, 2- or 3-valued class first or last, 1 row (with one column 1..2) of integers in [-2,2] or any categories, linear nodes, two sets of weights, any integer biases in [-2,2]
// time: 90 200
func VH_C35_predict() {
	vk.Opt("merge", 0)
	vk.Opt("norm", 1)
	Sigmoid = Linear
	v := vLayout([][]int{{}, {2}, {1, 2}}[vk.Choose("hidden", 3)], 2)
	train := vg.New(v.as, []int{v.cls}, 1, func(r, c int) []byte {
		if v.as[c].GetType() == base.CategoricalType {
			return vg.Cat(0)
		}
		return vg.Float(1)
	})
	v.m.MaxIterations = 0
	v.m.Fit(train.Inst)
	n := v.m.network
	total := v.start(len(v.sizes))
	turn := 1 + vk.Choose("turn", 2)
	for t := v.sizes[0]; t < total; t++ {
		l := v.layer(t)
		for s := v.start(l - 1); s < v.start(l); s++ {
			n.SetWeight(s+1, t+1, float64((s+turn*t+turn)%3-1))
		}
		n.SetBias(t+1, vk.FInt(fmt.Sprint("b", t), -2, 2))
	}
	v.number(train.Inst)
	rows := 1
	if len(v.as) == 2 {
		rows += vk.Choose("rows", 2)
	}
	g, cells := v.data("q", rows, 2)
	p := v.m.Predict(g.Inst)
	_, rows = p.Size()
	vk.Assert(rows == len(cells), "every row is answered")
	for r := range cells {
		y := v.forward(v.row(cells[r]), func(s, t int) float64 { return n.GetWeight(s+1, t+1) }, func(t int) float64 { return n.GetBias(t + 1) })
		o := y[v.start(len(v.sizes)-1):]
		switch v.classes {
		case 0:
			vk.Assert(vg.GetF(p, v.as[v.cls], r) == o[0], "a number is the output's value")
		case 2:
			k := vg.Get(p, v.as[v.cls], r)[0]
			vk.Assert((k == 1) == (o[0] > 0.5) && k < 2, "the second value is that above a half")
		default:
			k := int(vg.Get(p, v.as[v.cls], r)[0])
			vk.Assert(k < 3, "a class is answered")
			k = vk.Conc(k)
			for _, z := range o {
				vk.Assert(o[k] >= z, "the class is one with the greatest output")
			}
		}
	}
}

// VH_C35_train: training goes through the rows, each moving the weights and biases by rate times source value times error passed back.
// bounds: no or one hidden layer of 1..2 nodes, 1 row (without hidden layers 1..2) of 1..2 columns (numeric -1 or 2, or 2- and 3-valued) and a class (numeric, 2- or 3-valued, first or last) of any integer in [-2,2] or any value, linear nodes, random numbers from a fixed sequence, rate 1/2, 1 pass (without hidden layers 1..2)
// outside: convergence; the threshold at which training stops early
// time: 60 300
func VH_C35_train() {
	vk.Opt("merge", 0)
	vk.Opt("norm", 1)
	Sigmoid = Linear
	hidden := [][]int{{}, {1}, {2}}[vk.Choose("hidden", 3)]
	v := vLayout(hidden, 2)
	rows, passes := 1, 1
	if len(hidden) == 0 {
		rows += vk.Choose("rows", 2)
		if rows == 1 {
			passes += vk.Choose("passes", 2)
		}
	}
	g, cells := v.data("t", rows, 2)
	v.number(g.Inst)
	v.m.LearningRate, v.m.Convergence = 0.5, 0
	// the weights to start with are those of a network that is not trained
	start := NewMultiLayerNet(hidden)
	start.MaxIterations = 0
	v.m.MaxIterations = passes
	start.Fit(g.Inst)
	vk.Opt("norm", 1)
	v.m.Fit(g.Inst)
	total := v.start(len(v.sizes))
	w := make([][]float64, total)
	b := make([]float64, total)
	for s := range w {
		w[s] = make([]float64, total)
		for t := range w[s] {
			w[s][t] = start.network.GetWeight(s+1, t+1)
		}
		b[s] = start.network.GetBias(s + 1)
	}
	last := len(v.sizes) - 1
	for k := 0; k < passes; k++ {
		for r := range cells {
			y := v.forward(v.row(cells[r]), func(s, t int) float64 { return w[s][t] }, func(t int) float64 { return b[t] })
			e := make([]float64, total)
			for i := 0; i < v.sizes[last]; i++ {
				want := cells[r][v.cls]
				if v.classes > 2 {
					want = vk.IteF(want == float64(i), 1, 0)
				}
				e[v.start(last)+i] = want - y[v.start(last)+i]
			}
			for l := last - 1; l > 0; l-- {
				for s := v.start(l); s < v.start(l+1); s++ {
					for t := v.start(l + 1); t < v.start(l+2); t++ {
						e[s] += w[s][t] * e[t]
					}
				}
			}
			for l := 1; l <= last; l++ {
				for t := v.start(l); t < v.start(l+1); t++ {
					for s := v.start(l - 1); s < v.start(l); s++ {
						w[s][t] += 0.5 * y[s] * e[t]
					}
					b[t] += 0.5 * e[t]
				}
			}
		}
	}
	n := v.m.network
	for s := range w {
		for t := range w[s] {
			vk.Assert(n.GetWeight(s+1, t+1) == w[s][t], "weights move by their share")
		}
		vk.Assert(n.GetBias(s+1) == b[s], "biases move by their error")
	}
}
