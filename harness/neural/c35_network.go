package neural

import (
	"fmt"
	"math"

	vk "github.com/sjwhitworth/golearn/zzvk"
	"gonum.org/v1/gonum/mat"
)

// vNet makes a network of linear nodes with any small weights and biases.
func vNet(size, input, lim int) (*Network, [][]float64) {
	n := NewNetwork(size, input, Linear)
	w := make([][]float64, size)
	for t := range w {
		w[t] = make([]float64, size)
		for s := range w[t] {
			if t < input {
				if s == t {
					w[t][s] = 1
				}
				continue
			}
			w[t][s] = vk.FInt(fmt.Sprint("w", t, s), -lim, lim)
			n.SetWeight(s+1, t+1, w[t][s])
		}
		n.SetBias(t+1, vk.FInt(fmt.Sprint("b", t), -3, 3))
	}
	return n, w
}

func vSize() (size, input int) {
	input = 1 + vk.Choose("input", 2)
	return input + 1 + vk.Choose("others", 3-input), input
}

func vVec(name string, n, from, lim int) (*mat.Dense, []float64) {
	v := mat.NewDense(n, 1, make([]float64, n))
	x := make([]float64, n)
	for i := from; i < n; i++ {
		x[i] = vk.FInt(fmt.Sprint(name, i), -lim, lim)
		v.Set(i, 0, x[i])
	}
	return v, x
}

// VH_C35_activate: activation passes values along the weights, adds the biases of nodes that are no inputs, and keeps the inputs.
// bounds: 2..3 linear nodes of which 1..2 are inputs, weights in {-1,0,1} in every direction, integer biases and inputs in [-3,3], 0..3 steps
// time: 40 200
func VH_C35_activate() {
	vk.Opt("merge", 0)
	size, input := vSize()
	n, w := vNet(size, input, 1)
	a, x := vVec("x", size, 0, 3)
	steps := vk.Choose("steps", 3+vk.B2I(vk.Thorough()))
	n.Activate(a, steps)
	for k := 0; k < steps; k++ {
		y := make([]float64, size)
		for t := range y {
			for s := range x {
				y[t] += w[t][s] * x[s]
			}
			y[t] += vIf(t >= input, n.GetBias(t+1))
		}
		x = y
	}
	for t := range x {
		vk.Assert(a.At(t, 0) == x[t], "every node has the value its sources lead to")
	}
	for t := 0; t < size; t++ {
		for s := 0; s < size; s++ {
			vk.Assert(n.GetWeight(s+1, t+1) == w[t][s], "activation leaves the weights")
		}
	}
	for t := 0; t < input; t++ {
		vk.Assert(n.GetBias(t+1) == 0, "inputs have no bias")
	}
}

func vIf(c bool, v float64) float64 {
	if c {
		return v
	}
	return 0
}

// VH_C35_error: errors are passed back along the weights, each times the derivative at its node, and add up over the steps.
// bounds: 2..3 nodes of which 1..2 are inputs, linear or with the derivative of the sigmoid (in its value), weights in {-1,0,1}, outputs and errors integers in [-2,2], 1..3 steps
// time: 40 200
func VH_C35_error() {
	vk.Opt("merge", 0)
	size, input := vSize()
	n, w := vNet(size, input, 1)
	sig := vk.Choose("sigmoid", 2) == 1
	out, o := vVec("o", size, 0, 2)
	err, e := vVec("e", size, size-1, 2)
	d := make([]float64, size)
	for i := range d {
		d[i] = 1
		if sig && i >= input {
			n.funcs[i] = Sigmoid
			o[i] = float64(vk.Choose(fmt.Sprint("v", i), 3) - 1)
			out.Set(i, 0, o[i])
			d[i] = o[i] * (1 - o[i])
		}
	}
	steps := 1 + vk.Choose("steps", 2+vk.B2I(vk.Thorough()))
	r := n.Error(out, err, steps)
	acc := make([]float64, size)
	for k := 0; k < steps; k++ {
		for i := range e {
			e[i] *= d[i]
			acc[i] += e[i]
		}
		f := make([]float64, size)
		for s := range f {
			for t := range e {
				f[s] += w[t][s] * e[t]
			}
		}
		e = f
	}
	for i := range acc {
		vk.Assert(r.At(i, 0) == acc[i], "every node has its share of the error")
		vk.Assert(out.At(i, 0) == o[i], "the outputs are left as they were")
	}
}

// VH_C35_update: a step of training moves every weight of a connection by rate times source value times target error, and the biases of nodes that are no inputs by rate times error; where there is no connection none comes to be.
// bounds: 2..3 nodes of which 1..2 are inputs, weights in {-1,0,1}, values in [-2,2] and errors in {-1,0,2} that are integers, rates 1/2 and 1+2^-26 (which needs double precision), 1..2 steps
// outside: weights between 0 and 0.005 in size (the code takes them for missing connections)
// time: 40 200
func VH_C35_update() {
	size, input := vSize()
	n, w := vNet(size, input, 1)
	rate := []float64{0.5, 1 + 0x1p-26}[vk.Choose("rate", 2)]
	var b []float64
	for t := 0; t < size; t++ {
		b = append(b, n.GetBias(t+1))
	}
	orig := w
	steps := 1 + vk.Choose("steps", 2)
	for k := 0; k < steps; k++ {
		out, o := vVec(fmt.Sprint("o", k), size, 0, 2)
		err := mat.NewDense(size, 1, make([]float64, size))
		for i := 0; i < size; i++ {
			err.Set(i, 0, []float64{-1, 0, 2}[(i+vk.Choose(fmt.Sprint("e", k), 3))%3])
		}
		n.UpdateWeights(out, err, rate)
		n.UpdateBias(err, rate)
		v := make([][]float64, size)
		for t := range v {
			v[t] = make([]float64, size)
			for s := range v[t] {
				v[t][s] = w[t][s]
				if s != t {
					v[t][s] += vk.IteF(orig[t][s] != 0, rate*o[s]*err.At(t, 0), 0)
				}
			}
			if t >= input {
				b[t] += rate * err.At(t, 0)
			}
		}
		w = v
	}
	for t := range w {
		for s := range w[t] {
			vk.Assert(n.GetWeight(s+1, t+1) == w[t][s], "every weight moves by its share")
		}
		vk.Assert(n.GetBias(t+1) == b[t], "every bias moves by its error")
	}
}

// VH_C35_funcs: the functions of nodes and their derivatives, given a function's value.
// bounds: 9 points from -4 to 4, to within 1e-9; the linear function at any number
func VH_C35_funcs() {
	x := vk.F64("x")
	vk.Assume(x == x)
	vk.Assert(Linear.Forward(x) == x && Linear.Backward(x) == 1, "the linear function")
	v := float64(vk.Choose("v", 9) - 4)
	s := 1 / (1 + math.Exp(-v))
	for i, f := range []NeuralFunction{Sigmoid, SoftplusRectifier} {
		y := f.Forward(v)
		vk.Assert(math.Abs(y-[]float64{s, math.Log1p(math.Exp(v))}[i]) < 1e-9, "the function")
		vk.Assert(math.Abs(f.Backward(y)-[]float64{s * (1 - s), s}[i]) < 1e-9, "its derivative")
	}
}
