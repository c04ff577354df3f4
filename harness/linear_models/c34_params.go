package linear_models

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C34_vectors: training data become a matrix of the numeric columns and a vector of the class, row by row; classes are weighted by the reciprocal of their rows.
// bounds: 1..3 rows of 1..2 numeric columns of any integers in [-4,4], class 0 or 1, first, last or in the middle, with a categorical column
func VH_C34_vectors() {
	vk.Opt("merge", 0)
	n, cols, layout := 1+vk.Choose("rows", 3), 1+vk.Choose("cols", 2), vk.Choose("layout", 3)
	m := vRows("x", n, cols, 4)
	y := make([]float64, n)
	for r := range y {
		y[r] = vk.FInt(fmt.Sprint("y", r), 0, 1)
	}
	g := vLayout(m, y, cols, layout)
	p, l := convertInstancesToProblemVec(g.Inst), convertInstancesToLabelVec(g.Inst)
	vk.Assert(len(p) == n && len(l) == n, "every row is converted")
	ones := 0
	for r := range p {
		vk.Assert(len(p[r]) == cols, "rows have the numeric columns")
		for c := range p[r] {
			vk.Assert(p[r][c] == m[r][c], "cells are unchanged")
		}
		vk.Assert(l[r] == y[r], "classes are unchanged")
		if y[r] == 1 {
			ones++
		}
	}
	w := generateClassWeightVectorFromDist(g.Inst)
	vk.Assert(len(w) == 2, "both classes get a weight")
	for c, k := range []int{n - ones, ones} {
		want := 1.0
		if k > 0 {
			want = 1 / float64(k)
		}
		vk.Assert(w[c] == want, "a class is weighted by the reciprocal of its rows")
	}
	f := generateClassWeightVectorFromFixed(g.Inst)
	vk.Assert(len(f) == 2 && f[0] == 1 && f[1] == 1, "without weighting classes weigh the same")
}

// VH_C34_kinds: loss, penalty and form select liblinear's solver of that kind; combinations there is none for are errors, and copies of parameters are independent.
// bounds: all losses and penalties among l1, l2 and two others, both forms, any C and eps (in eighths)
func VH_C34_kinds() {
	vk.Opt("merge", 0)
	names := []string{"l1", "l2", "", "L2"}
	li, pi, dual := vk.Choose("loss", 4), vk.Choose("penalty", 4), vk.Choose("dual", 2) == 1
	c, eps := vk.FDyadic("C", 1, 64, -3), vk.FDyadic("eps", 1, 8, 3)
	p := &LinearSVCParams{C: c, Eps: eps, Dual: dual, ClassWeights: []float64{c, eps}}
	err := p.SetKindFromStrings(names[li], names[pi])
	switch {
	case li > 1 || pi > 1 || li == 0 && pi == 0:
		vk.Assert(err != nil, "other combinations are refused")
		_, err = NewLinearSVC(names[li], names[pi], dual, c, eps)
		vk.Assert(err != nil, "no classifier is made for other combinations")
		return
	case li == 0: // l1 loss, l2 penalty: dual only
		vk.Assert(p.SolverType == 3 && p.Dual && (err != nil) == !dual, "L1 loss selects the dual L1-loss solver")
	case pi == 0: // l2 loss, l1 penalty: primal only
		vk.Assert(p.SolverType == 5 && !p.Dual && (err != nil) == dual, "L1 penalty selects the L1-regularised solver")
	case dual:
		vk.Assert(err == nil && p.SolverType == 1, "L2 loss and penalty select the dual solver")
	default:
		vk.Assert(err == nil && p.SolverType == 2, "L2 loss and penalty select the primal solver")
	}
	q := p.Copy()
	vk.Assert(q.SolverType == p.SolverType && q.C == c && q.Eps == eps && q.Dual == p.Dual && q.WeightClassesAutomatically == p.WeightClassesAutomatically &&
		len(q.ClassWeights) == 2 && q.ClassWeights[0] == c && q.ClassWeights[1] == eps, "a copy has the same parameters")
	q.ClassWeights[0] = 99
	vk.Assert(p.ClassWeights[0] == c, "a copy has weights of its own")
	s, err := NewLinearSVCFromParams(q)
	vk.Assert(err == nil && int(s.param.c_param.solver_type) == p.SolverType && float64(s.param.c_param.C) == c && float64(s.param.c_param.eps) == eps, "liblinear gets the parameters")
	for i, kind := range []string{"l1", "l2", "x"} {
		r, err := NewLogisticRegression(kind, c, eps)
		vk.Assert((err != nil) == (i == 2), "logistic regression is penalised by L1 or L2")
		if err == nil {
			vk.Assert(int(r.param.c_param.solver_type) == []int{6, 0}[i] && float64(r.param.c_param.C) == c && float64(r.param.c_param.eps) == eps, "liblinear gets the parameters of logistic regression")
		}
	}
}
