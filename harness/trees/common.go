package trees

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vParts counts, per part of a split, the rows of each class.
type vParts map[int]map[int]int

func (p vParts) add(part, class int) {
	if p[part] == nil {
		p[part] = map[int]int{}
	}
	p[part][class]++
}

func vTotal(m map[int]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func vEntropy(m map[int]int) float64 {
	n, h := float64(vTotal(m)), 0.0
	for k := 0; k < 8; k++ {
		if m[k] > 0 {
			h -= float64(m[k]) / n * math.Log2(float64(m[k])/n)
		}
	}
	return h
}

func vGini(m map[int]int) float64 {
	n, g := float64(vTotal(m)), 1.0
	for k := 0; k < 8; k++ {
		g -= float64(m[k]) / n * float64(m[k]) / n
	}
	return g
}

// vMeasure rates a split (greater is better): 0 information gain, 1 gain ratio, 2 Gini.
func vMeasure(kind int, p vParts) float64 {
	n, all, sizes := 0, map[int]int{}, map[int]int{}
	for i := 0; i < 8; i++ {
		for c := 0; c < 8; c++ {
			all[c] += p[i][c]
			sizes[i] += p[i][c]
			n += p[i][c]
		}
	}
	s := 0.0
	for i := 0; i < 8; i++ {
		if sizes[i] > 0 {
			h := vEntropy(p[i])
			if kind == 2 {
				h = vGini(p[i])
			}
			s += float64(sizes[i]) / float64(n) * h
		}
	}
	switch kind {
	case 2:
		return -s
	case 1:
		if vEntropy(sizes) == 0 {
			return 0
		}
		return (vEntropy(all) - s) / vEntropy(sizes)
	}
	return vEntropy(all) - s
}

func vRule(kind int) RuleGenerator {
	return []RuleGenerator{new(InformationGainRuleGenerator), new(InformationGainRatioRuleGenerator), new(GiniCoefficientRuleGenerator)}[kind]
}

// vCats makes a grid of categorical columns and a class (last) with any cells.
func vCats(rows int, classes int, sizes ...int) *vg.Grid {
	var as []base.Attribute
	for i, k := range sizes {
		as = append(as, vg.Attr(vg.C, fmt.Sprint("c", i), []string{"p", "q", "r"}[:k]...))
	}
	as = append(as, vg.Attr(vg.C, "class", []string{"u", "v", "w"}[:classes]...))
	return vg.New(as, []int{len(sizes)}, rows, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprint("v", r, "_", c)) })
}

// vCode is the category code of a cell (made concrete).
func vCode(g *vg.Grid, r, c int) int {
	return vk.Conc(int(base.UnpackBytesToU64(g.Vals[r][c])))
}

// vNums makes a grid of float columns followed by a float class.
func vNums(m [][]float64, y []float64) *vg.Grid {
	var as []base.Attribute
	for i := range m[0] {
		as = append(as, vg.Attr(vg.F, fmt.Sprint("x", i)))
	}
	as = append(as, vg.Attr(vg.F, "y"))
	return vg.New(as, []int{len(m[0])}, len(m), func(r, c int) []byte {
		if c == len(m[0]) {
			return vg.Float(y[r])
		}
		return vg.Float(m[r][c])
	})
}

// vFeatures makes rows of one or two features (the second of fewer values).
func vFeatures(n, features, lim int) (m [][]float64, rows []int) {
	for i := 0; i < n; i++ {
		m = append(m, []float64{vk.FInt(fmt.Sprint("x", i), -lim, lim)})
		if features == 2 {
			m[i] = append(m[i], vk.FInt(fmt.Sprint("z", i), 0, 1))
		}
		rows = append(rows, i)
	}
	return
}

func vHits(d *DecisionTreeNode, g *vg.Grid) int {
	p, err := d.Predict(g.Inst)
	vk.Assert(err == nil, "predicts")
	_, n := g.Inst.Size()
	h := 0
	for i := 0; i < n; i++ {
		if base.GetClass(p, i) == base.GetClass(g.Inst, i) {
			h++
		}
	}
	return h
}

func vClone(d *DecisionTreeNode) *DecisionTreeNode {
	c := *d
	if d.Children != nil {
		c.Children = map[string]*DecisionTreeNode{}
		for k, v := range d.Children {
			c.Children[k] = vClone(v)
		}
	}
	return &c
}

// vPruned checks that a is b with some nodes turned into leaves, and that every leaf made was worth it.
func vPruned(a, b *DecisionTreeNode) {
	vk.Assert(a.Class == b.Class && len(a.ClassDist) == len(b.ClassDist), "pruning keeps the nodes' classes")
	if a.Children == nil {
		return
	}
	vk.Assert(len(a.Children) == len(b.Children), "pruning removes all children of a node or none")
	for k := range a.Children {
		vk.Assert(b.Children[k] != nil, "pruning adds nothing")
		vPruned(a.Children[k], b.Children[k])
	}
}

func vPruneCheck(root *DecisionTreeNode, test *vg.Grid, prune func(base.FixedDataGrid)) {
	orig := vClone(root)
	before := vHits(root, test)
	prune(test.Inst)
	vk.Assert(vHits(root, test) >= before, "pruning does not lose accuracy on the data it is given")
	vPruned(root, orig)
	leaf := vClone(orig)
	leaf.Children = nil
	if root.Children != nil {
		vk.Assert(vHits(root, test) > vHits(leaf, test), "branches are kept only where they help")
	}
}

var vTiny = []float64{-5e-324, 0, 5e-324, 1e-323, 1.5e-323}
var vLarge = []float64{math.Inf(-1), -0x1.8p1023, 0, 0x1.8p1023, math.MaxFloat64, math.Inf(1)}

// vOf is any value of a table.
func vOf(name string, table []float64) float64 {
	k := vk.Int(name, 0, len(table)-1)
	x := table[0]
	for i := range table {
		x = vk.IteF(k == i, table[i], x)
	}
	return x
}
