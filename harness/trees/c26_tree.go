package trees

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

var vText = []string{"p", "q", "r"}
var vClass = []string{"u", "v", "w"}

// vRouted checks the subtree d against the rows (codes, class last) which reach it; left are the attributes not used yet.
func vRouted(d *DecisionTreeNode, g *vg.Grid, rows [][]int, left map[int]bool) {
	dist := map[string]int{}
	for _, r := range rows {
		dist[vClass[r[len(r)-1]]]++
	}
	vk.Assert(len(d.ClassDist) == len(dist), "a node's class distribution lists the classes of its rows")
	max := 0
	for c, n := range dist {
		vk.Assert(d.ClassDist[c] == n, "a node's class distribution counts its rows")
		if n > max {
			max = n
		}
	}
	vk.Assert(dist[d.Class] == max, "a node's class has most of its rows")
	nleft := 0
	for _, ok := range left {
		nleft += vk.B2I(ok)
	}
	if d.Children == nil {
		vk.Assert(d.Type == LeafNode, "a node without children is a leaf")
		vk.Assert(len(dist) == 1 || nleft == 0, "growth stops only at a single class or when attributes run out")
		return
	}
	vk.Assert(len(dist) > 1, "rows of a single class are not split")
	vk.Assert(d.Type == RuleNode && d.SplitRule != nil, "an inner node has a rule")
	c := vAt(g, d.SplitRule.SplitAttr)
	vk.Assert(c >= 0 && left[c], "a rule uses an attribute not used above it")
	parts := map[int][][]int{}
	for _, r := range rows {
		parts[r[c]] = append(parts[r[c]], r)
	}
	vk.Assert(len(parts) == len(d.Children), "one child for each value seen")
	next := map[int]bool{}
	for k, v := range left {
		next[k] = v && k != c
	}
	for code, part := range parts {
		ch, ok := d.Children[vText[code]]
		vk.Assert(ok, "a child for each value seen")
		vRouted(ch, g, part, next)
	}
}

func vRows(g *vg.Grid, rows, cols int) [][]int {
	var m [][]int
	for i := 0; i < rows; i++ {
		var r []int
		for c := 0; c < cols; c++ {
			r = append(r, vCode(g, i, c))
		}
		m = append(m, r)
	}
	return m
}

// vWalk is the class the tree should give a row.
func vWalk(d *DecisionTreeNode, g *vg.Grid, row []int) string {
	for d.Children != nil {
		ch, ok := d.Children[vText[row[vAt(g, d.SplitRule.SplitAttr)]]]
		if !ok {
			return ""
		}
		d = ch
	}
	return d.Class
}

// VH_C26_tree: the tree grown from categorical data sends every row to the node its values lead to; nodes count their rows and leaves are pure or out of attributes.
// bounds: 1..3 rows (thorough 4) of a 3-valued and a 2-valued attribute and a 3-valued class, any cells; information gain, gain ratio, Gini
// time: 60 300
func VH_C26_tree() {
	kind := vk.Choose("measure", 3)
	rows := 1 + vk.Choose("rows", 3+vk.B2I(vk.Thorough()))
	g := vCats(rows, 3-vk.B2I(rows > 2), 3, 2)
	t := NewID3DecisionTreeFromRule(0, vRule(kind))
	vk.Assert(t.Fit(g.Inst) == nil, "fits")
	m := vRows(g, rows, 3)
	vRouted(t.Root, g, m, map[int]bool{0: true, 1: true})
	p, err := t.Predict(g.Inst)
	vk.Assert(err == nil, "predicts")
	_, pr := p.Size()
	vk.Assert(pr == rows && len(p.AllClassAttributes()) == 1, "one prediction per row")
	consistent := true
	for i := range m {
		for j := range m {
			consistent = consistent && (m[i][0] != m[j][0] || m[i][1] != m[j][1] || m[i][2] == m[j][2])
		}
	}
	for i, r := range m {
		got := base.GetClass(p, i)
		vk.Assert(got == vWalk(t.Root, g, r), "a row is given the class of the leaf its values lead to")
		if consistent {
			vk.Assert(got == vClass[r[2]], "training rows which do not contradict each other are reproduced")
		}
	}
}

// VH_C26_ask: rows never seen are given the class of the leaf their values lead to (some leaf below where a value is new), with the probabilities of that leaf.
// bounds: 2..3 training rows of a 3-valued and a 2-valued attribute and a 2-valued class, any query row
// time: 60 300
func VH_C26_ask() {
	rows := 2 + vk.Choose("rows", 2)
	g := vCats(rows, 2, 3, 2)
	t := NewID3DecisionTree(0)
	vk.Assert(t.Fit(g.Inst) == nil, "fits")
	q := vg.New(g.Attrs, []int{2}, 1, func(r, c int) []byte { return vg.Any(g.Attrs[c], fmt.Sprint("q", c)) })
	p, err := t.Predict(q.Inst)
	vk.Assert(err == nil, "predicts")
	row := vRows(q, 1, 3)[0]
	d := t.Root
	for d.Children != nil {
		ch, ok := d.Children[vText[row[vAt(g, d.SplitRule.SplitAttr)]]]
		if !ok {
			break
		}
		d = ch
	}
	got := base.GetClass(p, 0)
	if d.Children == nil {
		vk.Assert(got == d.Class, "the class of the leaf the values lead to")
	} else {
		vk.Assert(d.ClassDist[got] > 0, "a value not seen in training is given a class seen below its node")
	}
	ps, err := t.PredictProba(q.Inst)
	vk.Assert(err == nil && len(ps) > 0, "probabilities")
	sum := 0.0
	for i, x := range ps {
		sum += x.Probability
		vk.Assert(i == 0 || ps[i-1].Probability >= x.Probability, "most probable class first")
		if d.Children == nil {
			n := 0
			for _, k := range d.ClassDist {
				n += k
			}
			vk.Assert(x.Probability == float64(d.ClassDist[x.ClassValue])/float64(n), "a class's probability is its share of the leaf's rows")
		}
	}
	vk.Assert(sum > 1-1e-9 && sum < 1+1e-9, "probabilities add up to one")
	if d.Children == nil {
		vk.Assert(len(ps) == len(d.ClassDist), "every class of the leaf listed once")
		vk.Assert(ps[0].Probability == float64(d.ClassDist[d.Class])/float64(vSum(d.ClassDist)), "the predicted class is among the most probable")
	}
}

func vSum(m map[string]int) int {
	n := 0
	for _, k := range m {
		n += k
	}
	return n
}

// VH_C26_numtree: the tree grown from numeric data separates the rows at its thresholds and reproduces consistent training rows where it can.
// bounds: 2..3 rows (thorough 4) of two numeric attributes, any integers in [-20,20], a 2-valued class
// time: 60 300
func VH_C26_numtree() {
	vk.Opt("merge", 0)
	rows := 2 + vk.Choose("rows", 2+vk.B2I(vk.Thorough()))
	m, codes := make([][]float64, rows), make([]int, rows)
	for i := range m {
		m[i] = []float64{vk.FInt(fmt.Sprint("x", i), -20, 20), vk.FInt(fmt.Sprint("y", i), -20, 20)}
		codes[i] = vk.Choose(fmt.Sprint("k", i), 1+vk.IteInt(i < 1, 0, 1))
	}
	g := vg.Floats(m, []string{"u", "v"}, codes)
	root := InferID3Tree(g.Inst, new(InformationGainRuleGenerator))
	all := make([]int, rows)
	for i := range all {
		all[i] = i
	}
	vNumRouted(root, g, m, codes, all)
	p, err := root.Predict(g.Inst)
	vk.Assert(err == nil, "predicts")
	for i := range m {
		d := root
		for d.Children != nil {
			key := "0"
			if m[i][vAt(g, d.SplitRule.SplitAttr)] > d.SplitRule.SplitVal {
				key = "1"
			}
			d = d.Children[key]
		}
		vk.Assert(base.GetClass(p, i) == d.Class, "a row is given the class of the leaf its values lead to")
	}
}

func vNumRouted(d *DecisionTreeNode, g *vg.Grid, m [][]float64, codes []int, rows []int) {
	dist := map[string]int{}
	for _, r := range rows {
		dist[vClass[codes[r]]]++
	}
	for c, n := range dist {
		vk.Assert(d.ClassDist[c] == n, "a node's class distribution counts its rows")
		vk.Assert(dist[d.Class] >= n, "a node's class has most of its rows")
	}
	if d.Children == nil {
		return
	}
	vk.Assert(len(dist) > 1, "rows of a single class are not split")
	c := vAt(g, d.SplitRule.SplitAttr)
	var lo, hi []int
	for _, r := range rows {
		if m[r][c] > d.SplitRule.SplitVal {
			hi = append(hi, r)
		} else {
			lo = append(lo, r)
		}
	}
	vk.Assert(len(lo) > 0 && len(hi) > 0, "a threshold separates the rows of its node")
	vk.Assert(len(d.Children) == 2 && d.Children["0"] != nil && d.Children["1"] != nil, "a child on either side of the threshold")
	vNumRouted(d.Children["0"], g, m, codes, lo)
	vNumRouted(d.Children["1"], g, m, codes, hi)
}

// VH_C26_extreme: the same for values so close to each other that hardly anything lies between them, or very large ones.
// bounds: 2..3 rows of one numeric attribute, any multiples of 2^-1074 (the smallest float) from -1 to 3, or any of the infinities, the largest float, 1.5*2^1023 (either sign) and 0, a 2-valued class
// time: 40 200
func VH_C26_extreme() {
	vk.Opt("merge", 0)
	rows := 2 + vk.Choose("rows", 2)
	table := vTiny
	if vk.Choose("large", 2) == 1 {
		table = vLarge
	}
	m, codes, all := make([][]float64, rows), make([]int, rows), make([]int, rows)
	for i := range m {
		m[i] = []float64{vOf(fmt.Sprint("x", i), table)}
		codes[i], all[i] = vk.Choose(fmt.Sprint("k", i), 1+vk.IteInt(i < 1, 0, 1)), i
	}
	g := vg.Floats(m, []string{"u", "v"}, codes)
	root := InferID3Tree(g.Inst, new(InformationGainRuleGenerator))
	vNumRouted(root, g, m, codes, all)
	p, err := root.Predict(g.Inst)
	vk.Assert(err == nil, "predicts")
	for i := range m {
		for j := 0; j < i; j++ {
			vk.Assert(vk.Implies(m[i][0] == m[j][0], base.GetClass(p, i) == base.GetClass(p, j)), "equal rows get equal classes")
		}
		d := root
		for d.Children != nil {
			key := "0"
			if m[i][vAt(g, d.SplitRule.SplitAttr)] > d.SplitRule.SplitVal {
				key = "1"
			}
			d = d.Children[key]
		}
		vk.Assert(base.GetClass(p, i) == d.Class, "a row is given the class of the leaf its values lead to")
	}
}

// VH_C26_many: the same for many rows.
// bounds: 24 (thorough 60) rows of a 3-, a 2- and a 3-valued attribute and a 3-valued class, one of them any; information gain, gain ratio, Gini
// outside: at the root only, that the rule is the best by its measure
// time: 60 300
func VH_C26_many() {
	vk.Opt("merge", 0)
	kind := vk.Choose("measure", 3)
	rows := 24 + 36*vk.B2I(vk.Thorough())
	var as []base.Attribute
	for i, k := range []int{3, 2, 3} {
		as = append(as, vg.Attr(vg.C, fmt.Sprint("c", i), vText[:k]...))
	}
	as = append(as, vg.Attr(vg.C, "class", vClass...))
	at := vk.Choose("at", 2) * (rows - 1)
	g := vg.New(as, []int{3}, rows, func(r, c int) []byte {
		if r == at {
			return vg.Any(as[c], fmt.Sprint("v", c))
		}
		return vg.Cat([]int{r * r % 3, r / 2 % 2, (r + r/4) % 3, (r*r + r/5) % 3}[c])
	})
	t := NewID3DecisionTreeFromRule(0, vRule(kind))
	vk.Assert(t.Fit(g.Inst) == nil, "fits")
	m := vRows(g, rows, 4)
	vRouted(t.Root, g, m, map[int]bool{0: true, 1: true, 2: true})
	best, mine := -9.0, -9.0
	for c := 0; c < 3; c++ {
		p := vParts{}
		for _, r := range m {
			p.add(r[c], r[3])
		}
		x := vMeasure(kind, p)
		if x > best {
			best = x
		}
		if c == vAt(g, t.Root.SplitRule.SplitAttr) {
			mine = x
		}
	}
	vk.Assert(mine > best-1e-9, "the root's rule is the best by its measure")
	p, err := t.Predict(g.Inst)
	vk.Assert(err == nil, "predicts")
	for i, r := range m {
		vk.Assert(base.GetClass(p, i) == vWalk(t.Root, g, r), "a row is given the class of the leaf its values lead to")
	}
}
