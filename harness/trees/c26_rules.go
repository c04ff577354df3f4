package trees

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C26_rule: the rule for categorical attributes splits on one which is best under the measure.
// bounds: 4 rows of two 2-valued attributes and a 2-valued class (quick: the first row has the first categories), 3 rows of a 3-valued and a 2-valued one (thorough: 4 rows of these), any cells; information gain, gain ratio, Gini
func VH_C26_rule() {
	kind := vk.Choose("measure", 3)
	rows, sizes := 4, []int{2, 2}
	if vk.Choose("shape", 2) == 1 {
		rows, sizes = 3+vk.B2I(vk.Thorough()), []int{3, 2}
	}
	g := vCats(rows, 2, sizes...)
	if rows == 4 && !vk.Thorough() {
		for c := 0; c < 3; c++ { // without loss of generality, if names of categories do not matter
			vk.Assume(base.UnpackBytesToU64(g.Vals[0][c]) == 0)
		}
	}
	r := vRule(kind).GenerateSplitRule(g.Inst)
	ps := []vParts{{}, {}}
	for i := 0; i < rows; i++ {
		for c := range ps {
			ps[c].add(vCode(g, i, c), vCode(g, i, 2))
		}
	}
	vk.Assert(r != nil && r.SplitAttr != nil, "a rule is found")
	c := vAt(g, r.SplitAttr)
	vk.Assert(c == 0 || c == 1, "the rule names an attribute of the data other than the class")
	best := math.Max(vMeasure(kind, ps[0]), vMeasure(kind, ps[1]))
	vk.Assert(vMeasure(kind, ps[c]) > best-1e-9, "no other attribute is better under the measure")
}

func vAt(g *vg.Grid, a base.Attribute) int {
	for i, b := range g.Attrs {
		if b.Equals(a) {
			return i
		}
	}
	return -1
}

// VH_C26_numeric: the rule for numeric attributes splits at a threshold which is best among all thresholds of all attributes.
// bounds: 2..4 rows (one attribute; thorough 5), 2..3 rows (two attributes), any integers in [-20,20], a 2- or 3-valued class; information gain, gain ratio, Gini
// time: 60 300
func VH_C26_numeric() {
	vk.Opt("merge", 0)
	kind := vk.Choose("measure", 3)
	na := 1 + vk.Choose("attrs", 2)
	rows := 2 + vk.Choose("rows", 4-na+vk.B2I(vk.Thorough()))
	vNumericRule(kind, na, rows, func(n string) float64 { return vk.FInt(n, -20, 20) })
}

// VH_C26_numtiny: the same for values so close to each other that hardly anything lies between them,
// or so large that their sums overflow.
// bounds: 2..3 rows of one attribute with any multiples of 2^-1074 (the smallest float) from -1 to 3, or values among the infinities, the largest float, 1.5*2^1023 (either sign) and 0, a 2-valued class
// time: 60 300
func VH_C26_numtiny() {
	vk.Opt("merge", 0)
	table := vTiny
	if vk.Choose("large", 2) == 1 {
		table = vLarge
	}
	vNumericRule(0, 1, 2+vk.Choose("rows", 2), func(n string) float64 { return vOf(n, table) })
}

func vNumericRule(kind, na, rows int, val func(string) float64) {
	m, codes := make([][]float64, rows), make([]int, rows)
	for i := range m {
		for c := 0; c < na; c++ {
			m[i] = append(m[i], val(fmt.Sprint("x", i, c)))
		}
		codes[i] = vk.Choose(fmt.Sprint("k", i), 1+vk.IteInt(i < 2, i, 2))
	}
	g := vg.Floats(m, []string{"u", "v", "w"}, codes)
	r := vRule(kind).GenerateSplitRule(g.Inst)
	split := func(c int, t float64) vParts {
		p := vParts{}
		for i := range m {
			if m[i][c] > t {
				p.add(1, codes[i])
			} else {
				p.add(0, codes[i])
			}
		}
		return p
	}
	best, any := math.Inf(-1), false
	for c := 0; c < na; c++ {
		bestC := math.Inf(-1)
		var pc vParts
		for i := range m {
			p := split(c, m[i][c])
			if len(p[1]) == 0 || len(p[0]) == 0 {
				continue // the largest value separates nothing
			}
			any = true
			// each attribute is cut where most information is gained
			if ig := vMeasure(0, p); ig > bestC+1e-9 {
				bestC, pc = ig, p
			} else if ig > bestC-1e-9 && vMeasure(kind, p) < vMeasure(kind, pc) {
				pc = p // any of the equally good cuts may be taken
			}
		}
		if pc != nil {
			best = math.Max(best, vMeasure(kind, pc))
		}
	}
	if !any {
		if r != nil && r.SplitAttr != nil {
			vk.Assert(kind != 0, "nothing to split on, so no rule")
		}
		return
	}
	vk.Assert(r != nil && r.SplitAttr != nil, "a rule is found when some value differs")
	c := vAt(g, r.SplitAttr)
	vk.Assert(c >= 0 && c < na, "the rule names a feature")
	p := split(c, r.SplitVal)
	if kind == 0 || len(p) > 1 {
		vk.Assert(len(p[0]) > 0 && len(p[1]) > 0, "the threshold separates the rows")
	}
	vk.Assert(vMeasure(kind, p) > best-1e-9, "no threshold is better under the measure")
}
