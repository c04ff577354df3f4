package trees

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C29_choice: a random tree's rule looks at as many different attributes as asked for (or all there are) and takes the best of them; every attribute gets its chance.
// bounds: 3 rows of 3 two-valued attributes and a 2-valued class, any cells (quick: the first row and the class fixed), 1..4 attributes asked for, every draw of attributes in which none comes twice before all came once
func VH_C29_choice() {
	vk.Opt("freshdraws", 1)
	k := 1 + vk.Choose("ask", 4)
	g := vCats(3, 2, 2, 2, 2)
	if !vk.Thorough() {
		for c := 0; c < 3; c++ {
			vk.Assume(base.UnpackBytesToU64(g.Vals[0][c]) == 0)
		}
		for r := 0; r < 3; r++ {
			vk.Assume(base.UnpackBytesToU64(g.Vals[r][3]) == uint64(r%2))
		}
	}
	r := (&RandomTreeRuleGenerator{Attributes: k}).GenerateSplitRule(g.Inst)
	vk.Assert(r != nil && r.SplitAttr != nil, "a rule is found")
	at := -1
	for i, b := range g.Attrs {
		if b.Equals(r.SplitAttr) {
			at = i
		}
	}
	vk.Assert(at >= 0 && at < 3, "the rule names an attribute of the data other than the class")
	better := 0
	mine := vGain(g.Vals, 3, at)
	for c := 0; c < 3; c++ {
		if vGain(g.Vals, 3, c) > mine+1e-9 {
			better++
		}
	}
	vk.Assert(better <= 3-k || better == 0, "fewer attributes were looked at than asked for")
	vk.Cover(fmt.Sprint("attribute ", at))
}

func vGain(cells [][][]byte, class, c int) float64 {
	p := vParts{}
	for r := range cells {
		p.add(vk.Conc(int(base.UnpackBytesToU64(cells[r][c]))), vk.Conc(int(base.UnpackBytesToU64(cells[r][class]))))
	}
	return vMeasure(0, p)
}

// VH_C29_repeat: draws that repeat an attribute are drawn again, whatever comes.
// bounds: 1 row of 2..3 attributes of any cells, all attributes asked for, every history of up to 7 draws
// outside: histories of more than 7 draws
func VH_C29_repeat() {
	vk.Opt("maxdraws", 7)
	m := 2 + vk.Choose("attrs", 2)
	sizes := []int{2, 2, 2}[:m]
	g := vCats(2, 2, sizes...)
	for r := 0; r < 2; r++ {
		for c := 0; c < m; c++ { // only the last attribute tells the rows apart
			vk.Assume(base.UnpackBytesToU64(g.Vals[r][c]) == uint64(vk.IteInt(c == m-1, r, 0)))
		}
		vk.Assume(base.UnpackBytesToU64(g.Vals[r][m]) == uint64(r))
	}
	r := (&RandomTreeRuleGenerator{Attributes: m}).GenerateSplitRule(g.Inst)
	vk.Assert(r != nil && r.SplitAttr != nil && r.SplitAttr.Equals(g.Attrs[m-1]), "the best of all attributes is found")
}

// VH_C29_tree: a random tree answers training rows with a majority class of their leaf: rows that only it could tell apart are told apart.
// bounds: 2..3 rows of two 2-valued attributes and a 2-valued class, any cells, 1..3 attributes asked for, every draw of attributes in which none comes twice before all came once
// time: 60 200
func VH_C29_tree() {
	vk.Opt("freshdraws", 1)
	n, k := 2+vk.Choose("rows", 2), 1+vk.Choose("ask", 3)
	g := vCats(n, 2, 2, 2)
	t := NewRandomTree(k)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	p, err := t.Predict(g.Inst)
	vk.Assert(err == nil, "rows are predicted")
	// Attributes may run out only after both were split on, so equal rows share a leaf and others do not.
	for i := 0; i < n; i++ {
		cnt := map[string]int{}
		for j := 0; j < n; j++ {
			if vCode(g, i, 0) == vCode(g, j, 0) && vCode(g, i, 1) == vCode(g, j, 1) {
				cnt[base.GetClass(g.Inst, j)]++
			}
		}
		got := base.GetClass(p, i)
		most := 0
		for _, c := range []string{"u", "v"} {
			if cnt[c] > most {
				most = cnt[c]
			}
		}
		vk.Assert(cnt[got] == most, "rows get the majority class of the rows equal to them")
	}
}

// VH_C29_prune: pruning a random tree turns nodes into leaves, never loses accuracy on the data it is given, and keeps only branches which help.
// bounds: 3 rows covering values of two 2-valued attributes, any classes; 2 pruning rows (any), both attributes asked for
// time: 60 200
func VH_C29_prune() {
	vk.Opt("freshdraws", 1)
	as := []base.Attribute{vg.Attr(vg.C, "c0", "p", "q"), vg.Attr(vg.C, "c1", "p", "q"), vg.Attr(vg.C, "class", "u", "v")}
	g := vg.New(as, []int{2}, 3, func(r, c int) []byte {
		if c < 2 {
			return vg.Cat((r + 1) >> uint(c) & 1)
		}
		return vg.Any(as[c], fmt.Sprint("k", r))
	})
	t := NewRandomTree(2)
	vk.Assert(t.Fit(g.Inst) == nil, "a tree is fitted")
	test := vg.New(as, []int{2}, 2, func(r, c int) []byte { return vg.Any(as[c], fmt.Sprint("t", r, c)) })
	vPruneCheck(t.Root, test, t.Prune)
}

// VH_C29_any: some draws lead to each attribute being looked at, alone and along with each other one.
// bounds: 2 rows of 3 two-valued attributes of which one or two tell the rows apart, 1..2 attributes asked for, every draw of attributes in which none comes twice before all came once
func VH_C29_any() {
	vk.Opt("freshdraws", 1)
	k := 1 + vk.Choose("ask", 2)
	best := vk.Choose("best", 3)
	as := []base.Attribute{}
	for _, n := range []string{"a", "b", "c", "class"} {
		as = append(as, vg.Attr(vg.C, n, "p", "q"))
	}
	g := vg.New(as, []int{3}, 2, func(r, c int) []byte {
		return vg.Cat(vk.B2I(r == 1 && (c == 3 || (c == best) == (k == 2))))
	})
	r := (&RandomTreeRuleGenerator{Attributes: k}).GenerateSplitRule(g.Inst)
	for i := 0; i < 3; i++ {
		is := r.SplitAttr != nil && r.SplitAttr.Equals(as[i])
		switch {
		case k == 1 && i != best:
			vk.Possible(is, fmt.Sprint("attribute ", i, " is looked at alone, ", best, " being useless"))
		case k == 2 && i == best:
			vk.Possible(is, fmt.Sprint("attribute ", i, " is among two looked at"))
			vk.Possible(!is, fmt.Sprint("attribute ", i, " is not among two looked at"))
		}
	}
}
