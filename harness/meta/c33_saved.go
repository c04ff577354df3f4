package meta

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C33_bagged: a bagged model loaded from the file it was saved to has its members, asks each about the columns it was trained with and answers alike, alone and as one of two models in a file.
// bounds: 1..2 members, 2 features of which 1..2 are chosen, or no selection, 1 row, class column first or last, any votes among 2 classes, every draw of features
// time: 60 200
func VH_C33_bagged() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	vk.Opt("freshdraws", 1)
	vk.Opt("ncpu", 1)
	k, ask, at := 1+vk.Choose("models", 2), vk.Choose("ask", 3), 2*vk.Choose("class", 2)
	ans := [][]int{{vk.Int("v0", 0, 1)}, {vk.Int("v1", 0, 1)}}
	b, ms := vBag(k, ans, ask)
	l, ls := vBag(k, ans, 0)
	g := vGrid(2, at, 1, []string{"u", "v"}, []int{1})
	b.Fit(g.Inst)
	path := vk.TempPath("bag")
	if vk.Choose("together", 2) == 0 {
		vk.Assert(b.Save(path) == nil, "the model is saved")
		vk.Assert(l.Load(path) == nil, "the model is loaded")
	} else {
		o, os := vBag(1, [][]int{{0}}, 0)
		os[0].id = 7
		o.Fit(g.Inst)
		vk.Assert(vg.Together(path, []base.Classifier{vAsClassifier{o}, vAsClassifier{b}}, []base.Classifier{vAsClassifier{o}, vAsClassifier{l}}) == nil, "models are saved to and loaded from one file")
		vk.Assert(os[0].loaded == 7, "the other model is loaded from its own part of the file")
	}
	vk.Assert(l.RandomFeatures == ask, "the number of features is the same")
	p, err := b.Predict(g.Inst)
	q, err2 := l.Predict(g.Inst)
	vk.Assert(err == nil && err2 == nil, "rows are predicted")
	vk.Assert(base.GetClass(p, 0) == base.GetClass(q, 0), "the answers are the same")
	for i := range ms {
		vk.Assert(ls[i].loaded == uint64(i), "every member is loaded from its own part of the file")
		vk.Assert(len(ls[i].askAttrs) == len(ms[i].askAttrs), "a member is asked about as many columns")
		for j, a := range ms[i].askAttrs {
			vk.Assert(a.Equals(ls[i].askAttrs[j]), fmt.Sprint("a member is asked about the same columns"))
		}
	}
}

// VH_C33_members: a bagged model with more or fewer members than the file holds is refused.
// bounds: 1..3 members saved, 0..3 loaded
// time: 30 60
func VH_C33_members() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	vk.Opt("ncpu", 1)
	k, n := 1+vk.Choose("saved", 3), vk.Choose("loaded", 4)
	v := vk.Int("v", 0, 1)
	ans := [][]int{{v}, {v}, {v}}
	b, _ := vBag(k, ans[:k], 0)
	l, _ := vBag(n, ans[:n], 0)
	g := vGrid(1, 1, 1, []string{"u", "v"}, []int{1})
	b.Fit(g.Inst)
	path := vk.TempPath("bag")
	vk.Assert(b.Save(path) == nil, "the model is saved")
	vk.Assert((l.Load(path) == nil) == (k == n), "the model is loaded exactly if there are as many members")
}

// vAsClassifier gives bagged models a Fit which returns an error.
type vAsClassifier struct{ *BaggedModel }

func (c vAsClassifier) Fit(g base.FixedDataGrid) error { c.BaggedModel.Fit(g); return nil }
