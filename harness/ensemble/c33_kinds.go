package ensemble

import (
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C33_kinds: a file that holds a model of another kind is refused with an error.
// bounds: nearest neighbours, naive Bayes, ID3, random forests, one-vs-all of nearest neighbours, bagged ID3 and random trees, each trained on 1 row (thorough: any cells), loaded into any of them, into a linear and a multi-class linear classifier
// outside: ID3 and random trees, whose files are the same
// time: 60 200
func VH_C33_kinds() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	vk.Opt("maporder", 0)
	vk.Opt("ncpu", 1)
	from, to := vk.Choose("from", 7), vk.Choose("to", 9)
	vk.Assume(from != to && !(from == 2 && to == 6) && !(from == 6 && to == 2))
	m, _ := vTrained(from)
	l := vModel(to)
	path := vk.TempPath("model")
	vk.Assert(m.Save(path) == nil, "the model is saved")
	vk.Assert(l.Load(path) != nil, "a model of another kind is refused")
	vk.Assert(vModel(from).Load(path) == nil, "its own kind is not")
}
