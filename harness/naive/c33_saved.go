package naive

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vFitted is a model of symbolic rows.
func vFitted(name string, n, f, at int, cats []string) *vNB {
	bits, class := make([][]int, n), make([]int, n)
	for r := range bits {
		for c := 0; c < f; c++ {
			bits[r] = append(bits[r], vk.Int(fmt.Sprint(name, r, c), 0, 1))
		}
		class[r] = vk.Int(fmt.Sprint(name, "k", r), 0, len(cats)-1)
	}
	nb := NewBernoulliNBClassifier()
	vk.Assert(nb.Fit(vBits(bits, class, cats, at).Inst) == nil, "a model is fitted")
	m := &vNB{nb: nb, f: f}
	for _, c := range cats {
		m.cats = append(m.cats, c)
	}
	m.bits, m.class = bits, class
	return m
}

// vNB is a fitted model and what it was fitted on.
type vNB struct {
	nb    *BernoulliNBClassifier
	f     int
	cats  []string
	bits  [][]int
	class []int
}

// score rates an answer to a query.
func (m *vNB) score(answer string, q []int) float64 {
	for r := range m.bits {
		for c := range m.bits[r] {
			m.bits[r][c] = vk.Conc(m.bits[r][c])
		}
		m.class[r] = vk.Conc(m.class[r])
	}
	for k, c := range m.cats {
		if c == answer {
			return vScore(m.bits, m.class, k, q)
		}
	}
	return -1
}

// alike: the other model answers every query as well (classes may tie).
func (m *vNB) alike(o *BernoulliNBClassifier) {
	for x := 0; x < 1<<uint(m.f); x++ {
		var q [][]byte
		var bits []int
		for c := 0; c < m.f; c++ {
			q = append(q, []byte{byte(x >> uint(c) & 1)})
			bits = append(bits, x>>uint(c)&1)
		}
		a, b := m.nb.PredictOne(q), o.PredictOne(q)
		if a != b {
			s, t := m.score(a, bits), m.score(b, bits)
			vk.Assert(s-t < 1e-12 && t-s < 1e-12, "the answers are the same")
		}
	}
}

// VH_C33_bayes: a naive Bayes model loaded from the file it was saved to answers every query alike, alone and as one of two models in a file.
// bounds: 1 training row of 1..2 binary features or 2 rows of 1 (thorough 2 of 2, 3 of 1) and 2 classes anywhere, any values; every query
// time: 60 200
func VH_C33_bayes() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	vk.Opt("maporder", 0)
	shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}}
	shape := shapes[vk.Choose("shape", 3+2*vk.B2I(vk.Thorough()))]
	n, f := shape[0], shape[1]
	cats := []string{"u", "v"}
	at := vk.Choose("class", 2) * f
	nb := vFitted("b", n, f, at, cats)
	path := vk.TempPath("nb")
	l := NewBernoulliNBClassifier()
	if vk.Choose("together", 2) == 0 {
		vk.Assert(nb.nb.Save(path) == nil, "the model is saved")
		vk.Assert(l.Load(path) == nil, "the model is loaded")
		nb.alike(l)
	} else {
		o, ol := vFitted("o", 1, f, at, cats), NewBernoulliNBClassifier()
		vk.Assert(vg.Together(path, []base.Classifier{nb.nb, o.nb}, []base.Classifier{l, ol}) == nil, "models are saved to and loaded from one file")
		nb.alike(l)
		o.alike(ol)
	}
	q := vBits([][]int{[]int{1, 0}[:f]}, []int{0}, cats, at)
	a, err := nb.nb.Predict(q.Inst)
	b, err2 := l.Predict(q.Inst)
	vk.Assert(err == nil && err2 == nil, "rows are predicted")
	if base.GetClass(a, 0) != base.GetClass(b, 0) {
		s, t := nb.score(base.GetClass(a, 0), []int{1, 0}[:f]), nb.score(base.GetClass(b, 0), []int{1, 0}[:f])
		vk.Assert(s-t < 1e-12 && t-s < 1e-12, "the predictions are the same")
	}
}
