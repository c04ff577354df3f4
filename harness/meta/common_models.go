package meta

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
)

// vOva makes a one-vs-all model of stand-ins; conf gives their confidence for a row.
func vOva(conf func(model, row int) float64) (*OneVsAllModel, *[]*vModel, *[]string) {
	ms, names := &[]*vModel{}, &[]string{}
	m := NewOneVsAllModel(func(name string) base.Classifier {
		i := len(*ms)
		c := &vModel{id: i, answer: func(r int) []byte { return vg.Float(conf(i, r)) }}
		*ms, *names = append(*ms, c), append(*names, name)
		return c
	})
	return m, ms, names
}

// vBag makes a bagged model of stand-ins with the given answers per row.
func vBag(k int, answers [][]int, features int) (*BaggedModel, []*vModel) {
	b, ms := &BaggedModel{RandomFeatures: features}, []*vModel{}
	for i := 0; i < k; i++ {
		i := i
		m := &vModel{id: i, answer: func(r int) []byte { return vg.Cat(answers[i][r]) }}
		ms = append(ms, m)
		b.AddModel(m)
	}
	return b, ms
}
