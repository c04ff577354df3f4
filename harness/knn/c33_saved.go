package knn

import (
	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vSame: two KNN classifiers have the same settings and training data and answer alike.
func vSame(a, b *KNNClassifier, v *vKnn) {
	vk.Assert(a.DistanceFunc == b.DistanceFunc && a.Algorithm == b.Algorithm && a.NearestNeighbours == b.NearestNeighbours &&
		a.Weighted == b.Weighted && a.AllowOptimisations == b.AllowOptimisations, "the settings are the same")
	_, n := b.TrainingData.Size()
	vk.Assert(n == len(v.x), "the training rows are there")
	for c, at := range v.train.Attrs {
		s, err := b.TrainingData.GetAttribute(at)
		vk.Assert(err == nil, "the training columns are there")
		for r := range v.x {
			vk.Assert(vk.BytesEq(b.TrainingData.Get(s, r), v.train.Vals[r][c]), "the training cells are the same")
		}
	}
	p, err := a.Predict(v.query.Inst)
	q, err2 := b.Predict(v.query.Inst)
	vk.Assert(err == nil && err2 == nil, "rows are predicted")
	if len(v.x) == 2 && a.NearestNeighbours == 2 && v.cls[0] != v.cls[1] && // a tie of votes may be decided either way
		(!a.Weighted || vk.Conc(vk.B2I(vAbs(v.x[0][0]-v.q[0][0]) == vAbs(v.x[1][0]-v.q[0][0]))) == 1) {
		return
	}
	for r := range v.q {
		vk.Assert(base.GetClass(p, r) == base.GetClass(q, r), "the answers are the same")
	}
}

// VH_C33_knn: a nearest-neighbour classifier loaded from the file it was saved to has its settings and training data and answers alike.
// bounds: 1..2 training rows, 1 query, 1 integer feature in [-3,3], 2 layouts, two metrics, both algorithms, every K, with and without weights and optimisation
// time: 60 200
func VH_C33_knn() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	n := 1 + vk.Choose("n", 2)
	v := vKnnData(n, 1, 1, 3, 1+vk.Choose("layout", 2))
	algo := vk.Choose("algo", 4)
	a := NewKnnClassifier([]string{"euclidean", "manhattan"}[vk.Choose("metric", 2)], []string{"linear", "kdtree", "linear", "linear"}[algo], 1+vk.Choose("k", n))
	a.Weighted = algo == 2
	a.AllowOptimisations = algo == 3
	vk.Assert(a.Fit(v.train.Inst) == nil, "the model is fitted")
	path := vk.TempPath("knn")
	vk.Assert(a.Save(path) == nil, "the model is saved")
	b := NewKnnClassifier("cosine", "linear", 7)
	if algo == 0 {
		var err error
		b, err = ReloadKNNClassifier(path)
		vk.Assert(err == nil, "the model is loaded")
	} else {
		vk.Assert(b.Load(path) == nil, "the model is loaded")
	}
	vSame(a, b, v)
}

// VH_C33_knn_together: models saved into one file are each loaded from their own part.
// bounds: 2 models of 1..2 training rows of 1 integer feature in [-3,3], linear search, Euclidean and Manhattan
// time: 60 200
func VH_C33_knn_together() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	v, w := vKnnData(1, 1, 1, 3, 1), vKnnData(2, 1, 1, 3, 1)
	a, b := NewKnnClassifier("euclidean", "linear", 1), NewKnnClassifier("manhattan", "linear", 2)
	vk.Assert(a.Fit(v.train.Inst) == nil && b.Fit(w.train.Inst) == nil, "the models are fitted")
	c, d := NewKnnClassifier("cosine", "linear", 7), NewKnnClassifier("cosine", "linear", 7)
	vk.Assert(vg.Together(vk.TempPath("knn"), []base.Classifier{a, b}, []base.Classifier{c, d}) == nil, "models are saved to and loaded from one file")
	vSame(a, c, v)
	vSame(b, d, w)
}

// VH_C33_refuse: files of another format, classifier or version, truncated files and files that do not exist are refused.
// bounds: format versions 0..2, 3 classifier names, 2 versions, with and without the training data
func VH_C33_refuse() {
	vk.Opt("merge", 0)
	vk.Opt("steps", 60000000)
	v := vKnnData(1, 1, 1, 3, 1)
	a := NewKnnClassifier("euclidean", "linear", 1)
	vk.Assert(a.Fit(v.train.Inst) == nil, "the model is fitted")
	md := a.GetMetadata()
	md.FormatVersion = vk.Choose("format", 3)
	md.ClassifierName = []string{"KNN", "LinearSVC", ""}[vk.Choose("name", 3)]
	md.ClassifierVersion = []string{"1.0", "2.0"}[vk.Choose("version", 2)]
	path := vk.TempPath("knn")
	w, err := base.CreateSerializedClassifierStub(path, md)
	vk.Assert(err == nil, "a file is made")
	whole := vk.Choose("whole", 2) == 1
	if whole {
		vk.Assert(a.SaveWithPrefix(w, "") == nil, "the model is saved")
	}
	vk.Assert(w.Close() == nil, "the file is finished")
	b := NewKnnClassifier("cosine", "linear", 7)
	good := md.FormatVersion == 1 && md.ClassifierName == "KNN" && md.ClassifierVersion == "1.0" && whole
	vk.Assert((b.Load(path) == nil) == good, "files are loaded exactly if they hold such a model")
	vk.Assert(b.Load(path+"x") != nil, "files that do not exist are refused")
	_, err = ReloadKNNClassifier(path)
	vk.Assert((err == nil) == good, "files are loaded exactly if they hold such a model")
}
