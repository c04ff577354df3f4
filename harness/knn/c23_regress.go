package knn

import (
	"fmt"

	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C23_regress: the prediction is the mean of the values of K nearest rows.
// bounds: 1..3 (thorough 4) rows of 1..2 integer features in [-6,6], fixed distinct values, every K, both distances
func VH_C23_regress() {
	vk.Opt("merge", 0)
	n, d := 1+vk.Choose("n", 3+vk.B2I(vk.Thorough())), 1+vk.Choose("d", 2)
	k := 1 + vk.Choose("k", n)
	metric := []string{"euclidean", "manhattan"}[vk.Choose("metric", 2)]
	var flat, vals, q []float64
	for i := 0; i < n; i++ {
		for c := 0; c < d; c++ {
			flat = append(flat, vk.FInt(fmt.Sprint("x", i, c), -6, 6))
		}
		vals = append(vals, []float64{3, -10.5, 16777217.25, 1000}[i])
	}
	for c := 0; c < d; c++ {
		q = append(q, vk.FInt(fmt.Sprint("q", c), -6, 6))
	}
	r := NewKnnRegressor(metric)
	r.Fit(vals, flat, n, d)
	got := r.Predict(vg.Row(q), k)
	// distances up to a monotone function
	dist := make([]float64, n)
	for i := range dist {
		for c := range q {
			e := q[c] - flat[i*d+c]
			if metric == "euclidean" {
				dist[i] += e * e
			} else {
				dist[i] += vAbs(e)
			}
		}
	}
	// some set of k rows, none of which is farther than a row outside, has this mean
	ok := false
	for set := 0; set < 1<<uint(n); set++ {
		size, sum, far, near := 0, 0.0, -1.0, 1e9
		for i := 0; i < n; i++ {
			if set>>uint(i)&1 == 1 {
				size++
				sum += vals[i]
				far = vk.IteF(dist[i] > far, dist[i], far)
			} else {
				near = vk.IteF(dist[i] < near, dist[i], near)
			}
		}
		if size == k {
			ok = vk.Or(ok, vk.And(far <= near, got == sum/float64(k)))
		}
	}
	vk.Assert(ok, "the prediction is the mean of the k nearest")
	vk.Cover("regress")
}

// VH_C23_weighted: a weighted vote goes to a class with the greatest sum of reciprocal distances among the K nearest rows.
// bounds: 1..3 training rows, 1 query at 0, one integer feature in [-5,5] (with 2 rows: 2 queries, features in [-3,3]), 3 classes, every K, both algorithms and metrics
// time: 60 300
func VH_C23_weighted() {
	vk.Opt("merge", 0)
	n := 1 + vk.Choose("n", 3)
	k := 1 + vk.Choose("k", n)
	v := vKnnDataQ(n, 1, 1, 5, 0, 0)
	if n == 2 { // one query after another
		v = vKnnDataQ(n, 2, 1, 3, 3, 0)
	}
	algo := []string{"linear", "kdtree"}[vk.Choose("algo", 2)]
	metric := []string{"manhattan", "euclidean"}[vk.Choose("metric", 2)]
	v.metric = "manhattan" // the same on a line
	v.predict(metric, algo, k, true, vk.Choose("optimise", 2) == 1, "weighted")
}

// VH_C23_many: the mean of the nearest of many rows.
// bounds: 40 rows on a line 3 apart in scattered order, K 1, 7, 25 or 40; any integer query in [-70,-62], [-4,4] or [55,63] that is not halfway between rows; both distances
func VH_C23_many() {
	vk.Opt("merge", 0)
	const n = 40
	k := []int{1, 7, 25, n}[vk.Choose("k", 4)]
	metric := []string{"euclidean", "manhattan"}[vk.Choose("metric", 2)]
	xs, vals := make([]float64, n), make([]float64, n)
	for i := range xs {
		xs[i] = float64(3 * (i*17%n - n/2))
		vals[i] = float64(i * i)
	}
	q := []float64{-66, 0, 59}[vk.Choose("place", 3)] + float64(vk.Choose("q", 9)-4)
	r := NewKnnRegressor(metric)
	r.Fit(vals, append([]float64{}, xs...), n, 1)
	got := r.Predict(vg.Row([]float64{q}), k)
	d := make([]float64, n)
	for i := range d {
		d[i] = vAbs(q - xs[i])
		for j := 0; j < i; j++ {
			vk.Assume(d[i] != d[j])
		}
	}
	sum := 0.0
	for i := range d {
		nearer := 0
		for j := range d {
			nearer += vk.B2I(d[j] < d[i])
		}
		sum += vk.IteF(nearer < k, vals[i], 0)
	}
	vk.Assert(got == sum/float64(k), "the prediction is the mean of the k nearest")
	vk.Cover("many")
}
