package clustering

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vMap makes a cluster map with clusters of symbolic points; flat lists all points.
func vMap(name string, ids []int, total int, fixed bool) (m ClusterMap, cs [][]int, flat []int) {
	m = ClusterMap{}
	left := total
	for i, id := range ids {
		k := left
		if i < len(ids)-1 {
			k = vk.Choose(fmt.Sprint(name, "size", i), left+1)
		}
		left -= k
		c := []int{}
		for j := 0; j < k; j++ {
			p := len(flat)
			if !fixed {
				p = vk.Int(fmt.Sprint(name, len(flat)), -1, 3)
			}
			c = append(c, p)
			flat = append(flat, c[j])
		}
		m[id] = append([]int{}, c...)
		cs = append(cs, c)
	}
	return
}

func vDistinct(ps []int) bool {
	ok := true
	for i := range ps {
		for j := 0; j < i; j++ {
			ok = vk.And(ok, ps[i] != ps[j])
		}
	}
	return ok
}

// vSubset: every element of a is in b.
func vSubset(a, b []int) bool {
	ok := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = vk.Or(in, x == y)
		}
		ok = vk.And(ok, in)
	}
	return ok
}

// VH_C25_equal: two cluster maps are equal exactly when one is a renaming of the other; malformed ones are refused.
// bounds: 0..3 points each, of any identity in [-1,3] (of three points, those of the first map are fixed), in 1..2 clusters each, empty ones included
// time: 60 300
func VH_C25_equal() {
	vk.Opt("merge", 0)
	k1, k2 := 1+vk.Choose("k1", 2), 1+vk.Choose("k2", 2)
	n1 := vk.Choose("n1", 4)
	a, ca, fa := vMap("a", []int{0, 3}[:k1], n1, n1 == 3)
	b, cb, fb := vMap("b", []int{3, 1}[:k2], vk.Choose("n2", 4), false)
	valid := vk.And(vDistinct(fa), vDistinct(fb))
	same := false
	if k1 == k2 {
		for turn := 0; turn < k1; turn++ {
			eq := true
			for c := range ca {
				o := cb[(c+turn)%k1]
				eq = vk.And(eq, vk.And(vSubset(ca[c], o), vSubset(o, ca[c])))
			}
			same = vk.Or(same, eq)
		}
	}
	want := vk.And(valid, same)
	got, err := a.Equals(b)
	vk.Assert(vk.Iff(got, want), "equal exactly when the same points are together")
	vk.Assert((err == nil) == got, "an error says what differs")
	vk.Cover("equality")
}

// VH_C25_invert: inverting gives each point its cluster and refuses points in two places.
// bounds: up to 4 points of any identity in [-1,3] in 1..3 clusters
func VH_C25_invert() {
	vk.Opt("merge", 0)
	m, cs, flat := vMap("p", []int{4, -2, 0}[:1+vk.Choose("k", 3)], vk.Choose("n", 5), false)
	inv, err := m.Invert()
	vk.Assert(vk.Iff(err == nil, vDistinct(flat)), "points listed twice are refused, others accepted")
	if err == nil {
		vk.Assert(len(inv) == len(flat), "every point is inverted")
		for i, c := range cs {
			for _, p := range c {
				got, ok := inv[p]
				vk.Assert(vk.And(ok, got == []int{4, -2, 0}[i]), "a point's cluster")
			}
		}
	}
	vk.Cover("inversion")
}

// VH_C25_many: maps of many clusters and points.
// bounds: 60 points in 12 clusters against a renaming in another order with any one point (of four) in any cluster or duplicated there
// time: 60 300
func VH_C25_many() {
	vk.Opt("merge", 0)
	const n, k = 60, 12
	a, b := ClusterMap{}, ClusterMap{}
	p := []int{0, 23, 37, n - 1}[vk.Choose("point", 4)]
	to := vk.Int("to", 0, k-1)
	twice := vk.Choose("twice", 2) == 1
	for i := 0; i < n; i++ {
		a[i*7%k] = append(a[i*7%k], i)
		j := n - 1 - i
		if j != p || twice {
			b[100-j*7%k] = append(b[100-j*7%k], j)
		}
		if j == p {
			b[100-vk.Conc(to)] = append(b[100-vk.Conc(to)], j)
		}
	}
	got, err := a.Equals(b)
	vk.Assert(got == (!twice && vk.Conc(to) == p*7%k), "equal exactly when the same points are together")
	vk.Assert((err == nil) == got, "an error says what differs")
	inv, err := b.Invert()
	vk.Assert((err == nil) == !twice, "points listed twice are refused, others accepted")
	if !twice {
		vk.Assert(len(inv) == n, "every point is inverted")
		for i := 0; i < n; i++ {
			want := 100 - i*7%k
			if i == p {
				want = 100 - vk.Conc(to)
			}
			vk.Assert(inv[i] == want, "a point's cluster")
		}
	}
	vk.Cover("many")
}
