package naive

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
)

// vBits makes a grid of binary columns and a class; the class is column at.
func vBits(bits [][]int, class []int, cats []string, at int) *vg.Grid {
	var as []base.Attribute
	for c := 0; c <= len(bits[0]); c++ {
		if c == at {
			as = append(as, vg.Attr(vg.C, "class", cats...))
		}
		if c < len(bits[0]) {
			as = append(as, vg.Attr(vg.B, fmt.Sprint("b", c)))
		}
	}
	return vg.New(as, []int{at}, len(bits), func(r, c int) []byte {
		if c == at {
			return vg.Cat(class[r])
		}
		if c > at {
			c--
		}
		return []byte{byte(bits[r][c])}
	})
}

// vScore is the likelihood (not logarithmic) of a class for a row.
func vScore(bits [][]int, class []int, k int, q []int) float64 {
	n, s := 0, 1.0
	for _, c := range class {
		if c == k {
			n++
		}
	}
	s *= float64(n) / float64(len(class))
	for f := range q {
		with := 0
		for r, c := range class {
			if c == k && bits[r][f] == 1 {
				with++
			}
		}
		p := float64(with+1) / float64(n+1)
		switch {
		case q[f] == 1:
			s *= p
		case with == n:
			s *= 1 / float64(n+1)
		default:
			s *= 1 - p
		}
	}
	return s
}
