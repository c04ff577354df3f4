package kdtree

import (
	"fmt"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C21_heap: the heap gives back its largest element, whatever was inserted and removed before.
// bounds: every sequence of 6 (thorough 8) insertions and removals of integer lengths in [-9,9]
func VH_C21_heap() {
	vk.Opt("merge", 0)
	h := newHeap()
	var in []float64
	var alive []bool
	size := 0
	steps := 6
	if vk.Thorough() {
		steps = 8
	}
	for s := 0; s < steps; s++ {
		if vk.Choose("op", 2) == 0 {
			l := vk.FInt(fmt.Sprint("l", s), -9, 9)
			h.insert([]float64{l}, l, len(in))
			in = append(in, l)
			alive = append(alive, true)
			size++
		} else {
			if size == 0 {
				h.extractMax()
				continue
			}
			m := h.maximum()
			i := m.srcRowNo
			vk.Assert(i >= 0 && i < len(in) && alive[i], "the largest is an element that is still there")
			vk.Assert(m.length == in[i] && len(m.value) == 1 && m.value[0] == in[i], "elements are kept whole")
			for j := range in {
				if alive[j] {
					vk.Assert(in[j] <= m.length, "no element is larger")
				}
			}
			h.extractMax()
			alive[i] = false
			size--
		}
		vk.Assert(h.size() == size, "size")
	}
	vk.Cover("heap")
}
