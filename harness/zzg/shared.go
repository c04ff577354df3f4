package zzg

import (
	"sync"

	"github.com/sjwhitworth/golearn/base"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// Shared asks in two goroutines at once, then once alone, interrupted at up to one place where
// a lock is taken; unordered accesses of the same memory, one a write, are reported, and both
// must get what one alone gets.
func Shared(ask func() (base.FixedDataGrid, error)) {
	vk.Opt("race", 1)
	vk.Opt("sched", 3)
	vk.Opt("preempt", 1)
	var w sync.WaitGroup
	var got [2]base.FixedDataGrid
	var errs [2]error
	for i := 0; i < 2; i++ {
		w.Add(1)
		go func(i int) {
			got[i], errs[i] = ask()
			w.Done()
		}(i)
	}
	w.Wait()
	alone, err := ask()
	for i := 0; i < 2; i++ {
		vk.Assert((errs[i] == nil) == (err == nil), "both are answered if one alone is")
		if err != nil {
			continue
		}
		_, n := alone.Size()
		_, m := got[i].Size()
		as := alone.AllAttributes()
		vk.Assert(m == n && len(got[i].AllAttributes()) == len(as), "both get as many answers as one alone")
		for _, a := range as {
			for r := 0; r < n; r++ {
				vk.Assert(vk.BytesEq(Get(got[i], a, r), Get(alone, a, r)), "both get the answers one alone gets")
			}
		}
	}
}
