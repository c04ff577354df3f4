package base

import (
	"fmt"
	"os"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C39_files: instances which could not be written whole are reported, in every format.
// bounds: grids of 1..3 columns of all kinds, 0..2 rows of any bits; as an archive, CSV (headers and cells of fixed content) and ARFF; the disk is full after any number of writes
// outside: faults when a file is closed or synchronised
func VH_C39_files() {
	path := vk.TempPath("out")
	how := vk.Choose("how", 3)
	kinds := [][]int{{kF, kB}, {kB, kC, kF}, {kF}}[vk.Choose("shape", 3)]
	g := vDense(kinds, []int{0}, vk.Choose("rows", 3))
	if how > 0 {
		n := 0.0
		g = vDenseWith(kinds, []int{0}, vk.Choose("fixed", 2), func(k int, _ string) []byte {
			n++
			if k == kF {
				return PackFloatToBytes(n / 4)
			}
			return vCellOrd(k, fmt.Sprint("c", n), 0, 1)
		})
	}
	vk.FullDisk(path, func() error {
		switch how {
		case 0:
			return SerializeInstancesToFile(g.inst, path)
		case 1:
			return SerializeInstancesToCSV(g.inst, path)
		default:
			return SerializeInstancesToDenseARFF(g.inst, path, "r")
		}
	})
}

// VH_C39_archive: an archive of instances which is cut short is refused, or read whole.
// bounds: grids of 1..3 columns of all kinds, 0..2 rows of any bits; the compressed stream ends at any block of 512 bytes or 100 bytes into it
func VH_C39_archive() {
	vk.Opt("merge", 0)
	path := vk.TempPath("archive")
	kinds := [][]int{{kF, kB}, {kB, kC, kF}, {kF}}[vk.Choose("shape", 3)]
	g := vDense(kinds, []int{0}, vk.Choose("rows", 3))
	vk.Assert(SerializeInstancesToFile(g.inst, path) == nil, "instances are written")
	var r *DenseInstances
	vk.CutFile(path, func(p string) error {
		f, err := os.Open(p)
		if err != nil {
			return err
		}
		defer f.Close()
		r, err = DeserializeInstances(f)
		return err
	}, func() { vSameGrid(r, g.inst, "cut") })
}

// VH_C39_entries: what an archive which is cut short still holds is read whole, and what it does not hold is an error.
// bounds: entries of 3 and 700 bytes, a number, text as JSON, attributes and instances; the compressed stream ends at any block of 512 bytes or 100 bytes into it; the disk is full after any number of writes
func VH_C39_entries() {
	vk.Opt("merge", 0)
	path := vk.TempPath("entries")
	long := make([]byte, 700)
	long[699] = vk.U8("last")
	n := vk.U64("n")
	g := vDense([]int{kF, kC}, []int{1}, 1)
	save := func() error {
		w, err := CreateSerializedClassifierStub(path, ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "n", ClassifierVersion: "v"})
		if err != nil {
			return err
		}
		for _, f := range []func() error{
			func() error { return w.WriteBytesForKey("short", []byte{1, 2, 3}) },
			func() error { return w.WriteBytesForKey("long", long) },
			func() error { return w.WriteU64ForKey("number", n) },
			func() error { return w.WriteJSONForKey("json", "text") },
			func() error { return w.WriteAttributesForKey("attrs", g.attrs) },
			func() error { return w.WriteInstancesForKey("grid", g.inst, true) },
		} {
			if err := f(); err != nil {
				w.Close()
				return err
			}
		}
		return w.Close()
	}
	if vk.Choose("full", 2) == 1 {
		vk.FullDisk(path, save)
		return
	}
	vk.Assert(save() == nil, "the archive is written")
	var r *ClassifierDeserializer
	vk.CutFile(path, func(p string) (err error) {
		r, err = ReadSerializedClassifierStub(p)
		return err
	}, func() {
		defer r.Close()
		if b, err := r.GetBytesForKey("short"); err == nil {
			vk.Assert(len(b) == 3 && b[2] == 3, "a short entry is read whole")
		}
		if b, err := r.GetBytesForKey("long"); err == nil {
			vk.Assert(len(b) == 700 && b[699] == long[699], "a long entry is read whole")
		}
		if k, err := r.GetU64ForKey("number"); err == nil {
			vk.Assert(k == n, "a number is read whole")
		}
		t := ""
		if err := r.GetJSONForKey("json", &t); err == nil {
			vk.Assert(t == "text", "text is read whole")
		}
		if as, err := r.GetAttributesForKey("attrs"); err == nil {
			vk.Assert(len(as) == 2 && as[0].Equals(g.attrs[0]) && as[1].Equals(g.attrs[1]), "attributes are read whole")
		}
		if x, err := r.GetInstancesForKey("grid"); err == nil {
			vSameGrid(x, g.inst, "cut")
		}
	})
}
