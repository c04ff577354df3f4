package base

import (
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C01_u64 packs any 64-bit value.
// bounds: all 2^64 values
// outside: big-endian targets
func VH_C01_u64() {
	v := vk.U64("v")
	b := PackU64ToBytes(v)
	vk.Assert(len(b) == 8, "length")
	vk.Assert(UnpackBytesToU64(b) == v, "u64 round trip")
	c := make([]byte, 10)
	c[0], c[9] = 0xAA, 0x55
	PackU64ToBytesInline(v, c[1:9])
	vk.Assert(vk.BytesEq(c[1:9], b), "inline packing agrees")
	vk.Assert(c[0] == 0xAA && c[9] == 0x55, "inline packing stays in its 8 bytes")
	w := vk.U64("w")
	vk.Assert(vk.Iff(vk.BytesEq(PackU64ToBytes(w), b), v == w), "packing is injective")
}

// VH_C01_float packs any float64.
// bounds: all 2^64 bit patterns
func VH_C01_float() {
	v := vk.F64("v")
	b := PackFloatToBytes(v)
	vk.Assert(len(b) == 8, "length")
	vk.Assert(vk.SameBits(UnpackBytesToFloat(b), v), "float round trip")
	c := make([]byte, 8)
	PackFloatToBytesInline(v, c)
	vk.Assert(vk.BytesEq(c, b), "inline packing agrees")
	a := NewFloatAttribute("x")
	vk.Assert(vk.SameBits(a.GetFloatFromSysVal(b), v), "attribute reads the float")
}

// VH_C01_bytes: any 8 bytes survive unpack then pack, through both readings.
// bounds: all 2^64 byte strings
func VH_C01_bytes() {
	b := make([]byte, 8)
	for i := range b {
		b[i] = vk.U8("b")
	}
	vk.Assert(vk.BytesEq(PackU64ToBytes(UnpackBytesToU64(b)), b), "bytes -> u64 -> bytes")
	vk.Assert(vk.BytesEq(PackFloatToBytes(UnpackBytesToFloat(b)), b), "bytes -> float -> bytes")
	x := vk.U8("x")
	i := vk.Int("i", 0, 7)
	c := make([]byte, 8)
	copy(c, b)
	c[i] = x
	vk.Assert(vk.Iff(byteSeqEqual(b, c), x == b[i]), "byteSeqEqual compares every byte")
	n := vk.Choose("n", 8)
	vk.Assert(!byteSeqEqual(b, b[:n]), "byteSeqEqual compares lengths")
}

// VH_C01_rows: rows of number columns turned into matrices hold the cells' values; other columns are refused.
// bounds: 2 rows of a number, a category and another number column, any values; every ordered choice of 1..3 of them; dense grids and views
func VH_C01_rows() {
	g := vDense([]int{kF, kC, kF}, nil, 2)
	perm := [][]int{{0}, {2}, {0, 2}, {2, 0}, {1}, {1, 0}, {0, 1}, {2, 1, 0}, {0, 2, 1}}[vk.Choose("attrs", 9)]
	var attrs []Attribute
	other := false
	for _, p := range perm {
		attrs = append(attrs, g.attrs[p])
		other = other || p == 1
	}
	var d FixedDataGrid = g.inst
	at := []int{0, 1}
	if vk.Choose("view", 2) == 1 {
		at = []int{1, 0, 1}
		d = NewInstancesViewFromVisible(d, at, g.attrs)
	}
	all, err := ConvertAllRowsToMat64(attrs, d)
	vk.Assert((err != nil) == other, "all rows: only number columns")
	if !other {
		vk.Assert(len(all) == len(at), "one matrix per row")
	}
	for i, r := range at {
		one, err := ConvertRowToMat64(attrs, d, i)
		vk.Assert((err != nil) == other, "one row: only number columns")
		if other {
			continue
		}
		nr, nc := one.Dims()
		mr, mc := all[i].Dims()
		vk.Assert(nr == 1 && mr == 1 && nc == len(perm) && mc == len(perm), "one entry per column")
		for j, p := range perm {
			want := UnpackBytesToFloat(g.vals[r][p])
			vk.Assert(vk.SameBits(one.At(0, j), want), "one row: the cell's value")
			vk.Assert(vk.SameBits(all[i].At(0, j), want), "all rows: the cell's value")
		}
	}
}
