package base

import (
	"archive/tar"
	"bytes"
	"io"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vChunks returns short reads at every multiple of win bytes, as a decompressor does at its window's end.
type vChunks struct {
	b        []byte
	pos, win int
}

func (c *vChunks) Read(p []byte) (int, error) {
	if c.pos >= len(c.b) {
		return 0, io.EOF
	}
	end := (c.pos/c.win + 1) * c.win
	if end > len(c.b) {
		end = len(c.b)
	}
	n := copy(p, c.b[c.pos:end])
	c.pos += n
	return n, nil
}

// VH_C12_chunks: instances are read back whole although the stream hands out its bytes in pieces.
// bounds: grids of 1-3 columns of all kinds, 2 rows, any cell bits; pieces ending at every multiple of 3, 5, 7 or 64 bytes
func VH_C12_chunks() {
	kinds := [][]int{{kF, kB}, {kB, kC, kF}, {kF}}[vk.Choose("shape", 3)]
	g := vDense(kinds, []int{0}, 2)
	win := []int{3, 5, 7, 64}[vk.Choose("win", 4)]
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	vk.Assert(SerializeInstancesToTarWriter(g.inst, tw, "", true) == nil, "serialises")
	vk.Assert(tw.Close() == nil, "closes")
	b := buf.Bytes()
	r, err := DeserializeInstancesFromTarReader(NewFunctionalTarReader(func() *tar.Reader {
		return tar.NewReader(&vChunks{b, 0, win})
	}), "")
	vk.Assert(err == nil, "deserialises from a stream of pieces")
	vSameGrid(r, g.inst, "pieces")
}
