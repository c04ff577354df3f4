package base

import (
	"fmt"
	"strings"

	vk "github.com/sjwhitworth/golearn/zzvk"
)

// vShown checks a printed grid: its attributes in order, the classes starred, then one line per shown row.
func vShown(d FixedDataGrid, text string, limit int, counts bool, label string) {
	_, rows := d.Size()
	attrs := d.AllAttributes()
	at := strings.Index(text, "Data:")
	vk.Assert(at >= 0, label+": there is a part for the data")
	head, data := text[:at], text[at+len("Data:"):]
	n := 0
	for _, l := range strings.Split(head, "\n") {
		if !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "*\t") {
			continue
		}
		vk.Assert(n < len(attrs), label+": no more lines than attributes")
		vk.Assert(strings.Contains(l, attrs[n].String()), label+": attributes are listed in order")
		vk.Assert(strings.HasPrefix(l, "*") == vHas(d.AllClassAttributes(), attrs[n]), label+": classes, and only they, are starred")
		n++
	}
	vk.Assert(n == len(attrs), label+": every attribute is listed")
	if counts {
		vk.Assert(strings.Contains(head, fmt.Sprintf("%d row(s)", rows)) && strings.Contains(head, fmt.Sprintf("%d attribute(s)", len(attrs))), label+": the size is stated")
	}
	if rows < limit {
		limit = rows
	}
	var lines []string
	for _, l := range strings.Split(data, "\n") {
		if strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "\t...") {
			lines = append(lines, l)
		}
	}
	vk.Assert(len(lines) == limit, label+": one line per row, up to the limit")
	specs := vSpecs(d, attrs)
	for i, l := range lines {
		vk.Assert(strings.Join(strings.Fields(l), " ") == vRowText(d, specs, i), label+": a line shows its row")
	}
	if counts {
		if limit < rows {
			vk.Assert(strings.Contains(data, fmt.Sprintf("%d row(s) undisplayed", rows-limit)) && !strings.Contains(data, "All rows"), label+": the rows left out are counted")
		} else {
			vk.Assert(strings.Contains(data, "All rows displayed") && !strings.Contains(data, "undisplayed"), label+": nothing is said to be left out")
		}
	}
}

func vRowText(d FixedDataGrid, specs []AttributeSpec, r int) string {
	var fs []string
	for _, s := range specs {
		fs = append(fs, s.GetAttribute().GetStringFromSysVal(d.Get(s, r)))
	}
	return strings.Join(fs, " ")
}

func vPrintGrid(rows int) *vgrid {
	kinds := [][]int{{kF, kC}, {kC, kF, kB}, {kB, kC}, {kC}}[vk.Choose("columns", 4)]
	var classes []int
	if c := vk.Choose("class", len(kinds)+1); c < len(kinds) {
		classes = []int{c}
	}
	return vDenseWith(kinds, classes, rows, func(k int, n string) []byte {
		if k == kF {
			return PackFloatToBytes([]float64{-1.25, 1e21, 0.004}[n[1]-'0'])
		}
		return vCell(k, n)
	})
}

// VH_C40_dense: printed instances, and printed rows of them, show what the cells hold.
// bounds: 0..2 rows of up to 3 columns of all kinds, any category and bit, 3 floats; any one column or none the class; attributes of one or different names
func VH_C40_dense() {
	vk.Opt("merge", 0)
	vOneName = vk.Choose("onename", 2) == 1
	g := vPrintGrid(vk.Choose("rows", 3))
	vShown(g.inst, g.inst.String(), 30, true, "instances")
	for r := range g.vals {
		vk.Assert(g.inst.RowString(r) == vGroupedText(g, r), "a row's text has its values in order")
	}
}

// vGroupedText is a row's text by the values written.
func vGroupedText(g *vgrid, r int) string {
	var fs []string
	for _, a := range g.inst.AllAttributes() {
		for i := range g.attrs {
			if g.attrs[i].Equals(a) {
				fs = append(fs, a.GetStringFromSysVal(g.vals[r][i]))
			}
		}
	}
	return strings.Join(fs, " ")
}

// VH_C40_view: printed views, and printed rows of them, show the rows and attributes of the view.
// bounds: 3 source rows, any 0..3 visible rows in any order, with repeats; 2..3 attributes reordered or hidden; attributes of one or different names
func VH_C40_view() {
	vk.Opt("merge", 0)
	vOneName = vk.Choose("onename", 2) == 1
	g := vDenseWith([]int{kC, kF, kB}, []int{0}, 3, func(k int, n string) []byte {
		if k == kF {
			return PackFloatToBytes(float64(n[1]-'0') - 0.5)
		}
		if k == kC && n[1] == '0' || k == kB && n[1] == '1' {
			return vCell(k, n)
		}
		if k == kC {
			return PackU64ToBytes(uint64(n[1]-'0') % 3)
		}
		return []byte{n[1] & 1}
	})
	var rows []int
	n := vk.Choose("n", 4)
	for i := 0; i < n; i++ {
		rows = append(rows, vk.Choose(fmt.Sprint("r", i), 3))
	}
	perm := [][]int{{0, 1, 2}, {2, 0}, {1, 2}}[vk.Choose("attrs", 3)]
	var attrs []Attribute
	for _, p := range perm {
		attrs = append(attrs, g.attrs[p])
	}
	v := NewInstancesViewFromVisible(g.inst, rows, attrs)
	vShown(v, v.String(), 30, true, "view")
	for i, r := range rows {
		var fs []string
		for _, p := range perm {
			fs = append(fs, g.attrs[p].GetStringFromSysVal(g.vals[r][p]))
		}
		vk.Assert(v.RowString(i) == strings.Join(fs, " "), "a row's text has its values in order")
	}
}

// VH_C40_long: of many rows the first are printed and the rest counted.
// bounds: 29..33 rows of one category, the same by view
func VH_C40_long() {
	vk.Opt("merge", 0)
	k := vk.Int("code", 0, 2)
	g := vDenseWith([]int{kC, kB}, []int{0}, 29+vk.Choose("rows", 5), func(kind int, n string) []byte {
		if kind == kC {
			return PackU64ToBytes(uint64((k + len(n) + int(n[len(n)-3])) % 3))
		}
		return []byte{n[len(n)-3] & 1}
	})
	if vk.Choose("view", 2) == 1 {
		var rows []int
		for r := range g.vals {
			rows = append(rows, len(g.vals)-1-r)
		}
		v := NewInstancesViewFromVisible(g.inst, rows, g.attrs)
		vShown(v, v.String(), 30, true, "view")
		return
	}
	vShown(g.inst, g.inst.String(), 30, true, "instances")
}
