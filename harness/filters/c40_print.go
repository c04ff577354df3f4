package filters

import (
	"strings"

	"github.com/sjwhitworth/golearn/base"
	vg "github.com/sjwhitworth/golearn/zzg"
	vk "github.com/sjwhitworth/golearn/zzvk"
)

// VH_C40_lazy: printed filtered instances list the attributes after filtering and their first rows; a printed row has the row's values.
// bounds: 1, 5 or 7 rows of a float, a categorical and a binary column with any categories and bits in the first row, floats fixed; one of them the class; conversion to binary and float and binning over any of the columns
func VH_C40_lazy() {
	vk.Opt("merge", 0)
	as := vg.Kinds(vg.F, vg.C, vg.B)
	rows := []int{1, 5, 7}[vk.Choose("rows", 3)]
	g := vg.New(as, []int{vk.Choose("class", 3)}, rows, func(r, c int) []byte {
		switch {
		case c == 0:
			return vg.Float(float64(r) + 0.5)
		case r == 0:
			return vg.Any(as[c], string(rune('b'+c)))
		case c == 1:
			return vg.Cat(r % 3)
		}
		return []byte{byte(r) & 1}
	})
	which := vk.Choose("filter", 3)
	mask := 1
	if which < 2 {
		mask = 1 + vk.Choose("columns", 3)*2
	}
	l := base.NewLazilyFilteredInstances(g.Inst, vSomeFilter(g.Inst, which, func(i int) bool { return mask>>uint(2-i)&1 == 1 || which == 2 && i == 0 }))
	attrs := l.AllAttributes()
	text := l.String()
	at := strings.Index(text, "Data:")
	vk.Assert(at >= 0, "there is a part for the data")
	n := 0
	for _, s := range strings.Split(text[:at], "\n") {
		if !strings.HasPrefix(s, "\t") && !strings.HasPrefix(s, "*\t") {
			continue
		}
		vk.Assert(n < len(attrs) && strings.Contains(s, attrs[n].String()), "attributes are listed in order")
		cls := false
		for _, c := range l.AllClassAttributes() {
			cls = cls || c.Equals(attrs[n])
		}
		vk.Assert(strings.HasPrefix(s, "*") == cls, "classes, and only they, are starred")
		n++
	}
	vk.Assert(n == len(attrs), "every attribute is listed")
	n = 0
	for _, s := range strings.Split(text[at:], "\n") {
		if strings.HasPrefix(s, "\t") {
			vk.Assert(n < rows && strings.Join(strings.Fields(s), " ") == vRowText(l, attrs, n), "a line shows its row")
			n++
		}
	}
	vk.Assert(n == rows || n > 0 && n < rows, "rows are printed, the first ones if not all")
	for r := 0; r < rows; r++ {
		vk.Assert(l.RowString(r) == vRowText(l, attrs, r), "a row's text has its values in order")
	}
}

func vRowText(d base.DataGrid, attrs []base.Attribute, r int) string {
	var fs []string
	for _, a := range attrs {
		fs = append(fs, a.GetStringFromSysVal(vg.Get(d, a, r)))
	}
	return strings.Join(fs, " ")
}
