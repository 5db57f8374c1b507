package CloudForest

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	vRegister("tables loaded", 6000, c19load)
	vRegister("cases written and loaded back", 4000, c19save)
}

// what a table says: one column per feature
type c19Col struct {
	name  string
	num   bool
	cells []string // as written
}

func c19Num(c *vCase) string {
	switch c.Intn(7) {
	case 0:
		return []string{"NA", "?", "null", "na", "missing"}[c.Intn(5)]
	case 1:
		return strconv.Itoa(c.Intn(30) - 10)
	case 2:
		return fmt.Sprintf("%e", c.NormFloat64()*1e9)
	case 3:
		return []string{"0", "-0", "+1.5", ".5", "3.", "1e-300", "1E5", "0.1", "1e999x", "x1", "1 2"}[c.Intn(11)]
	}
	return fmt.Sprintf("%v", c.NormFloat64())
}

func c19Cat(c *vCase, k int) string {
	switch c.Intn(10) {
	case 0:
		return []string{"NA", "?", "nan", "Na", "NULL", "null"}[c.Intn(6)]
	case 1:
		return []string{"true", "false", "0", "1", "two words", "é", "x:y", "a=b", "na na", "nanx", "N:", "10", "A", "a"}[c.Intn(14)]
	}
	return fmt.Sprintf("c%d", c.Intn(k))
}

func c19Missing(num bool, cell string) bool {
	if num {
		_, err := strconv.ParseFloat(cell, 64)
		return err != nil
	}
	switch strings.ToLower(cell) {
	case "", "?", "na", "nan", "null":
		return true
	}
	return false
}

func c19Columns(c *vCase, n, nf int, name func(k int, num bool) string) []c19Col {
	var cols []c19Col
	for k := 0; k < nf; k++ {
		col := c19Col{num: c.Intn(2) == 0}
		col.name = name(k, col.num)
		cats := 1 + c.Intn(6)
		for i := 0; i < n; i++ {
			if col.num {
				col.cells = append(col.cells, c19Num(c))
			} else {
				col.cells = append(col.cells, c19Cat(c, cats))
			}
		}
		cols = append(cols, col)
	}
	return cols
}

func c19Empty(c *vCase, cols []c19Col) []c19Col {
	for _, col := range cols {
		if c.Intn(3) == 0 {
			for i := range col.cells {
				if c.Intn(5) == 0 {
					col.cells[i] = ""
				}
			}
		}
	}
	return cols
}

func c19Compare(c *vCase, fm *FeatureMatrix, cols []c19Col, labels []string) {
	c.Check(fm != nil, "nothing loaded")
	c.Check(len(fm.Data) == len(cols), "%d features loaded, the table has %d", len(fm.Data), len(cols))
	c.Check(len(fm.Map) == len(cols), "the name index holds %d names, the table %d", len(fm.Map), len(cols))
	c.Check(len(fm.CaseLabels) == len(labels), "%d case labels loaded, the table has %d", len(fm.CaseLabels), len(labels))
	for i := range labels {
		c.Check(fm.CaseLabels[i] == labels[i], "case %d is labelled %q, written as %q", i, fm.CaseLabels[i], labels[i])
	}
	for k, col := range cols {
		f := fm.Data[k]
		c.Check(f.GetName() == col.name, "feature %d is named %q, written as %q", k, f.GetName(), col.name)
		j, ok := fm.Map[col.name]
		c.Check(ok && j == k, "the name %q leads to feature %d (%v), written as %d", col.name, j, ok, k)
		_, num := f.(NumFeature)
		c.Check(num == col.num, "feature %q is numerical: %v, written as %v", col.name, num, col.num)
		c.Check(f.Length() == len(col.cells), "feature %q holds %d cases, written with %d", col.name, f.Length(), len(col.cells))
		some := false
		for i, cell := range col.cells {
			miss := c19Missing(col.num, cell)
			some = some || miss
			c.Check(f.IsMissing(i) == miss, "feature %q case %d missing: %v, written as %q", col.name, i, f.IsMissing(i), cell)
			if miss {
				continue
			}
			if num {
				want, _ := strconv.ParseFloat(cell, 64)
				c.Check(f.(NumFeature).Get(i) == want, "feature %q case %d is %v, written as %q", col.name, i, f.(NumFeature).Get(i), cell)
			} else {
				c.Check(f.GetStr(i) == cell, "feature %q case %d is %q, written as %q", col.name, i, f.GetStr(i), cell)
			}
		}
		c.Check(!some || f.MissingVals(), "feature %q does not report its missing cases", col.name)
	}
}

func c19Finish(c *vCase, text string) io.Reader {
	if c.Intn(3) == 0 {
		text = strings.TrimSuffix(text, "\n")
		c.Log("last line", "without a line break")
	}
	c.Log("table", text)
	if c.Intn(3) == 0 {
		return &c19Reader{text, []int{1, 5, 333, 4096}[c.Intn(4)]}
	}
	return strings.NewReader(text)
}

type c19Reader struct {
	s string
	n int
}

func (r *c19Reader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	k := r.n
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.s) {
		k = len(r.s)
	}
	copy(p, r.s[:k])
	r.s = r.s[k:]
	return k, nil
}

func c19Labels(c *vCase, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		switch c.Intn(4) {
		case 0:
			l = append(l, fmt.Sprintf("%d", i))
		case 1:
			l = append(l, fmt.Sprintf("patient %d", i))
		case 2:
			l = append(l, []string{"x", "A1", "id-7", "7", "é", "NA"}[c.Intn(6)])
		default:
			l = append(l, fmt.Sprintf("L%d", c.Intn(1000)))
		}
	}
	return l
}

func c19AFMName(c *vCase) func(k int, num bool) string {
	return func(k int, num bool) string {
		p := "N:"
		if !num {
			p = []string{"C:", "B:"}[c.Intn(2)]
		}
		return p + fmt.Sprintf([]string{"F%d", "name %d", "N:%d", "%d", "é%d"}[c.Intn(5)], k)
	}
}

func c19load(c *vCase) {
	n, nf := 1+c.Intn(12), 1+c.Intn(6)
	if c.Intn(15) == 0 {
		n = 200 + c.Intn(900)
	}
	switch c.Intn(4) {
	case 0: // features in rows
		cols := c19Empty(c, c19Columns(c, n, nf, c19AFMName(c)))
		labels := c19Labels(c, n)
		rows := []string{strings.Join(append([]string{"."}, labels...), "\t")}
		for _, col := range cols {
			rows = append(rows, strings.Join(append([]string{col.name}, col.cells...), "\t"))
		}
		c19Compare(c, ParseAFM(c19Finish(c, strings.Join(rows, "\n")+"\n")), cols, labels)
	case 1: // features in columns
		cols := c19Empty(c, c19Columns(c, n, nf, c19AFMName(c)))
		labels := c19Labels(c, n)
		head := []string{"."}
		for _, col := range cols {
			head = append(head, col.name)
		}
		rows := []string{strings.Join(head, "\t")}
		for i := 0; i < n; i++ {
			row := []string{labels[i]}
			for _, col := range cols {
				row = append(row, col.cells[i])
			}
			rows = append(rows, strings.Join(row, "\t"))
		}
		c19Compare(c, ParseAFM(c19Finish(c, strings.Join(rows, "\n")+"\n")), cols, labels)
	case 2: // attribute-relation
		cols := c19Columns(c, n, nf, func(k int, num bool) string { return fmt.Sprintf("F%d", k) })
		if nf > 1 { // a line of one empty cell is an empty line
			cols = c19Empty(c, cols)
		}
		at, re, da := "@attribute", "@relation", "@data"
		if c.Intn(2) == 0 {
			at, re, da = "@ATTRIBUTE", "@RELATION", "@DATA"
		}
		var b bytes.Buffer
		if c.Intn(2) == 0 {
			fmt.Fprintf(&b, "%% a comment\n%%\n")
		}
		fmt.Fprintf(&b, "%s test\n\n", re)
		for _, col := range cols {
			typ := []string{"numeric", "NUMERIC", "real", "REAL", "Real"}[c.Intn(5)]
			if !col.num {
				typ = []string{"{a,b}", "{c0,c1,c2}", "{ a, b }"}[c.Intn(3)]
			}
			fmt.Fprintf(&b, "%s%s%s%s%s\n", at, []string{" ", "\t", "   "}[c.Intn(3)], col.name, []string{" ", "\t"}[c.Intn(2)], typ)
		}
		fmt.Fprintf(&b, "\n%s\n", da)
		var labels []string
		for i := 0; i < n; i++ {
			var row []string
			for _, col := range cols {
				row = append(row, col.cells[i])
			}
			labels = append(labels, strconv.Itoa(i))
			b.WriteString(strings.Join(row, ",") + "\n")
			if c.Intn(20) == 0 && i+1 < n {
				b.WriteString("% between\n")
			}
		}
		c19Compare(c, ParseARFF(c19Finish(c, b.String())), cols, labels)
	default: // sparse numbered
		cols := []c19Col{{name: "0", num: c.Intn(2) == 0}}
		for k := 1; k <= nf; k++ {
			cols = append(cols, c19Col{name: strconv.Itoa(k), num: true})
		}
		var labels []string
		var b bytes.Buffer
		top := 0
		for i := 0; i < n; i++ {
			labels = append(labels, strconv.Itoa(i))
			t := fmt.Sprintf("%d", c.Intn(4)-1)
			if cols[0].num {
				t = fmt.Sprintf("%.3f", c.NormFloat64())
			}
			row := []string{t}
			cols[0].cells = append(cols[0].cells, t)
			for k := 1; k <= nf; k++ {
				cell := "0"
				if c.Intn(3) == 0 {
					cell = fmt.Sprintf("%v", c.NormFloat64())
					if c.Intn(8) == 0 {
						cell = "NA"
					}
					row = append(row, fmt.Sprintf("%d:%s", k, cell))
					if k > top {
						top = k
					}
				}
				cols[k].cells = append(cols[k].cells, cell)
			}
			b.WriteString(strings.Join(row, " ") + "\n")
		}
		c19Compare(c, ParseLibSVM(c19Finish(c, b.String())), cols[:top+1], labels)
	}
}

func c19snapshot(fm *FeatureMatrix) string {
	s := fmt.Sprint(len(fm.Data), len(fm.Map), fm.CaseLabels)
	for _, f := range fm.Data {
		s += vSnap(f) + fmt.Sprint(fm.Map[f.GetName()], f.MissingVals(), f.NCats())
		if d, ok := f.(*DenseNumFeature); ok {
			for i := range d.NumData {
				s += fmt.Sprint(math.Float64bits(d.NumData[i]))
			}
		}
	}
	return s
}

func c19save(c *vCase) {
	n, nf := 1+c.Intn(12), 1+c.Intn(6)
	fm := &FeatureMatrix{Map: map[string]int{}, CaseLabels: c19Labels(c, n)}
	cols := c19Columns(c, n, nf, c19AFMName(c))
	format := c.Intn(4)
	if format != 0 {
		for k := range cols {
			cols[k].name = fmt.Sprintf("F%d", k)
		}
	}
	for k, col := range cols {
		var f Feature
		if col.num {
			f = &DenseNumFeature{Name: col.name}
		} else {
			f = &DenseCatFeature{CatMap: &CatMap{Map: map[string]int{}, Back: []string{}}, Name: col.name}
		}
		known := -1
		for i := range col.cells {
			if format >= 2 && col.num && c19Missing(true, col.cells[i]) && c.Intn(2) == 0 {
				col.cells[i] = "0.25"
			}
			if !c19Missing(col.num, col.cells[i]) {
				known = i
			}
		}
		if format >= 2 && known < 0 { // imputing needs a known value
			col.cells[0] = "1"
		}
		for i := range col.cells {
			f.Append(col.cells[i])
		}
		fm.Map[col.name] = k
		fm.Data = append(fm.Data, f)
		c.Log(fmt.Sprintf("feature %d", k), vShow(f))
	}
	cases := vCases(c, n)
	c.Log("cases", cases)
	restricted := func() []c19Col {
		var r []c19Col
		for _, col := range cols {
			q := c19Col{name: col.name, num: col.num}
			for _, i := range cases {
				cell := col.cells[i]
				if c19Missing(col.num, cell) {
					cell = "NA"
				}
				q.cells = append(q.cells, cell)
			}
			r = append(r, q)
		}
		return r
	}
	before := c19snapshot(fm)
	unchanged := func() {
		c.Check(c19snapshot(fm) == before, "writing changed the matrix: before %s, after %s", before, c19snapshot(fm))
	}
	var buf bytes.Buffer
	switch format {
	case 0:
		if len(cases) == 0 {
			cases = []int{0}
		}
		err := fm.WriteCases(&buf, cases)
		c.Check(err == nil, "writing fails: %v", err)
		c.Log("file", buf.String())
		unchanged()
		var labels []string
		for _, i := range cases {
			labels = append(labels, fm.CaseLabels[i])
		}
		if c.Intn(10) == 0 {
			dir, err := ioutil.TempDir("", "verif19")
			if err == nil {
				defer os.RemoveAll(dir)
				name := filepath.Join(dir, "t.afm")
				if ioutil.WriteFile(name, buf.Bytes(), 0600) == nil {
					back, err := LoadAFM(name)
					c.Check(err == nil, "loading the file fails: %v", err)
					c19Compare(c, back, restricted(), labels)
				}
			}
			return
		}
		c19Compare(c, ParseAFM(&buf), restricted(), labels)
	case 1:
		for _, col := range cols {
			for _, cell := range col.cells {
				if strings.HasPrefix(cell, "%") {
					return
				}
			}
		}
		err := WriteArffCases(fm, cases, "rel", &buf)
		c.Check(err == nil, "writing fails: %v", err)
		c.Log("file", buf.String())
		unchanged()
		var labels []string
		for i := range cases {
			labels = append(labels, strconv.Itoa(i))
		}
		c19Compare(c, ParseARFF(&buf), restricted(), labels)
	default:
		ti := c.Intn(nf)
		target := fm.Data[ti]
		all := format == 3
		if all {
			cases = nil
			for i := 0; i < n; i++ {
				cases = append(cases, i)
			}
		}
		// the expected columns: the other features imputed and encoded
		rest := &FeatureMatrix{Map: map[string]int{}}
		for k, f := range fm.Data {
			if k != ti {
				rest.Data = append(rest.Data, f.Copy())
			}
		}
		rest.ImputeMissing()
		enc := rest.EncodeToNum()
		c.Check(c19snapshot(fm) == before, "encoding copies changed the matrix")
		var err error
		if all {
			err = WriteLibSvm(fm, target.GetName(), &buf)
		} else {
			err = WriteLibSvmCases(fm, cases, target.GetName(), &buf)
		}
		c.Check(err == nil, "writing fails: %v", err)
		text := buf.String()
		c.Log("target", target.GetName())
		c.Log("file", text)
		unchanged()
		lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		if len(cases) == 0 {
			c.Check(text == "", "no cases written as %q", text)
			return
		}
		c.Check(len(lines) == len(cases), "%d lines for %d cases", len(lines), len(cases))
		for k, i := range cases {
			parts := strings.Fields(lines[k])
			c.Check(len(parts) > 0, "line %d is empty", k)
			if !target.IsMissing(i) {
				if nfe, ok := target.(NumFeature); ok {
					v, err := strconv.ParseFloat(parts[0], 64)
					c.Check(err == nil && v == nfe.Get(i), "line %d: target written as %q, is %v", k, parts[0], nfe.Get(i))
				} else {
					c.Check(parts[0] == strconv.Itoa(target.(CatFeature).Geti(i)), "line %d: target written as %q, is category %d", k, parts[0], target.(CatFeature).Geti(i))
				}
			}
			got := map[int]float64{}
			for _, p := range parts[1:] {
				kv := strings.Split(p, ":")
				c.Check(len(kv) == 2, "line %d: cell %q", k, p)
				j, e1 := strconv.Atoi(kv[0])
				v, e2 := strconv.ParseFloat(kv[1], 64)
				_, dup := got[j]
				c.Check(e1 == nil && e2 == nil && !dup && j >= 1 && j <= len(enc.Data), "line %d: cell %q", k, p)
				got[j] = v
			}
			for j, f := range enc.Data {
				want := f.(NumFeature).Get(i)
				c.Check(got[j+1] == want, "case %d: column %d (%s) written as %v, is %v", i, j+1, f.GetName(), got[j+1], want)
			}
		}
		// and load it again
		back := ParseLibSVM(strings.NewReader(text))
		c.Check(back != nil && len(back.Data) >= 1 && len(back.Data) <= len(enc.Data)+1, "loaded back wrongly")
		c.Check(len(back.CaseLabels) == len(cases), "%d cases written, %d loaded back", len(cases), len(back.CaseLabels))
		for j := 0; j < len(enc.Data); j++ {
			for k, i := range cases {
				got := 0.0
				if j+1 < len(back.Data) {
					c.Check(back.Data[j+1].Length() == len(cases), "column %d loaded back with %d cases, %d written", j+1, back.Data[j+1].Length(), len(cases))
					got = back.Data[j+1].(NumFeature).Get(k)
				}
				want := enc.Data[j].(NumFeature).Get(i)
				c.Check(got == want, "case %d: column %d loaded back as %v, is %v", i, j+1, got, want)
			}
		}
	}
}
