package CloudForest

import (
	"fmt"
	"math"
	"strconv"
)

func init() {
	vRegister("num", 3500, c04Num)
	vRegister("cat", 3500, c04Cat)
	vRegister("matrix", 800, c04Matrix)
}

type c04NumM struct {
	f    Feature
	miss []bool
	v    []float64
}

func (m *c04NumM) check(c *vCase, what string) {
	f := m.f.(*DenseNumFeature)
	c.Check(f.Length() == len(m.v), "%s: length %d, want %d", what, f.Length(), len(m.v))
	any := false
	for i := range m.v {
		c.Check(f.IsMissing(i) == m.miss[i], "%s: case %d missing=%v, want %v", what, i, f.IsMissing(i), m.miss[i])
		any = any || m.miss[i]
		if !m.miss[i] {
			c.Check(vClose(f.Get(i), m.v[i]), "%s: case %d reads %v, want %v", what, i, f.Get(i), m.v[i])
			if !vClose(f.Get(i), math.Inf(1)) && !math.IsNaN(f.Get(i)) {
				p, err := strconv.ParseFloat(f.GetStr(i), 64)
				c.Check(err == nil && vClose(p, m.v[i]), "%s: case %d reads %q, want %v", what, i, f.GetStr(i), m.v[i])
			}
		}
	}
	if any {
		c.Check(f.MissingVals(), "%s: holds a missing case but reports none", what)
	}
}

var c04NumTok = []string{"NA", "", "?", "nil", "1,5", "--2", "abc", "1e", "null"}

func c04Num(c *vCase) {
	all := []*c04NumM{{f: &DenseNumFeature{Name: "f"}}}
	for s := 0; s < 5+c.Intn(45); s++ {
		q := c.Intn(len(all))
		m := all[q]
		n := len(m.v)
		tok := func() (string, float64, bool) {
			if c.Intn(3) == 0 {
				return c04NumTok[c.Intn(len(c04NumTok))], 0, true
			}
			v := float64(c.Intn(400)-200) / 8
			return strconv.FormatFloat(v, 'g', -1, 64), v, false
		}
		switch k := c.Intn(14); {
		case n == 0 || k < 4:
			t, v, miss := tok()
			c.Log("append", fmt.Sprint(q, " ", t))
			m.f.Append(t)
			m.v, m.miss = append(m.v, v), append(m.miss, miss)
		case k < 7:
			t, v, miss := tok()
			i := c.Intn(n)
			c.Log("putstr", fmt.Sprint(q, " ", i, " ", t))
			m.f.PutStr(i, t)
			m.v[i], m.miss[i] = v, miss
		case k < 8:
			i := c.Intn(n)
			c.Log("putmissing", fmt.Sprint(q, " ", i))
			m.f.PutMissing(i)
			m.miss[i] = true
		case k < 9:
			i := c.Intn(n)
			v := c.Float64()
			c.Log("put", fmt.Sprint(q, " ", i, " ", v))
			m.f.(*DenseNumFeature).Put(i, v)
			m.v[i], m.miss[i] = v, false
		case k < 11:
			if len(all) < 4 {
				c.Log("copy", q)
				all = append(all, &c04NumM{m.f.Copy(), append([]bool{}, m.miss...), append([]float64{}, m.v...)})
			}
		case k < 13:
			// copy values into another feature of the same length
			o := all[c.Intn(len(all))]
			if o != m && len(o.v) == n {
				c.Log("copyinto", fmt.Sprint("from ", q))
				m.f.CopyInTo(o.f)
				o.miss, o.v = append([]bool{}, m.miss...), append([]float64{}, m.v...)
			}
		default:
			sum, k := 0.0, 0
			for i := range m.v {
				if !m.miss[i] {
					sum += m.v[i]
					k++
				}
			}
			if k == 0 {
				continue
			}
			c.Log("impute", q)
			m.f.ImputeMissing()
			for i := range m.v {
				if m.miss[i] {
					m.v[i] = sum / float64(k)
					m.miss[i] = false
				}
			}
			c.Check(!m.f.MissingVals(), "imputed feature still reports missing values")
		}
		for q, m := range all {
			m.check(c, fmt.Sprintf("feature %d", q))
		}
	}
}

type c04CatM struct {
	f Feature
	v []string // "" is missing
}

func (m *c04CatM) check(c *vCase, what string) {
	f := m.f
	c.Check(f.Length() == len(m.v), "%s: length %d, want %d", what, f.Length(), len(m.v))
	any := false
	for i := range m.v {
		c.Check(f.IsMissing(i) == (m.v[i] == ""), "%s: case %d missing=%v, want %v", what, i, f.IsMissing(i), m.v[i] == "")
		any = any || m.v[i] == ""
		if m.v[i] != "" {
			c.Check(f.GetStr(i) == m.v[i], "%s: case %d reads %q, want %q", what, i, f.GetStr(i), m.v[i])
		}
	}
	if any {
		c.Check(f.MissingVals(), "%s: holds a missing case but reports none", what)
	}
}

var c04CatTok = []string{"NA", "", "?", "na", "Na", "nan", "NaN", "NAN", "null", "Null", "NULL"}
var c04CatVal = []string{"a", "b", "c", "N", "naa", "nul", "A", "true", "0", "??", " ", "an", "n/a"}

func c04Cat(c *vCase) {
	all := []*c04CatM{{f: &DenseCatFeature{CatMap: &CatMap{Map: map[string]int{}, Back: []string{}}, Name: "f"}}}
	nv := 1 + c.Intn(len(c04CatVal))
	for s := 0; s < 5+c.Intn(45); s++ {
		q := c.Intn(len(all))
		m := all[q]
		n := len(m.v)
		tok := func() (string, string) {
			if c.Intn(3) == 0 {
				return c04CatTok[c.Intn(len(c04CatTok))], ""
			}
			l := c04CatVal[c.Intn(nv)]
			return l, l
		}
		switch k := c.Intn(14); {
		case n == 0 || k < 4:
			t, v := tok()
			c.Log("append", fmt.Sprintf("%d %q", q, t))
			m.f.Append(t)
			m.v = append(m.v, v)
		case k < 7:
			t, v := tok()
			i := c.Intn(n)
			c.Log("putstr", fmt.Sprintf("%d %d %q", q, i, t))
			m.f.PutStr(i, t)
			m.v[i] = v
		case k < 8:
			i := c.Intn(n)
			c.Log("putmissing", fmt.Sprint(q, " ", i))
			m.f.PutMissing(i)
			m.v[i] = ""
		case k < 9:
			i := c.Intn(n)
			cf := m.f.(*DenseCatFeature)
			if cf.NCats() == 0 {
				continue
			}
			v := c.Intn(cf.NCats())
			c.Log("puti", fmt.Sprint(q, " ", i, " ", v))
			cf.Puti(i, v)
			m.v[i] = cf.NumToCat(v)
		case k < 11:
			if len(all) < 4 {
				c.Log("copy", q)
				all = append(all, &c04CatM{m.f.Copy(), append([]string{}, m.v...)})
			}
		case k < 13:
			// copying values into a copy of itself: the label tables agree on the source's labels
			o := m.f.Copy()
			for z := 0; z < 3; z++ {
				i := c.Intn(n)
				t, _ := tok()
				o.PutStr(i, t)
			}
			if c.Intn(2) == 0 {
				o.ImputeMissing()
			}
			c.Log("copyinto", fmt.Sprint("from ", q))
			m.f.CopyInTo(o)
			(&c04CatM{o, m.v}).check(c, "feature copied into")
		default:
			cnt := map[string]int{}
			for _, l := range m.v {
				if l != "" {
					cnt[l]++
				}
			}
			if len(cnt) == 0 {
				continue
			}
			c.Log("impute", q)
			m.f.ImputeMissing()
			fill := ""
			for i := range m.v {
				if m.v[i] == "" {
					l := m.f.GetStr(i)
					for _, k := range cnt {
						c.Check(cnt[l] >= k, "imputed %q which is not the most frequent category", l)
					}
					c.Check(fill == "" || fill == l, "imputed two different categories")
					fill = l
					m.v[i] = l
				}
			}
			c.Check(!m.f.MissingVals(), "imputed feature still reports missing values")
		}
		for q, m := range all {
			m.check(c, fmt.Sprintf("feature %d", q))
		}
	}
}

func c04Matrix(c *vCase) {
	n := 2 + c.Intn(20)
	fm := &FeatureMatrix{Map: map[string]int{}}
	var before []Feature
	for k := 0; k < 1+c.Intn(5); k++ {
		var f Feature
		name := fmt.Sprintf("F%d", k)
		if c.Intn(2) == 0 {
			f = vNum(c, name, n, .3)
		} else {
			f = vCat(c, name, n, 4, .3)
		}
		known := 0
		for i := 0; i < n; i++ {
			if !f.IsMissing(i) {
				known++
			}
		}
		if known == 0 {
			continue
		}
		c.Log("feature", vShow(f))
		fm.Map[name] = len(fm.Data)
		fm.Data = append(fm.Data, f)
		before = append(before, f.Copy())
	}
	fm.ImputeMissing()
	c.Check(len(fm.Data) == len(before), "number of features changed")
	for k, f := range fm.Data {
		b := before[k]
		c.Check(!f.MissingVals(), "feature %d still reports missing values", k)
		sum, m := 0.0, 0
		cnt := map[string]int{}
		for i := 0; i < n; i++ {
			if !b.IsMissing(i) {
				cnt[b.GetStr(i)]++
				if nf, ok := b.(*DenseNumFeature); ok {
					sum += nf.Get(i)
					m++
				}
			}
		}
		for i := 0; i < n; i++ {
			c.Check(!f.IsMissing(i), "feature %d case %d still missing", k, i)
			if !b.IsMissing(i) {
				c.Check(f.GetStr(i) == b.GetStr(i), "feature %d case %d was known and changed", k, i)
				continue
			}
			if nf, ok := f.(*DenseNumFeature); ok {
				c.Check(vClose(nf.Get(i), sum/float64(m)), "feature %d case %d filled with %v, mean is %v", k, i, nf.Get(i), sum/float64(m))
			} else {
				for _, x := range cnt {
					c.Check(cnt[f.GetStr(i)] >= x, "feature %d case %d filled with %q, not the most frequent", k, i, f.GetStr(i))
				}
			}
		}
	}
}
