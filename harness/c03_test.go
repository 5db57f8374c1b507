package CloudForest

import (
	"fmt"
	"strconv"
	"strings"
)

func init() {
	vRegister("table", 3000, c03Table)
	vRegister("feature", 2500, c03Feature)
	vRegister("ballot", 1500, c03Ballot)
	vRegister("strip", 1500, c03Strip)
}

var c03Labels = []string{"a", "b", "A", "c d", "0", "1", "true", "false", "x:y", "1.5", "longer label", "é", "NAN1", "a,b", "=", "7", "2", "none"}

func c03Label(c *vCase) string {
	if c.Intn(4) == 0 {
		return "L" + strconv.Itoa(c.Intn(200))
	}
	return c03Labels[c.Intn(len(c03Labels))]
}

// c03Model is the order of first appearance.
type c03Model struct {
	code map[string]int
	back []string
}

func (m *c03Model) see(l string) int {
	k, ok := m.code[l]
	if !ok {
		k = len(m.back)
		m.code[l] = k
		m.back = append(m.back, l)
	}
	return k
}

func c03NewModel() *c03Model { return &c03Model{code: map[string]int{}} }

func (m *c03Model) check(c *vCase, cm *CatMap, what string) {
	c.Check(cm.NCats() == len(m.back), "%s: %d categories, want %d", what, cm.NCats(), len(m.back))
	for k, l := range m.back {
		c.Check(cm.NumToCat(k) == l, "%s: code %d reads back as %q, want %q", what, k, cm.NumToCat(k), l)
	}
	for k, l := range m.back {
		c.Check(cm.CatToNum(l) == k, "%s: label %q has code %d, want %d", what, l, cm.CatToNum(l), k)
	}
	c.Check(cm.NCats() == len(m.back), "%s: looking labels up added categories", what)
}

func c03Table(c *vCase) {
	cm := &CatMap{Map: map[string]int{}, Back: []string{}}
	m := c03NewModel()
	n := c.Intn(60)
	for i := 0; i < n; i++ {
		l := c03Label(c)
		if c.Intn(15) == 0 {
			l = ""
		}
		c.Log("see", l)
		k := cm.CatToNum(l)
		c.Check(k == m.see(l), "label %q got code %d, want %d", l, k, m.see(l))
		if c.Intn(5) == 0 {
			m.check(c, cm, "table")
		}
	}
	m.check(c, cm, "table")
	if n == 0 {
		c.Trivial()
	}
}

func c03Missing(l string) bool {
	switch strings.ToLower(l) {
	case "", "?", "na", "nan", "null":
		return true
	}
	return false
}

func c03Feature(c *vCase) {
	type one struct {
		f *DenseCatFeature
		m *c03Model
		v []string // "" is missing
	}
	mk := &one{f: &DenseCatFeature{CatMap: &CatMap{Map: map[string]int{}, Back: []string{}}, Name: "f"}, m: c03NewModel()}
	all := []*one{mk}
	steps := 5 + c.Intn(50)
	check := func() {
		for q, o := range all {
			o.m.check(c, o.f.CatMap, fmt.Sprintf("feature %d", q))
			c.Check(o.f.Length() == len(o.v), "feature %d has %d cases, want %d", q, o.f.Length(), len(o.v))
			for i, l := range o.v {
				if l == "" {
					c.Check(o.f.IsMissing(i), "feature %d case %d should be missing", q, i)
					continue
				}
				c.Check(!o.f.IsMissing(i) && o.f.GetStr(i) == l && o.f.Geti(i) == o.m.code[l],
					"feature %d case %d reads back %q code %d, want %q code %d", q, i, o.f.GetStr(i), o.f.Geti(i), l, o.m.code[l])
			}
		}
	}
	for s := 0; s < steps; s++ {
		q := c.Intn(len(all))
		o := all[q]
		switch k := c.Intn(10); {
		case k < 4 || len(o.v) == 0:
			l := c03Label(c)
			if c.Intn(6) == 0 {
				l = []string{"", "?", "NA", "nan", "Null"}[c.Intn(5)]
			}
			c.Log("append", fmt.Sprint(q, " ", l))
			o.f.Append(l)
			if c03Missing(l) {
				o.v = append(o.v, "")
			} else {
				o.v = append(o.v, l)
				o.m.see(l)
			}
		case k < 8:
			l := c03Label(c)
			if c.Intn(6) == 0 {
				l = []string{"", "?", "NA", "nan", "Null"}[c.Intn(5)]
			}
			i := c.Intn(len(o.v))
			c.Log("put", fmt.Sprint(q, " ", i, " ", l))
			o.f.PutStr(i, l)
			if c03Missing(l) {
				o.v[i] = ""
			} else {
				o.v[i] = l
				o.m.see(l)
			}
		default:
			if len(all) < 4 {
				c.Log("copy of", q)
				m := c03NewModel()
				for _, l := range o.m.back {
					m.see(l)
				}
				var f Feature
				if c.Intn(4) == 0 {
					f = o.f.ShuffledCopy()
					v := make([]string, len(o.v))
					for i := range v {
						if !f.IsMissing(i) {
							v[i] = f.GetStr(i)
						}
					}
					all = append(all, &one{f: f.(*DenseCatFeature), m: m, v: v})
				} else {
					f = o.f.Copy()
					all = append(all, &one{f: f.(*DenseCatFeature), m: m, v: append([]string{}, o.v...)})
				}
			}
		}
		check()
	}
}

func c03Ballot(c *vCase) {
	n := 1 + c.Intn(5)
	bb := NewCatBallotBox(n)
	m := c03NewModel()
	for s := 0; s < 1+c.Intn(30); s++ {
		l := c03Label(c)
		i := c.Intn(n)
		c.Log("vote", fmt.Sprint(i, " ", l))
		bb.Vote(i, l, 1)
		m.see(l)
		if c.Intn(4) == 0 {
			bb.Tally(c.Intn(n))
		}
		m.check(c, bb.CatMap, "ballot box")
	}
}

func c03Strip(c *vCase) {
	n := 1 + c.Intn(12)
	nf := 1 + c.Intn(4)
	fm := &FeatureMatrix{Map: map[string]int{}}
	for i := 0; i < n; i++ {
		fm.CaseLabels = append(fm.CaseLabels, fmt.Sprintf("case %d", i))
	}
	codes := map[Feature][]int{}
	miss := map[Feature][]bool{}
	nums := map[Feature][]string{}
	for k := 0; k < nf; k++ {
		name := fmt.Sprintf("F%d", k)
		if c.Intn(3) == 0 {
			f := vNum(c, name, n, .2)
			fm.Data = append(fm.Data, f)
		} else {
			f := vCat(c, name, n, 1+c.Intn(14), .2)
			fm.Data = append(fm.Data, f)
		}
		f := fm.Data[k]
		fm.Map[name] = k
		c.Log("feature", vShow(f))
		for i := 0; i < n; i++ {
			miss[f] = append(miss[f], f.IsMissing(i))
			nums[f] = append(nums[f], f.GetStr(i))
			if cf, ok := f.(*DenseCatFeature); ok {
				codes[f] = append(codes[f], cf.Geti(i))
			}
		}
	}
	target := fmt.Sprintf("F%d", c.Intn(nf+1))
	c.Log("target", target)
	ncats := map[Feature]int{}
	was := map[Feature][]string{}
	for f := range miss {
		ncats[f] = f.NCats()
		if cf, ok := f.(*DenseCatFeature); ok {
			was[f] = append([]string{}, cf.Back...)
		}
	}
	fm.StripStrings(target)
	c.Check(len(fm.Data) == nf, "number of features changed")
	for _, f := range fm.Data {
		_, seen := miss[f]
		c.Check(seen, "a feature was replaced")
		cf, ok := f.(*DenseCatFeature)
		c.Check(f.NCats() == ncats[f], "number of categories changed")
		for i := 0; i < n; i++ {
			c.Check(f.IsMissing(i) == miss[f][i], "missing flag of case %d changed", i)
			if !ok {
				c.Check(f.GetStr(i) == nums[f][i], "numerical value changed")
				continue
			}
			if miss[f][i] {
				continue
			}
			k := codes[f][i]
			c.Check(cf.Geti(i) == k, "code of case %d changed from %d to %d", i, k, cf.Geti(i))
			c.Check(cf.GetStr(i) == cf.NumToCat(k), "case %d does not read back its label", i)
		}
		if ok {
			for k := 0; k < ncats[f]; k++ {
				l := cf.NumToCat(k)
				c.Check(cf.CatToNum(l) == k, "anonymous label %q stands for code %d, should be %d", l, cf.CatToNum(l), k)
			}
			c.Check(cf.NCats() == ncats[f], "looking the anonymous labels up added a category")
			if nc := cf.NCats(); nc > 0 {
				cf.PutStr(0, "brand new")
				c.Check(cf.Geti(0) == nc && cf.GetStr(0) == "brand new", "a new label got code %d, want %d", cf.Geti(0), nc)
				for _, l := range was[f] {
					cf.PutStr(0, l)
					c.Check(cf.GetStr(0) == l, "the former label %q was written, it reads back %q", l, cf.GetStr(0))
				}
			}
		}
	}
}
