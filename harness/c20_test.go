package CloudForest

import "strconv"

func init() {
	vRegister("encode a matrix", 6000, c20Matrix)
}

func c20Flags(c *vCase, g, f Feature, what string) {
	c.Check(g.Length() == f.Length(), "%s: length %d instead of %d", what, g.Length(), f.Length())
	for i := 0; i < f.Length() && i < g.Length(); i++ {
		c.Check(g.IsMissing(i) == f.IsMissing(i), "%s: case %d missing %v instead of %v", what, i, g.IsMissing(i), f.IsMissing(i))
	}
	c.Check(g.MissingVals() == f.MissingVals(), "%s: MissingVals %v instead of %v", what, g.MissingVals(), f.MissingVals())
}

func c20Matrix(c *vCase) {
	n := c.Intn(12)
	fm := &FeatureMatrix{Map: map[string]int{}}
	for i := 0; i < n; i++ {
		fm.CaseLabels = append(fm.CaseLabels, "case"+strconv.Itoa(i))
	}
	nf := c.Intn(6)
	for k := 0; k < nf; k++ {
		var f Feature
		pm := 0.0
		if c.Intn(2) == 0 {
			pm = .3
		}
		if c.Intn(3) == 0 {
			f = vNum(c, "F"+strconv.Itoa(k), n, pm)
		} else {
			f = vCat(c, "F"+strconv.Itoa(k), n, 1+c.Intn(6), pm)
		}
		fm.Map[f.GetName()] = len(fm.Data)
		fm.Data = append(fm.Data, f)
		c.Log(f.GetName(), vShow(f))
	}
	if nf == 0 {
		c.Trivial()
	}
	before := ""
	for _, f := range fm.Data {
		before += f.GetName() + vShow(f) + "\n"
	}
	hot := c.Intn(2) == 0
	c.Log("onehot", hot)
	var out *FeatureMatrix
	if hot {
		out = fm.OneHot()
	} else {
		out = fm.EncodeToNum()
	}
	pos := 0
	take := func() Feature {
		if pos >= len(out.Data) {
			c.Fail("only %d features in the result", len(out.Data))
			return nil
		}
		f := out.Data[pos]
		pos++
		return f
	}
	for _, f := range fm.Data {
		cf, ok := f.(*DenseCatFeature)
		if !ok {
			g := take()
			if g == nil {
				return
			}
			c.Check(g.GetName() == f.GetName() && vShow(g) == vShow(f), "numerical feature %s became %s %s", f.GetName(), g.GetName(), vShow(g))
			continue
		}
		if cf.NCats() <= 2 {
			g := take()
			if g == nil {
				return
			}
			c.Check(g.GetName() == f.GetName(), "feature %s is now called %s", f.GetName(), g.GetName())
			c20Flags(c, g, f, g.GetName())
			for i := 0; i < f.Length() && i < g.Length(); i++ {
				if f.IsMissing(i) {
					continue
				}
				if hot {
					c.Check(g.GetStr(i) == f.GetStr(i), "%s case %d: %s instead of %s", g.GetName(), i, g.GetStr(i), f.GetStr(i))
				} else if gn, ok := g.(NumFeature); !ok {
					c.Fail("%s is not numerical", g.GetName())
				} else {
					c.Check(gn.Get(i) == float64(cf.Geti(i)), "%s case %d: %v instead of code %d", g.GetName(), i, gn.Get(i), cf.Geti(i))
				}
			}
			continue
		}
		for j := 0; j < cf.NCats(); j++ {
			g := take()
			if g == nil {
				return
			}
			want := f.GetName() + "==" + cf.NumToCat(j)
			c.Check(g.GetName() == want, "indicator %s is called %s", want, g.GetName())
			c20Flags(c, g, f, g.GetName())
			for i := 0; i < f.Length() && i < g.Length(); i++ {
				if f.IsMissing(i) {
					continue
				}
				is := f.GetStr(i) == cf.NumToCat(j)
				if hot {
					c.Check(g.GetStr(i) == strconv.FormatBool(is), "%s case %d: %s", g.GetName(), i, g.GetStr(i))
				} else if gn, ok := g.(NumFeature); !ok {
					c.Fail("%s is not numerical", g.GetName())
				} else {
					c.Check((gn.Get(i) == 1) == is && (gn.Get(i) == 0) == !is, "%s case %d: %v", g.GetName(), i, gn.Get(i))
				}
			}
		}
	}
	c.Check(pos == len(out.Data), "%d features in the result, %d expected", len(out.Data), pos)
	for i, g := range out.Data {
		k, ok := out.Map[g.GetName()]
		c.Check(ok && k == i, "feature %d (%s) is found at %d %v", i, g.GetName(), k, ok)
	}
	c.Check(len(out.CaseLabels) == len(fm.CaseLabels), "%d case labels", len(out.CaseLabels))
	// writing into an encoded feature does not reach the source
	for _, g := range out.Data {
		src := false
		for _, f := range fm.Data {
			src = src || f == g
		}
		if !src && n > 0 {
			i := c.Intn(n)
			g.PutMissing(i)
			if nf, ok := g.(NumFeature); ok {
				nf.Put(i, 99)
			} else {
				g.PutStr(i, "other")
			}
		}
	}
	after := ""
	for _, f := range fm.Data {
		after += f.GetName() + vShow(f) + "\n"
	}
	c.Check(before == after, "the source matrix changed from %s to %s", before, after)
}
