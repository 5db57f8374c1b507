package CloudForest

import (
	"math"
)

func init() {
	vRegister("categorical", 4000, c06Cat)
	vRegister("numerical", 3000, c06Num)
}

func c06Counts(f *DenseCatFeature, cases []int) []float64 {
	r := make([]float64, f.NCats())
	for _, i := range cases {
		r[f.Geti(i)]++
	}
	return r
}

// c06Some draws a non-empty list of cases.
func c06Some(c *vCase, n int) []int {
	for {
		if r := vCases(c, n); len(r) > 0 {
			return r
		}
	}
}

// c06Split checks that the impurity of a split is the average of the parts.
func c06Split(c *vCase, t Target, def func([]int) float64, n int, allocs *BestSplitAllocs) {
	l, r, m := c06Some(c, n), c06Some(c, n), c06Some(c, n)
	tot := float64(len(l) + len(r))
	want := float64(len(l))*def(l) + float64(len(r))*def(r)
	var mp *[]int
	switch c.Intn(3) {
	case 0:
		mp = &[]int{}
	case 1:
		mp = &m
		want += float64(len(m)) * def(m)
		tot += float64(len(m))
	}
	want /= tot
	c.Log("left", l)
	c.Log("right", r)
	c.Log("missing", mp != nil && len(*mp) > 0)
	c.Log("m", m)
	l2, r2, m2 := append([]int{}, l...), append([]int{}, r...), append([]int{}, m...)
	got := t.SplitImpurity(&l, &r, mp, allocs)
	c.Check(vClose(got, want), "split impurity %v, the weighted average of the parts is %v", got, want)
	c.Check(vSameInts(l, l2) && vSameInts(r, r2) && vSameInts(m, m2), "the cases were changed")
}

func c06Cat(c *vCase) {
	n := 1 + c.Intn(25)
	f := vCat(c, "f", n, 1+c.Intn(5), 0)
	c.Log("feature", vShow(f))
	k := f.NCats()
	w := make([]float64, k)
	wm := map[string]float64{}
	for i := range w {
		w[i] = float64(c.Intn(12)) / 4
		if w[i] == 0 && c.Intn(2) == 0 {
			w[i] = .125
		}
		wm[f.NumToCat(i)] = w[i]
	}
	cases := c06Some(c, n)
	cnt := func(s []int) []float64 { return c06Counts(f, s) }
	gini := func(s []int) float64 {
		g := 1.0
		for _, v := range cnt(s) {
			p := v / float64(len(s))
			g -= p * p
		}
		return g
	}
	var t Target
	var def func([]int) float64
	which := c.Intn(5)
	switch which {
	case 0:
		t, def = f, gini
		c.Check(vClose(f.Gini(&cases), gini(cases)), "Gini reports %v, definition gives %v for cases %v", f.Gini(&cases), gini(cases), cases)
		cr := make([]int, k)
		for i := range cr {
			cr[i] = c.Intn(9)
		}
		g := f.GiniWithoutAlocate(&cases, &cr)
		c.Check(vClose(g, gini(cases)), "GiniWithoutAlocate reports %v, definition gives %v for cases %v", g, gini(cases), cases)
	case 1:
		t = NewEntropyTarget(f)
		def = func(s []int) float64 {
			e := 0.0
			for _, v := range cnt(s) {
				if v > 0 {
					p := v / float64(len(s))
					e -= p * math.Log(p)
				}
			}
			return e
		}
	case 2:
		dt := NewDEntropyTarget(f)
		dt.SetCosts(wm)
		t = dt
		def = func(s []int) float64 {
			e := 0.0
			for i, v := range cnt(s) {
				if v > 0 {
					p := v / float64(len(s))
					e -= w[i] * p * math.Log(p)
				}
			}
			return e
		}
	case 3:
		rt := NewRegretTarget(f)
		rt.SetCosts(wm)
		t = rt
		def = func(s []int) float64 {
			tot, max := 0.0, 0.0
			for i, v := range cnt(s) {
				tot += v * w[i]
				max = math.Max(max, v*w[i])
			}
			return (tot - max) / float64(len(s))
		}
	case 4:
		for i := range w {
			w[i] += .25
			wm[f.NumToCat(i)] = w[i]
		}
		t = NewWRFTarget(f, wm)
		def = func(s []int) float64 {
			tot, sq := 0.0, 0.0
			for i, v := range cnt(s) {
				tot += v * w[i]
				sq += v * w[i] * v * w[i]
			}
			return 1 - sq/(tot*tot)
		}
	}
	c.Log("target", []string{"gini", "entropy", "dentropy", "regret", "weighted"}[which])
	c.Log("weights", w)
	c.Log("cases", cases)
	if k < 2 {
		c.Trivial()
	}
	snap := vSnap(f)
	allocs := NewBestSplitAllocs(n, f)
	for i := range *allocs.LCounter {
		(*allocs.LCounter)[i], (*allocs.RCounter)[i], (*allocs.Counter)[i] = c.Intn(5), c.Intn(5), c.Intn(5)
	}
	before := append([]int{}, cases...)
	got := t.Impurity(&cases, allocs.Counter)
	c.Check(vClose(got, def(cases)), "impurity %v, definition gives %v", got, def(cases))
	c.Check(vSameInts(cases, before), "the cases were changed: %v -> %v", before, cases)
	c06Split(c, t, def, n, allocs)
	c.Check(vSnap(f) == snap, "the data was changed: %s -> %s", snap, vSnap(f))
}

func c06Num(c *vCase) {
	n := 1 + c.Intn(25)
	f := vNum(c, "f", n, 0)
	c.Log("feature", vShow(f))
	cases := c06Some(c, n)
	c.Log("cases", cases)
	mean := func(s []int) float64 {
		m := 0.0
		for _, i := range s {
			m += f.Get(i)
		}
		return m / float64(len(s))
	}
	var t Target = f
	def := func(s []int) float64 {
		m, e := mean(s), 0.0
		for _, i := range s {
			e += (f.Get(i) - m) * (f.Get(i) - m)
		}
		return e
	}
	if c.Intn(2) == 0 {
		c.Log("target", "l1")
		t = &L1Target{f}
		def = func(s []int) float64 {
			m, e := mean(s), 0.0
			for _, i := range s {
				e += math.Abs(f.Get(i) - m)
			}
			return e / float64(len(s))
		}
	}
	snap := vSnap(f)
	allocs := NewBestSplitAllocs(n, f)
	before := append([]int{}, cases...)
	got := t.Impurity(&cases, allocs.Counter)
	c.Check(vClose(got, def(cases)), "impurity %v, definition gives %v", got, def(cases))
	c.Check(vSameInts(cases, before), "the cases were changed: %v -> %v", before, cases)
	c06Split(c, t, def, n, allocs)
	c.Check(vSnap(f) == snap, "the data was changed: %s -> %s", snap, vSnap(f))
}
