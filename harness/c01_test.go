package CloudForest

import (
	"math/big"
)

func init() {
	vRegister("split", 6000, c01Split)
}

func c01Feature(c *vCase, n int) (Feature, interface{}, func(i int) bool) {
	pm := []float64{0, 0.2, 0.6}[c.Intn(3)]
	if c.Intn(2) == 0 {
		f := vNum(c, "f", n, pm)
		t := float64(c.Intn(20)-4) / 2
		if n > 0 && c.Intn(2) == 0 {
			t = f.NumData[c.Intn(n)]
		}
		c.Log("threshold", t)
		return f, t, func(i int) bool { return f.Get(i) <= t }
	}
	k := []int{1, 2, 3, 7, 29, 31, 40, 61}[c.Intn(8)]
	f := vCat(c, "f", n, k, pm)
	left := map[int]bool{}
	if c.Intn(2) == 0 || k > 30 {
		b := big.NewInt(0)
		for j := 0; j < f.NCats(); j++ {
			if c.Intn(2) == 0 {
				b.SetBit(b, j, 1)
				left[j] = true
			}
		}
		c.Log("split (big)", b)
		return f, b, func(i int) bool { return left[f.Geti(i)] }
	}
	code := 0
	for j := 0; j < f.NCats(); j++ {
		if c.Intn(2) == 0 {
			code |= 1 << uint(j)
			left[j] = true
		}
	}
	c.Log("split (int)", code)
	return f, code, func(i int) bool { return left[f.Geti(i)] }
}

func c01Check(c *vCase, what string, f Feature, orig, now []int, lp, rp int, left func(int) bool) {
	c.Check(lp >= 0 && lp <= rp && rp <= len(now), "%s: split points %d %d of %d", what, lp, rp, len(now))
	c.Check(vSameBag(orig, now), "%s: cases changed from %v to %v", what, orig, now)
	for k, i := range now {
		switch {
		case k < lp:
			c.Check(!f.IsMissing(i) && left(i), "%s: case %d in the left part does not belong there", what, i)
		case k >= rp:
			c.Check(!f.IsMissing(i) && !left(i), "%s: case %d in the right part does not belong there", what, i)
		default:
			c.Check(f.IsMissing(i), "%s: case %d in the missing part is not missing", what, i)
		}
	}
}

func c01Split(c *vCase) {
	n := 1 + c.Intn(12)
	if c.Intn(10) == 0 {
		n = 1 + c.Intn(80)
	}
	f, coded, left := c01Feature(c, n)
	cases := vCases(c, n)
	c.Log("feature", vShow(f))
	c.Log("cases", cases)
	snap := vSnap(f)
	fm := &FeatureMatrix{Data: []Feature{f}, Map: map[string]int{"f": 0}}

	pieces := func(what string, do func(cs []int) (l, r, m []int)) {
		cs := append([]int{-7}, cases...)
		cs = append(cs, -8)
		win := cs[1 : 1+len(cases) : 1+len(cases)]
		l, r, m := do(win)
		c.Check(cs[0] == -7 && cs[len(cs)-1] == -8, "%s: wrote outside the list", what)
		c.Check(len(l)+len(m)+len(r) == len(win), "%s: pieces of %d %d %d for %d cases", what, len(l), len(m), len(r), len(win))
		c01Check(c, what, f, cases, win, len(l), len(l)+len(m), left)
		c.Check(vSameInts(l, win[:len(l)]) && vSameInts(m, win[len(l):len(l)+len(m)]) && vSameInts(r, win[len(l)+len(m):]), "%s: returned pieces %v %v %v are not stretches of %v", what, l, m, r, win)
		// pieces are the stretches themselves, not copies
		for k := range l {
			c.Check(&l[k] == &win[k], "%s: left piece is a copy", what)
		}
		for k := range m {
			c.Check(&m[k] == &win[len(l)+k], "%s: missing piece is a copy", what)
		}
		for k := range r {
			c.Check(&r[k] == &win[len(l)+len(m)+k], "%s: right piece is a copy", what)
		}
		c.Check(vSnap(f) == snap, "%s: the feature changed", what)
	}
	pieces("Split", func(cs []int) (l, r, m []int) { return f.Split(coded, cs) })
	cs := append([]int{}, cases...)
	lp, rp := f.SplitPoints(coded, &cs)
	c.Check(len(cs) == len(cases), "SplitPoints: length changed")
	c01Check(c, "SplitPoints", f, cases, cs, lp, rp, left)
	dec := f.DecodeSplit(coded)
	c.Check(dec.Feature == "f", "DecodeSplit: feature %q", dec.Feature)
	pieces("Splitter.Split", func(cs []int) (l, r, m []int) { return dec.Split(fm, cs) })
	for i := 0; i < n; i++ {
		if !f.IsMissing(i) {
			c.Check(f.GoesLeft(i, dec) == left(i), "GoesLeft: case %d goes left: %v, want %v", i, f.GoesLeft(i, dec), left(i))
		}
	}
	c.Check(vSnap(f) == snap, "the feature changed")
}
