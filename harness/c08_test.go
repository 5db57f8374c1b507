package CloudForest

import (
	"math"
	"sort"
	"strconv"
)

func init() {
	vRegister("best threshold", 5000, c08Best)
}

// c08Target makes one of the impurity targets over n cases.
func c08Target(c *vCase, n int) (string, Target, Target) {
	names := []string{"gini", "num", "entropy", "dentropy", "regret", "weighted", "adaboost", "adacost", "l1", "ordinal", "numadaboost", "gradboost"}
	which := names[c.Intn(len(names))]
	cf := vCat(c, "t", n, 1+c.Intn(4), 0)
	nf := vNum(c, "t", n, 0)
	w := map[string]float64{}
	for i := 0; i < cf.NCats(); i++ {
		w[cf.NumToCat(i)] = .25 + float64(c.Intn(12))/4
	}
	c.Log("target", which)
	c.Log("cat", vShow(cf))
	c.Log("num", vShow(nf))
	c.Log("costs", w)
	switch which {
	case "num":
		return which, nf, nf
	case "entropy":
		return which, NewEntropyTarget(cf), cf
	case "dentropy":
		x := NewDEntropyTarget(cf)
		x.SetCosts(w)
		return which, x, cf
	case "regret":
		x := NewRegretTarget(cf)
		x.SetCosts(w)
		return which, x, cf
	case "weighted":
		return which, NewWRFTarget(cf, w), cf
	case "adaboost":
		return which, NewAdaBoostTarget(cf), cf
	case "adacost":
		x := NewAdaCostTarget(cf)
		x.SetCosts(w)
		return which, x, cf
	case "l1":
		return which, &L1Target{nf}, nf
	case "ordinal":
		f := &DenseNumFeature{Name: "t"}
		k := 1 + c.Intn(4)
		for i := 0; i < n; i++ {
			f.Append(strconv.Itoa(c.Intn(k)))
		}
		c.Log("ints", vShow(f))
		return which, NewOrdinalTarget(f), f
	case "numadaboost":
		return which, NewNumAdaBoostTarget(nf), nf
	case "gradboost":
		return which, NewGradBoostTarget(nf, .1), nf
	}
	return which, cf, cf
}

func c08Best(c *vCase) {
	n := 2 + c.Intn(30)
	_, t, base := c08Target(c, n)
	allocs := NewBestSplitAllocs(n, base)
	rounds := 1 + c.Intn(3)
	for r := 0; r < rounds; r++ {
		pm := 0.0
		if c.Intn(3) == 0 {
			pm = .3
		}
		f := vNum(c, "f", n, pm)
		c.Log("feature", vShow(f))
		cases := vKnown(f, vCases(c, n))
		if len(cases) > n {
			cases = cases[:n]
		}
		leaf := 1 + c.Intn(4)
		random := c.Intn(4) == 0
		if len(cases) < 2 {
			c.Trivial()
			return
		}
		c.Log("cases", append([]int{}, cases...))
		c.Log("leaf size", leaf)
		c.Log("random", random)
		c08Round(c, t, base, f, cases, leaf, random, allocs)
	}
}

func c08Round(c *vCase, t, base Target, f *DenseNumFeature, cases []int, leaf int, random bool, allocs *BestSplitAllocs) {
	n := f.Length()
	cp := append([]int{}, cases...)
	parent := t.Impurity(&cp, NewBestSplitAllocs(n, base).Counter)
	if parent < 0 {
		c.Trivial()
		return
	}
	snap := vSnap(f)
	before := append([]int{}, cases...)
	tol := 1e-9 * math.Max(1, parent)
	dec := func(l, r []int) float64 {
		l, r = append([]int{}, l...), append([]int{}, r...)
		return parent - t.SplitImpurity(&l, &r, nil, NewBestSplitAllocs(n, base))
	}
	coded, got, _ := f.BestSplit(t, &cases, parent, leaf, random, allocs)
	c.Check(vSameBag(before, cases), "the cases were changed: %v -> %v", before, cases)
	c.Check(vSnap(f) == snap, "the feature was changed")
	s := append([]int{}, before...)
	sort.SliceStable(s, func(i, j int) bool { return f.Get(s[i]) < f.Get(s[j]) })
	c.Check(got >= minImp-1e-12 || len(cases) == 0, "reported decrease %v is below the minimum", got)
	if got > minImp {
		th, ok := coded.(float64)
		if !ok {
			c.Fail("a decrease of %v is reported with split %v", got, coded)
			return
		}
		var l, r []int
		for _, i := range s {
			v := f.Get(i)
			c.Check(v != th, "threshold %v is not strictly between values", th)
			if v <= th {
				l = append(l, i)
			} else {
				r = append(r, i)
			}
		}
		if len(l) < leaf || len(r) < leaf {
			c.Fail("threshold %v leaves %d and %d cases with leaf size %d", th, len(l), len(r), leaf)
			return
		}
		d := dec(l, r)
		c.Check(math.Abs(d-got) <= tol || vClose(d, got), "threshold %v reports decrease %v but achieves %v", th, got, d)
	}
	if random {
		return
	}
	for i := leaf; i <= len(s)-leaf; i++ {
		if f.Get(s[i])-f.Get(s[i-1]) <= 2e-7 {
			continue
		}
		d := dec(s[:i], s[i:])
		c.Check(d <= math.Max(got, minImp)+1e-7*math.Max(1, math.Abs(d)), "a threshold between %v and %v decreases the impurity by %v, reported best %v (split %v)", f.Get(s[i-1]), f.Get(s[i]), d, got, coded)
	}
}
