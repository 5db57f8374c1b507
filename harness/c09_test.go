package CloudForest

import (
	"fmt"
	"math/big"
)

func init() {
	vRegister("categorical searches", 4000, c09)
	vRegister("searches over many categories", 250, c09Many)
}

type c09Env struct {
	f      *DenseCatFeature
	target Target
	cases  []int
	pi     float64
	n      int
}

// dec evaluates a set of categories: what it gains and whether both sides keep the leaf size.
func (e *c09Env) dec(in func(k int) bool, leafSize int) (float64, bool) {
	var l, r []int
	for _, i := range e.cases {
		if in(e.f.Geti(i)) {
			l = append(l, i)
		} else {
			r = append(r, i)
		}
	}
	if len(l) < leafSize || len(r) < leafSize {
		return 0, false
	}
	return e.pi - e.target.SplitImpurity(&l, &r, nil, NewBestSplitAllocs(e.n, e.target)), true
}

func c09Target(c *vCase, n int) (Feature, Target) {
	switch c.Intn(5) {
	case 0:
		d := vNum(c, "T", n, 0)
		return d, d
	case 1:
		d := vNum(c, "T", n, 0)
		return d, &L1Target{d}
	case 2:
		d := vCat(c, "T", n, 2+c.Intn(3), 0)
		return d, NewEntropyTarget(d)
	}
	d := vCat(c, "T", n, 1+c.Intn(4), 0)
	return d, d
}

func c09Setup(c *vCase, n, k int, pm float64) *c09Env {
	f := vCat(c, "F", n, k, pm)
	tf, target := c09Target(c, n)
	e := &c09Env{f: f, target: target, n: n}
	for len(e.cases) == 0 {
		e.cases = vKnown(f, vCases(c, n))
		if len(vKnown(f, c.Perm(n))) == 0 {
			break
		}
	}
	c.Log("feature", vShow(f))
	c.Log("target", fmt.Sprintf("%T %s", target, vShow(tf)))
	c.Log("cases", e.cases)
	if len(e.cases) > 0 {
		cs := append([]int{}, e.cases...)
		e.pi = target.Impurity(&cs, NewBestSplitAllocs(n, target).Counter)
	}
	return e
}

// honest checks a search's answer and that it only reordered the cases.
func (e *c09Env) honest(c *vCase, what string, cs []int, bit func(k int) bool, got float64, leafSize int) {
	c.Check(vSameBag(cs, e.cases), "%s turned the cases %v into %v", what, e.cases, cs)
	if got > minImp {
		d, ok := e.dec(bit, leafSize)
		c.Check(ok, "%s returned a set that leaves fewer than %d cases on a side", what, leafSize)
		c.Check(vClose(d, got), "%s reports a decrease of %v, its set achieves %v", what, got, d)
	}
}

func (e *c09Env) exhaustive(c *vCase, what string, got float64, leafSize int) {
	for s := 0; s < 1<<uint(e.f.NCats()); s++ {
		d, ok := e.dec(func(k int) bool { return s>>uint(k)&1 == 1 }, leafSize)
		if ok && d > minImp && d > got && !vClose(d, got) {
			c.Fail("%s reports a decrease of %v, the set %b achieves %v", what, got, s, d)
		}
	}
}

func (e *c09Env) greedy(c *vCase, what string, bit func(k int) bool, got float64, leafSize int) {
	for i := 0; i < e.f.NCats(); i++ {
		if got > minImp && bit(i) {
			continue
		}
		d, ok := e.dec(func(k int) bool { return k == i || got > minImp && bit(k) }, leafSize)
		if ok && d > minImp && d > got && !vClose(d, got) {
			c.Fail("%s stopped at a decrease of %v, adding category %d achieves %v", what, got, i, d)
		}
	}
}

func c09(c *vCase) {
	n := 2 + c.Intn(24)
	e := c09Setup(c, n, []int{1, 2, 2, 3, 4, 5, 7}[c.Intn(7)], []float64{0, 0.3}[c.Intn(2)])
	if len(e.cases) == 0 {
		c.Trivial()
		return
	}
	leafSize := 1 + c.Intn(3)
	c.Log("leafSize", leafSize)
	k := e.f.NCats()
	fresh := func() ([]int, *BestSplitAllocs) { return append([]int{}, e.cases...), NewBestSplitAllocs(n, e.target) }
	ibit := func(s int) func(int) bool { return func(k int) bool { return s>>uint(k)&1 == 1 } }
	bbit := func(s *big.Int) func(int) bool { return func(k int) bool { return s.Bit(k) == 1 } }

	cs, a := fresh()
	s, d, _ := e.f.BestCatSplit(e.target, &cs, e.pi, 10, leafSize, a)
	e.honest(c, "BestCatSplit", cs, ibit(s), d, leafSize)
	e.exhaustive(c, "BestCatSplit", d, leafSize)

	cs, a = fresh()
	s, d, _ = e.f.BestCatSplitIter(e.target, &cs, e.pi, leafSize, a)
	e.honest(c, "BestCatSplitIter", cs, ibit(s), d, leafSize)
	e.greedy(c, "BestCatSplitIter", ibit(s), d, leafSize)

	cs, a = fresh()
	b, d, _ := e.f.BestCatSplitIterBig(e.target, &cs, e.pi, leafSize, a)
	e.honest(c, "BestCatSplitIterBig", cs, bbit(b), d, leafSize)
	e.greedy(c, "BestCatSplitIterBig", bbit(b), d, leafSize)

	if k > 1 {
		cs, a = fresh()
		b, d, _ = e.f.BestCatSplitBig(e.target, &cs, e.pi, 10, leafSize, a)
		e.honest(c, "BestCatSplitBig", cs, bbit(b), d, leafSize)
		e.exhaustive(c, "BestCatSplitBig", d, leafSize)
	}

	if k > 2 {
		// more categories than may be enumerated: random sets
		cs, a = fresh()
		s, d, _ = e.f.BestCatSplit(e.target, &cs, e.pi, 2, leafSize, a)
		e.honest(c, "random BestCatSplit", cs, ibit(s), d, leafSize)
		cs, a = fresh()
		b, d, _ = e.f.BestCatSplitBig(e.target, &cs, e.pi, 2, leafSize, a)
		e.honest(c, "random BestCatSplitBig", cs, bbit(b), d, leafSize)
	}
	if k == 2 {
		cs, a = fresh()
		s, d, constant := e.f.BestBinSplit(e.target, &cs, e.pi, 10, leafSize, a)
		e.honest(c, "BestBinSplit", cs, ibit(s), d, leafSize)
		want, ok := e.dec(ibit(1), leafSize)
		c.Check(constant == !ok, "BestBinSplit reports constant %v, a split with the leaf size exists: %v", constant, ok)
		if ok {
			c.Check(vClose(want, d), "BestBinSplit reports %v, its split achieves %v", d, want)
		}
	}
	e.f.RandomSearch = c.Intn(2) == 0
	e.best(c, leafSize)
}

// best checks the entry point, which chooses one of the searches.
func (e *c09Env) best(c *vCase, leafSize int) {
	cs := append([]int{}, e.cases...)
	split, d, constant := e.f.BestSplit(e.target, &cs, e.pi, leafSize, c.Intn(2) == 0, NewBestSplitAllocs(e.n, e.target))
	bit := func(k int) bool { return false }
	switch s := split.(type) {
	case int:
		bit = func(k int) bool { return s>>uint(k)&1 == 1 }
	case *big.Int:
		bit = func(k int) bool { return s.Bit(k) == 1 }
	}
	e.honest(c, "BestSplit", cs, bit, d, leafSize)
	if k := e.f.NCats(); k == 2 || e.f.RandomSearch && k <= 8 {
		e.exhaustive(c, "BestSplit", d, leafSize)
		if k == 2 {
			_, ok := e.dec(func(k int) bool { return k == 1 }, leafSize)
			c.Check(constant == !ok, "BestSplit reports constant %v, a split with the leaf size exists: %v", constant, ok)
		}
	} else if !e.f.RandomSearch && k > maxExhaustiveCats {
		e.greedy(c, "BestSplit", bit, d, leafSize)
	}
}

func c09Many(c *vCase) {
	n := 20 + c.Intn(60)
	e := c09Setup(c, n, []int{12, 28, 34, 45, 70}[c.Intn(5)], []float64{0, 0.2}[c.Intn(2)])
	if len(e.cases) == 0 {
		c.Trivial()
		return
	}
	leafSize := 1 + c.Intn(3)
	c.Log("leafSize", leafSize)
	bbit := func(s *big.Int) func(int) bool { return func(k int) bool { return s.Bit(k) == 1 } }
	cs, a := append([]int{}, e.cases...), NewBestSplitAllocs(n, e.target)
	b, d, _ := e.f.BestCatSplitIterBig(e.target, &cs, e.pi, leafSize, a)
	e.honest(c, "BestCatSplitIterBig", cs, bbit(b), d, leafSize)
	e.greedy(c, "BestCatSplitIterBig", bbit(b), d, leafSize)
	cs, a = append([]int{}, e.cases...), NewBestSplitAllocs(n, e.target)
	b, d, _ = e.f.BestCatSplitBig(e.target, &cs, e.pi, 6, leafSize, a)
	e.honest(c, "BestCatSplitBig", cs, bbit(b), d, leafSize)
	if e.f.NCats() <= 30 {
		cs, a = append([]int{}, e.cases...), NewBestSplitAllocs(n, e.target)
		s, d, _ := e.f.BestCatSplitIter(e.target, &cs, e.pi, leafSize, a)
		ibit := func(k int) bool { return s>>uint(k)&1 == 1 }
		e.honest(c, "BestCatSplitIter", cs, ibit, d, leafSize)
		e.greedy(c, "BestCatSplitIter", ibit, d, leafSize)
	}
	e.best(c, leafSize)
}
