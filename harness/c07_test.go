package CloudForest

import "strconv"

func init() {
	vRegister("moves", 6000, c07Moves)
}

// c07Ints makes a numerical feature of small non-negative integers.
func c07Ints(c *vCase, n int) *DenseNumFeature {
	f := &DenseNumFeature{Name: "t"}
	k := 1 + c.Intn(5)
	for i := 0; i < n; i++ {
		f.Append(strconv.Itoa(c.Intn(k)))
	}
	return f
}

func c07Moves(c *vCase) {
	n := 4 + c.Intn(25)
	names := []string{"gini", "num", "entropy", "dentropy", "regret", "weighted", "np", "adaboost", "adacost", "hellinger", "l1", "ordinal", "numadaboost", "gradboost", "gradboostclass", "density", "trans"}
	which := names[c.Intn(len(names))]
	k := 1 + c.Intn(5)
	if which == "hellinger" || which == "gradboostclass" {
		k = 2
	}
	cf := vCat(c, "f", n, k, 0)
	nf := vNum(c, "f", n, 0)
	of := c07Ints(c, n)
	if (which == "hellinger" || which == "gradboostclass") && cf.NCats() < 2 {
		c.Trivial()
		return
	}
	w := map[string]float64{}
	for i := 0; i < cf.NCats(); i++ {
		w[cf.NumToCat(i)] = .25 + float64(c.Intn(12))/4
	}
	feats := []Feature{vCat(c, "a", n, 3, 0), vNum(c, "b", n, 0)}
	var t Target
	var base Target = cf
	var abw []float64
	switch which {
	case "gini":
		t = cf
	case "num":
		t, base = nf, nf
	case "entropy":
		t = NewEntropyTarget(cf)
	case "dentropy":
		x := NewDEntropyTarget(cf)
		x.SetCosts(w)
		t = x
	case "regret":
		x := NewRegretTarget(cf)
		x.SetCosts(w)
		t = x
	case "weighted":
		t = NewWRFTarget(cf, w)
	case "np":
		t = NewNPTarget(cf, cf.NumToCat(c.Intn(cf.NCats())), .1+.8*c.Float64(), 1+4*c.Float64())
	case "adaboost":
		x := NewAdaBoostTarget(cf)
		abw, t = x.Weights, x
	case "adacost":
		x := NewAdaCostTarget(cf)
		x.SetCosts(w)
		abw, t = x.Weights, x
	case "hellinger":
		t = NewHDistanceTarget(cf, cf.NumToCat(1))
	case "l1":
		t, base = &L1Target{nf}, nf
	case "ordinal":
		t, base = NewOrdinalTarget(of), of
	case "numadaboost":
		x := NewNumAdaBoostTarget(nf)
		abw, t, base = x.Weights, x, nf
	case "gradboost":
		t, base = NewGradBoostTarget(nf, .1), nf
	case "gradboostclass":
		t, base = NewGradBoostClassTarget(cf, .1, cf.NumToCat(1)), nf
	case "density":
		t = &DensityTarget{&feats, n}
		base = nf
	case "trans":
		t = NewTransTarget(cf, &feats, cf.NumToCat(0), []float64{0, .5, 3}[c.Intn(3)], 1, n)
	}
	for i := range abw {
		abw[i] = float64(1+c.Intn(16)) / 16
	}
	c.Log("target", which)
	c.Log("cat", vShow(cf))
	c.Log("num", vShow(nf))
	c.Log("ints", vShow(of))
	c.Log("costs", w)
	c.Log("case weights", abw)
	c.Log("features", vShow(feats[0])+" "+vShow(feats[1]))

	all := c.Perm(n)
	nm := 0
	if c.Intn(2) == 0 {
		nm = c.Intn(n / 2)
	}
	m := all[:nm:nm]
	cases := all[nm:]
	if which == "hellinger" {
		// both classes are needed on the two sides together
		seen := map[string]bool{}
		for _, i := range cases {
			seen[cf.GetStr(i)] = true
		}
		if len(seen) < 2 {
			c.Trivial()
			return
		}
	}
	var mp *[]int
	if nm > 0 || c.Intn(2) == 0 {
		mp = &m
	}
	c.Log("missing", m)
	c.Log("order", append([]int{}, cases...))
	want := append([]int{}, all...)
	snap := vSnap(cf) + vSnap(nf) + vSnap(of) + vSnap(feats[0]) + vSnap(feats[1])

	allocs := NewBestSplitAllocs(n, base)
	at := 1
	if len(cases) > 4 && c.Intn(3) == 0 {
		at = 1 + c.Intn(3)
	}
	l, r := cases[:at], cases[at:]
	t.SplitImpurity(&l, &r, mp, allocs)
	steps := 0
	for at < len(cases)-1 {
		step := 1 + c.Intn(3)
		if at+step >= len(cases) {
			step = len(cases) - 1 - at
		}
		mv := cases[at : at+step]
		at += step
		l, r = cases[:at], cases[at:]
		got := t.UpdateSImpFromAllocs(&l, &r, mp, allocs, &mv)
		l2, r2 := append([]int{}, l...), append([]int{}, r...)
		fresh := t.SplitImpurity(&l2, &r2, mp, NewBestSplitAllocs(n, base))
		steps++
		c.Check(vClose(got, fresh), "after moving %v (step %d, left %v, right %v) the update gives %v, recomputing gives %v", mv, steps, l, r, got, fresh)
	}
	if steps == 0 {
		c.Trivial()
	}
	c.Check(vSameInts(all, want), "the cases were changed: %v -> %v", want, all)
	c.Check(vSnap(cf)+vSnap(nf)+vSnap(of)+vSnap(feats[0])+vSnap(feats[1]) == snap, "the data was changed")
}
