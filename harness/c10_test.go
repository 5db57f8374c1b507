package CloudForest

import "fmt"

func init() {
	vRegister("best of the candidate features", 2500, c10Best)
}

func c10Best(c *vCase) {
	n := 2 + c.Intn(14)
	nf := 1 + c.Intn(6)
	fm := &FeatureMatrix{Data: nil, Map: map[string]int{}}
	for k := 0; k < nf; k++ {
		var f Feature
		name := fmt.Sprintf("f%d", k)
		pm := 0.0
		if c.Intn(3) == 0 {
			pm = 0.25
		}
		switch c.Intn(5) {
		case 0:
			cf := &DenseNumFeature{Name: name}
			for i := 0; i < n; i++ {
				cf.Append("3")
			}
			f = cf
		case 1, 2:
			f = vNum(c, name, n, pm)
		default:
			f = vCat(c, name, n, 1+c.Intn(4), pm)
		}
		fm.Map[name] = k
		fm.Data = append(fm.Data, f)
	}
	var target Target
	switch c.Intn(3) {
	case 0:
		target = vCat(c, "target", n, 2+c.Intn(2), 0)
	case 1:
		target = NewEntropyTarget(vCat(c, "target", n, 2+c.Intn(2), 0))
	default:
		target = vNum(c, "target", n, 0)
	}
	cases := vCases(c, n)
	if len(cases) == 0 {
		cases = []int{c.Intn(n)}
	}
	cands := c.Perm(nf)[:1+c.Intn(nf)]
	leaf := 1 + c.Intn(2)
	before := 0
	// known constants: put at the tail like a parent node would have
	if c.Intn(3) == 0 {
		before = c.Intn(len(cands) + 1)
	}
	mTry := 1 + c.Intn(len(cands))
	if c.Intn(2) == 0 {
		mTry = len(cands)
	}
	force := c.Intn(3) == 0
	for _, f := range fm.Data {
		c.Log("feature", vShow(f))
	}
	c.Log("target", vShow(target.(Feature)))
	c.Log("cases", append([]int{}, cases...))
	c.Log("candidates, mTry, leafSize, force, known constants", fmt.Sprint(cands, mTry, leaf, force, before))

	// what each candidate reports on its own
	al := NewBestSplitAllocs(len(cases)+n, target)
	cp := append([]int{}, cases...)
	parent := target.Impurity(&cp, al.Counter)
	rep := map[int]float64{}
	con := map[int]bool{}
	for _, i := range cands {
		cp = append([]int{}, cases...)
		_, rep[i], con[i] = fm.Data[i].BestSplit(target, &cp, parent, leaf, false, al)
	}
	work := append([]int{}, cases...)
	cw := append([]int{}, cands...)
	fi, split, imp, nc := fm.BestSplitter(target, &work, &cw, mTry, nil, leaf, force, false, false, false, NewBestSplitAllocs(len(cases)+n, target), before)
	c.Check(vSameBag(work, cases), "the cases %v became %v", cases, work)
	c.Check(vSameBag(cw, cands), "the candidates %v became %v", cands, cw)
	if nc < before || nc > len(cands) {
		c.Fail("%d constants after the search, %d before, %d candidates", nc, before, len(cands))
		return
	}
	for k := len(cw) - before; k < len(cw); k++ {
		c.Check(cw[k] == cands[k], "known constant at %d moved: %v became %v", k, cands, cw)
	}
	for k := len(cw) - nc; k < len(cw)-before; k++ {
		c.Check(con[cw[k]], "feature %d was moved to the constants of %v (%d of them) but is not constant", cw[k], cw, nc)
	}
	if parent >= 0 && parent <= minImp {
		c.Trivial()
		c.Check(split == nil, "a pure node was split")
		return
	}
	all := 0.0
	for k, i := range cands {
		if k < len(cands)-before && rep[i] > all {
			all = rep[i]
		}
	}
	if imp <= minImp {
		c.Check(split == nil, "no improvement (%v) but a split %v is returned", imp, split)
	} else {
		r, ok := rep[fi]
		if !ok {
			c.Fail("feature %d is not a candidate of %v", fi, cands)
			return
		}
		c.Check(vClose(r, imp), "feature %d reports a decrease of %v on its own, the search returned %v", fi, r, imp)
		cp = append([]int{}, cases...)
		l, rr, m := fm.Data[fi].Split(split, cp)
		d := parent - target.SplitImpurity(&l, &rr, &m, al)
		c.Check(vClose(d, imp), "the returned split %v of feature %d decreases impurity by %v, not %v", split, fi, d, imp)
	}
	if mTry == len(cands) && nc <= len(cands) {
		c.Check(vClose(imp, all) || all <= minImp*1.01 && imp <= minImp*1.01, "the best candidate reports %v, the search returned %v: %v", all, imp, rep)
	} else {
		c.Check(imp <= all+1e-9 || imp <= minImp, "the search returned %v, more than any candidate reports: %v", imp, rep)
	}
}
