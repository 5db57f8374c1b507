package CloudForest

import (
	"fmt"
	"math"
)

func init() {
	vRegister("categorical boosting", 2500, c17Cat)
	vRegister("numerical boosting", 1500, c17Num)
	vRegister("gradient boosting", 1500, c17Grad)
	vRegister("two class gradient boosting", 1500, c17Class)
}

const c17min = 1e-7 // the smallest error a tree counts as having

func c17Leaves(c *vCase, cases []int) (leaves [][]int) {
	p := c.Perm(len(cases))
	k := 1 + c.Intn(4)
	leaves = make([][]int, k)
	for i, j := range p {
		l := c.Intn(k)
		if i < k {
			l = i
		}
		leaves[l] = append(leaves[l], cases[j])
	}
	for len(leaves) > 0 && len(leaves[len(leaves)-1]) == 0 {
		leaves = leaves[:len(leaves)-1]
	}
	return
}

func c17Near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }

func c17Cat(c *vCase) {
	n, k := 2+c.Intn(10), 1+c.Intn(3)
	f := vCat(c, "f", n, k, 0.2)
	known := []int{}
	for i := 0; i < n; i++ {
		if !f.IsMissing(i) {
			known = append(known, i)
		}
	}
	if len(known) == 0 {
		c.Trivial()
		return
	}
	var boost func(*[][]int, *[]string) float64
	var w []float64
	cost := map[string]float64{}
	for _, l := range f.Back {
		cost[l] = 1
	}
	if c.Intn(2) == 0 {
		t := NewAdaBoostTarget(f)
		boost, w = t.Boost, t.Weights
	} else {
		t := NewAdaCostTarget(f)
		for _, l := range f.Back {
			cost[l] = float64(1+c.Intn(6)) / 4
		}
		t.SetCosts(cost)
		boost, w = t.Boost, t.Weights
	}
	c.Log("feature", vShow(f))
	c.Log("costs", cost)
	c.Check(len(w) == n, "%d weights for %d cases", len(w), n)
	for i := range w {
		c.Check(c17Near(w[i], 1/float64(n)), "initial weight of case %d is %v", i, w[i])
	}
	for round := 0; round < 1+c.Intn(3); round++ {
		leaves := c17Leaves(c, known)
		c.Log(fmt.Sprintf("leaves %d", round), leaves)
		want := append([]float64{}, w...)
		wrong := make([]bool, n)
		e := 0.0
		in := make([]bool, n)
		for _, leaf := range leaves {
			cnt := map[string]int{}
			best, m, tie := 0, "", false
			for _, i := range leaf {
				cnt[f.GetStr(i)]++
			}
			for l, v := range cnt {
				if v == best {
					tie = true
				}
				if v > best {
					best, m, tie = v, l, false
				}
			}
			if tie {
				c.Trivial()
				return
			}
			for _, i := range leaf {
				in[i] = true
				if f.GetStr(i) != m {
					wrong[i] = true
					e += w[i] * cost[f.GetStr(i)]
				}
			}
		}
		if math.Abs(e-.5) < 1e-9 {
			c.Trivial()
			return
		}
		preds := make([]string, len(leaves))
		got := boost(&leaves, &preds)
		if e > .5 {
			c.Check(got == 0, "error %v is no better than chance but the tree weight is %v", e, got)
		} else {
			x := math.Max(e, c17min)
			tw := .5 * math.Log((1-x)/x)
			c.Check(c17Near(got, tw), "error %v: tree weight %v, defined as %v", e, got, tw)
			s := 0.0
			for i := range want {
				if in[i] {
					if wrong[i] {
						want[i] *= math.Exp(tw) * cost[f.GetStr(i)]
					} else {
						want[i] *= math.Exp(-tw) * cost[f.GetStr(i)]
					}
				}
				s += want[i]
			}
			for i := range want {
				want[i] /= s
			}
		}
		for i := range want {
			c.Check(c17Near(want[i], w[i]), "round %d: weight of case %d is %v, should be %v (error %v)", round, i, w[i], want[i], e)
		}
	}
}

func c17Num(c *vCase) {
	n := 2 + c.Intn(10)
	f := vNum(c, "f", n, 0.2)
	known := []int{}
	mean := 0.0
	for i := 0; i < n; i++ {
		if !f.IsMissing(i) {
			known = append(known, i)
			mean += f.Get(i)
		}
	}
	if len(known) == 0 {
		c.Trivial()
		return
	}
	mean /= float64(len(known))
	t := NewNumAdaBoostTarget(f)
	w := t.Weights
	c.Log("feature", vShow(f))
	nf := 0.0
	for i := range w {
		c.Check(c17Near(w[i], 1/float64(n)), "initial weight of case %d is %v", i, w[i])
		if !f.IsMissing(i) {
			nf += math.Abs(f.Get(i) - mean)
		}
	}
	c.Check(c17Near(t.NormFactor, nf), "NormFactor is %v, should be %v", t.NormFactor, nf)
	for round := 0; round < 1+c.Intn(3); round++ {
		leaves := c17Leaves(c, known)
		if c.Intn(4) == 0 { // missing cases may sit in leaves too
			for i := 0; i < n; i++ {
				if f.IsMissing(i) {
					leaves[0] = append(leaves[0], i)
				}
			}
		}
		c.Log(fmt.Sprintf("leaves %d", round), leaves)
		e := 0.0
		dev := make([]float64, n)
		in := make([]bool, n)
		for _, leaf := range leaves {
			m, k := 0.0, 0.0
			for _, i := range leaf {
				if !f.IsMissing(i) {
					m += f.Get(i)
					k++
				}
			}
			m /= k
			for _, i := range leaf {
				if !f.IsMissing(i) {
					in[i] = true
					dev[i] = math.Abs(f.Get(i) - m)
					e += w[i] * dev[i]
				}
			}
		}
		x := math.Max(e, c17min)
		if math.Abs(x-nf) < 1e-9 {
			c.Trivial()
			return
		}
		want := append([]float64{}, w...)
		preds := make([]string, len(leaves))
		got := t.Boost(&leaves, &preds)
		if x > nf {
			c.Check(got == 0, "error %v above %v but the tree weight is %v", e, nf, got)
		} else {
			tw := math.Log(nf / x)
			c.Check(c17Near(got, tw), "error %v: tree weight %v, defined as %v", e, got, tw)
			s := 0.0
			for i := range want {
				if in[i] {
					want[i] *= math.Exp(tw * (dev[i] - x))
				}
				s += want[i]
			}
			if math.IsInf(s, 0) || s == 0 {
				c.Trivial()
				return
			}
			for i := range want {
				want[i] /= s
			}
		}
		for i := range want {
			c.Check(math.Abs(want[i]-w[i]) <= 1e-6, "round %d: weight of case %d is %v, should be %v (error %v)", round, i, w[i], want[i], e)
		}
	}
}

func c17Grad(c *vCase) {
	n := 2 + c.Intn(10)
	f := vNum(c, "f", n, 0.2)
	want := make([]float64, n)
	mean, k := 0.0, 0.0
	for i := 0; i < n; i++ {
		if !f.IsMissing(i) {
			mean += f.Get(i)
			k++
		}
		want[i] = f.Get(i)
	}
	if k == 0 {
		c.Trivial()
		return
	}
	mean /= k
	c.Log("feature", vShow(f))
	lr := float64(1+c.Intn(10)) / 10
	miss := f.Copy()
	t := NewGradBoostTarget(f, lr)
	c.Check(c17Near(t.Intercept(), mean), "intercept is %v, the mean is %v", t.Intercept(), mean)
	chk := func(when string) {
		for i := range want {
			if f.IsMissing(i) != (miss.(*DenseNumFeature)).IsMissing(i) {
				c.Fail("%s: the missing flag of case %d changed", when, i)
			}
			if !f.IsMissing(i) {
				c.Check(c17Near(f.Get(i), want[i]), "%s: residual of case %d is %v, should be %v", when, i, f.Get(i), want[i])
			}
		}
	}
	for i := range want {
		want[i] -= mean
	}
	chk("start")
	for round := 0; round < 1+c.Intn(3); round++ {
		all := c.Perm(n)[:1+c.Intn(n)]
		leaves := c17Leaves(c, all)
		c.Log(fmt.Sprintf("leaves %d", round), leaves)
		preds := make([]string, len(leaves))
		for l := range leaves {
			preds[l] = fmt.Sprintf("%v", float64(c.Intn(40)-20)/8)
			p := ParseFloat(preds[l])
			for _, i := range leaves[l] {
				want[i] -= lr * p
			}
		}
		got := t.Boost(&leaves, &preds)
		c.Check(got == lr, "tree weight %v, learning rate %v", got, lr)
		chk(fmt.Sprintf("round %d", round))
	}
}

func c17Class(c *vCase) {
	n := 2 + c.Intn(10)
	f := &DenseCatFeature{&CatMap{make(map[string]int), make([]string, 0)}, make([]int, 0), make([]bool, 0), "C:f", false, false}
	pos := 0.0
	act := make([]float64, n)
	for i := 0; i < n; i++ {
		l := "no"
		if c.Intn(2) == 0 || i == 0 {
			l = "yes"
		}
		if i == n-1 {
			l = "no"
		}
		if l == "yes" {
			pos++
			act[i] = 1
		}
		f.Append(l)
	}
	if c.Intn(2) == 0 { // the label table's order must not matter
		g := &DenseCatFeature{&CatMap{make(map[string]int), make([]string, 0)}, make([]int, 0), make([]bool, 0), "C:f", false, false}
		g.CatToNum("no")
		for i := 0; i < n; i++ {
			g.Append(f.GetStr(i))
		}
		f = g
	}
	c.Log("feature", vShow(f))
	lr := float64(1+c.Intn(10)) / 10
	t := NewGradBoostClassTarget(f, lr, "yes")
	prior := math.Log(pos / (float64(n) - pos))
	c.Check(c17Near(t.Intercept(), prior), "intercept is %v, log odds are %v", t.Intercept(), prior)
	score := make([]float64, n)
	for i := range score {
		score[i] = prior
	}
	chk := func(when string) {
		for i := range score {
			r := act[i] - 1/(1+math.Exp(-score[i]))
			c.Check(c17Near(t.Get(i), r), "%s: residual of case %d is %v, should be %v", when, i, t.Get(i), r)
		}
	}
	chk("start")
	for round := 0; round < 1+c.Intn(3); round++ {
		all := c.Perm(n)[:1+c.Intn(n)]
		leaves := c17Leaves(c, all)
		c.Log(fmt.Sprintf("leaves %d", round), leaves)
		preds := make([]string, len(leaves))
		for l := range leaves {
			preds[l] = fmt.Sprintf("%v", float64(c.Intn(40)-20)/8)
			for _, i := range leaves[l] {
				score[i] += lr * ParseFloat(preds[l])
			}
		}
		got := t.Boost(&leaves, &preds)
		c.Check(got == lr, "tree weight %v, learning rate %v", got, lr)
		chk(fmt.Sprintf("round %d", round))
	}
}
