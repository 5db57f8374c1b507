package CloudForest

import (
	"fmt"
	"math"
)

func init() {
	vRegister("balanced classification error", 2500, c15Cat)
	vRegister("squared error and R2", 2500, c15Num)
}

func c15Cat(c *vCase) {
	k := 1 + c.Intn(4)
	n := k + c.Intn(12)
	f := &DenseCatFeature{&CatMap{make(map[string]int), make([]string, 0)}, make([]int, 0), make([]bool, 0), "C:f", false, false}
	order := c.Perm(n)
	labels := make([]string, n)
	known := make([]bool, n)
	for p, i := range order {
		if p < k {
			labels[i], known[i] = fmt.Sprintf("l%d", p), true
		} else {
			labels[i], known[i] = fmt.Sprintf("l%d", c.Intn(k)), c.Intn(4) > 0
		}
	}
	for i := range labels {
		if known[i] {
			f.Append(labels[i])
		} else {
			f.Append("NA")
		}
	}
	bb := NewCatBallotBox(n)
	votes := make([]map[string]float64, n)
	var log []string
	for i := range votes {
		votes[i] = map[string]float64{}
		for j := c.Intn(5); j > 0; j-- {
			l, w := fmt.Sprintf("l%d", c.Intn(k+1)), float64(1+c.Intn(3))
			if c.Intn(3) > 0 {
				l = labels[i]
			}
			bb.Vote(i, l, w)
			votes[i][l] += w
			log = append(log, fmt.Sprintf("vote(%d,%s,%v)", i, l, w))
		}
	}
	c.Log("feature", vShow(f))
	c.Log("votes", log)
	sure, maybe, total := map[string]int{}, map[string]int{}, map[string]int{}
	for i := range labels {
		if !known[i] {
			continue
		}
		total[labels[i]]++
		best, ties := 0.0, 0
		for _, w := range votes[i] {
			if w > best {
				best, ties = w, 0
			}
			if w == best {
				ties++
			}
		}
		if best > 0 && votes[i][labels[i]] == best {
			maybe[labels[i]]++
			if ties == 1 {
				sure[labels[i]]++
			}
		}
	}
	lo, hi := 1.0, 1.0
	for l, t := range total {
		lo -= float64(maybe[l]) / float64(t) / float64(len(total))
		hi -= float64(sure[l]) / float64(t) / float64(len(total))
	}
	e := bb.TallyError(f)
	c.Check(e >= lo-1e-9 && e <= hi+1e-9, "classification error is %v, by definition it lies between %v and %v (ties decided either way)", e, lo, hi)
}

func c15Num(c *vCase) {
	n := 1 + c.Intn(12)
	f := vNum(c, "N:f", n, 0.3)
	var vals []float64
	for i := 0; i < n; i++ {
		if !f.IsMissing(i) {
			vals = append(vals, f.Get(i))
		}
	}
	if len(vals) == 0 {
		f.Put(0, 1.5)
		vals = append(vals, 1.5)
	}
	bb := NewNumBallotBox(n)
	sw, swv := make([]float64, n), make([]float64, n)
	var log []string
	for i := 0; i < n; i++ {
		for j := 1 + c.Intn(4); j > 0 || sw[i] == 0; j-- {
			v, w := math.Round(c.NormFloat64()*8)/4, float64(1+c.Intn(4))/2
			if c.Intn(10) == 0 {
				bb.Vote(i, "NA", w)
				continue
			}
			bb.Vote(i, fmt.Sprintf("%v", v), w)
			sw[i] += w
			swv[i] += w * v
			log = append(log, fmt.Sprintf("vote(%d,%v,%v)", i, v, w))
		}
	}
	c.Log("feature", vShow(f))
	c.Log("votes", log)
	mu := 0.0
	for _, v := range vals {
		mu += v / float64(len(vals))
	}
	mse, va := 0.0, 0.0
	for i := 0; i < n; i++ {
		if f.IsMissing(i) {
			continue
		}
		t := swv[i] / sw[i]
		mse += (f.Get(i) - t) * (f.Get(i) - t) / float64(len(vals))
		va += (f.Get(i) - mu) * (f.Get(i) - mu) / float64(len(vals))
	}
	got := bb.TallySquaredError(f)
	c.Check(vClose(got, mse), "squared error is %v, the mean squared difference is %v", got, mse)
	if va < 1e-9 {
		c.Trivial()
		return
	}
	got = bb.TallyError(f)
	c.Check(vClose(got, mse/va), "error is %v, squared error over variance is %v", got, mse/va)
	got = bb.TallyR2Score(f)
	c.Check(vClose(got, 1-mse/va), "R2 is %v, by definition %v", got, 1-mse/va)
}
