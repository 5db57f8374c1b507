package CloudForest

import (
	"math"
	"strconv"
)

func init() {
	vRegister("leaf predictions", 8000, c21Predict)
}

// c21Best reports whether label pred has the largest score (up to rounding).
func c21Best(pred string, score map[string]float64) bool {
	s, ok := score[pred]
	if !ok {
		return false
	}
	for _, v := range score {
		if v > s+1e-9*(1+math.Abs(v)) {
			return false
		}
	}
	return true
}

func c21Predict(c *vCase) {
	n := 1 + c.Intn(25)
	kinds := []string{"mode", "mean", "weighted", "regret", "np", "ordinal", "hdistance", "dentropy", "gradboost", "l1", "adaboost", "entropy"}
	which := kinds[c.Intn(len(kinds))]
	pm := 0.0
	if which == "mode" || which == "mean" || which == "weighted" || which == "ordinal" || which == "l1" || which == "gradboost" || which == "adaboost" || which == "entropy" {
		pm = .3
	}
	cf := vCat(c, "t", n, 1+c.Intn(5), pm)
	if c.Intn(4) == 0 || which == "dentropy" {
		// a two category feature called True and False
		cf = &DenseCatFeature{CatMap: &CatMap{Map: map[string]int{}, Back: []string{}}, Name: "t"}
		for i := 0; i < n; i++ {
			switch {
			case c.Float64() < pm:
				cf.Append("NA")
			case c.Intn(2) == 0:
				cf.Append("True")
			default:
				cf.Append("False")
			}
		}
	}
	nf := vNum(c, "t", n, pm)
	if which == "ordinal" {
		nf = &DenseNumFeature{Name: "t"}
		for i := 0; i < n; i++ {
			if c.Float64() < pm {
				nf.Append("NA")
			} else {
				nf.Append(strconv.Itoa(c.Intn(4)))
			}
		}
	}
	weights := map[string]float64{}
	for _, l := range cf.Back {
		weights[l] = float64(1+c.Intn(12)) / 4
		if c.Intn(6) == 0 && which != "dentropy" {
			weights[l] = 0
		}
	}
	m := 1 + c.Intn(30)
	cases := make([]int, m)
	for i := range cases {
		cases[i] = c.Intn(n)
	}
	c.Log("kind", which)
	c.Log("cat", vShow(cf))
	c.Log("num", vShow(nf))
	c.Log("weights", weights)
	c.Log("cases", cases)

	num := which == "mean" || which == "l1" || which == "gradboost" || which == "ordinal"
	counts := map[string]float64{}
	sum, known := 0.0, 0
	for _, i := range cases {
		if num {
			if !nf.IsMissing(i) {
				sum += nf.Get(i)
				known++
				counts[nf.GetStr(i)]++
			}
		} else if !cf.IsMissing(i) {
			counts[cf.GetStr(i)]++
			known++
		}
	}
	if known == 0 {
		c.Trivial()
		return
	}
	var target Target
	score := counts
	share := -1.0
	switch which {
	case "mode":
		target = cf
	case "entropy":
		target = NewEntropyTarget(cf)
	case "adaboost":
		target = NewAdaBoostTarget(cf)
	case "mean":
		target = nf
	case "l1":
		target = &L1Target{nf}
	case "gradboost":
		target = NewGradBoostTarget(nf, .5)
		score, sum = nil, 0
		for _, i := range cases {
			if !nf.IsMissing(i) {
				sum += target.(*GradBoostTarget).Get(i)
			}
		}
	case "weighted":
		target = NewWRFTarget(cf, weights)
	case "regret":
		x := NewRegretTarget(cf)
		x.SetCosts(weights)
		target = x
	case "np":
		pos := cf.Back[c.Intn(cf.NCats())]
		alpha := float64(1+c.Intn(8)) / 4
		c.Log("pos", pos)
		c.Log("alpha", alpha)
		target = NewNPTarget(cf, pos, alpha, 1)
		score = map[string]float64{}
		for l, v := range counts {
			if l == pos {
				v /= alpha
			}
			score[l] = v
		}
	case "ordinal":
		target = NewOrdinalTarget(nf)
	case "hdistance":
		pos := cf.Back[c.Intn(cf.NCats())]
		c.Log("pos", pos)
		target = NewHDistanceTarget(cf, pos)
		share = counts[pos] / float64(known)
	case "dentropy":
		x := NewDEntropyTarget(cf)
		x.SetCosts(weights)
		target = x
		if _, ok := weights["True"]; !ok {
			c.Trivial()
			return
		}
		total := 0.0
		for l, v := range counts {
			total += v * weights[l]
		}
		share = counts["True"] * weights["True"] / total
	}
	if which == "weighted" || which == "regret" {
		score = map[string]float64{}
		for l := range weights {
			score[l] = counts[l] * weights[l]
		}
	}
	given := append([]int{}, cases...)
	before := vShow(cf) + vShow(nf)
	pred := target.FindPredicted(given)
	c.Check(vSameInts(given, cases), "the prediction changed the list of cases: %v became %v", cases, given)
	value, err := strconv.ParseFloat(pred, 64)
	switch which {
	case "mean", "l1", "gradboost":
		c.Check(err == nil && vClose(value, sum/float64(known)), "%s: predicted %q, the mean of the known values is %v", which, pred, sum/float64(known))
	case "hdistance", "dentropy":
		c.Check(err == nil && vClose(value, share), "%s: predicted %q, the share is %v", which, pred, share)
	case "ordinal":
		c.Check(err == nil, "ordinal: predicted %q is not a number", pred)
		ok := false
		for l, v := range counts {
			lv, _ := strconv.ParseFloat(l, 64)
			if lv == value {
				ok = true
				for _, o := range counts {
					ok = ok && o <= v
				}
			}
		}
		c.Check(ok, "ordinal: predicted %q is not a most frequent value of %v", pred, counts)
	default:
		c.Check(c21Best(pred, score), "%s: predicted %q is not a best category of %v", which, pred, score)
	}
	shuffled := append([]int{}, cases...)
	c.Shuffle(len(shuffled), func(i, j int) { shuffled[i], shuffled[j] = shuffled[j], shuffled[i] })
	again := target.FindPredicted(shuffled)
	v2, err2 := strconv.ParseFloat(again, 64)
	c.Check(again == pred || err == nil && err2 == nil && vClose(value, v2), "%s: predicted %q for %v but %q for %v", which, pred, cases, again, shuffled)
	c.Check(vShow(cf)+vShow(nf) == before || which == "gradboost", "%s: predicting changed the feature", which)
}
