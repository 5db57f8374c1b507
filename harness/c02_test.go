package CloudForest

import (
	"sort"

	"github.com/ryanbressler/CloudForest/sortby"
)

func init() {
	vRegister("sortby", 6000, c02Sort)
	vRegister("feature", 2000, c02Feature)
}

func c02Vals(c *vCase, n int) []float64 {
	v := make([]float64, n)
	style := c.Intn(9)
	for i := range v {
		switch style {
		case 0:
			v[i] = float64(c.Intn(3))
		case 1:
			v[i] = float64(c.Intn(n + 1))
		case 2:
			v[i] = c.NormFloat64()
		case 3:
			v[i] = float64(i)
		case 4:
			v[i] = -float64(i)
		case 5:
			v[i] = float64(i % 7)
		case 6: // organ pipe
			v[i] = float64(i)
			if i > n/2 {
				v[i] = float64(n - i)
			}
		case 7:
			v[i] = 1
		case 8:
			v[i] = float64((i * 7919) % (n + 1))
		}
	}
	if style == 8 && n > 40 { // median of three killer
		k := n / 2
		for i := 0; i < k; i++ {
			if i%2 == 0 {
				v[i] = float64(i + 1)
			} else {
				v[i] = float64(k + i)
			}
			v[k+i] = float64(2 * (i + 1))
		}
	}
	return v
}

type c02Pair struct {
	c int
	v float64
}

func c02Pairs(cs []int, vs []float64) []c02Pair {
	r := make([]c02Pair, len(cs))
	for i := range cs {
		r[i] = c02Pair{cs[i], vs[i]}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].c < r[j].c || r[i].c == r[j].c && r[i].v < r[j].v })
	return r
}

func c02Sort(c *vCase) {
	n := c.Intn(30)
	switch c.Intn(8) {
	case 0:
		n = c.Intn(400)
	case 1:
		n = c.Intn(60)
	}
	if c.N%500 == 7 {
		n = 2000 + c.Intn(4000)
	}
	extra := c.Intn(4)
	vs := c02Vals(c, n+extra)
	cs := make([]int, n)
	for i := range cs {
		cs[i] = c.Intn(n + 1)
	}
	if n < 500 {
		c.Log("cases", append([]int{}, cs...))
		c.Log("values", append([]float64{}, vs...))
	} else {
		c.Log("n", n)
	}
	full := append(append([]int{}, cs...), 99991, 99992)
	cs = full[:n]
	before := c02Pairs(cs, vs)
	tail := append([]float64{}, vs[n:]...)
	sortby.SortBy(&cs, &vs)
	c.Check(len(cs) == n && len(vs) == n+extra, "lengths changed")
	c.Check(full[n] == 99991 && full[n+1] == 99992, "wrote beyond the case list")
	for i := 1; i < n; i++ {
		c.Check(vs[i-1] <= vs[i], "not sorted at %d: %v", i, vs)
	}
	after := c02Pairs(cs, vs)
	for i := range before {
		c.Check(before[i] == after[i], "pairs changed: %v -> %v (cases %v, values %v)", before, after, cs, vs)
	}
	for i := range tail {
		c.Check(vs[n+i] == tail[i], "value beyond the case list changed")
	}
}

func c02Feature(c *vCase) {
	n := 1 + c.Intn(40)
	f := vNum(c, "f", n, 0)
	cases := vCases(c, n)
	c.Log("feature", vShow(f))
	c.Log("cases", cases)
	extra := c.Intn(3)
	s := &SortableFeature{Vals: make([]float64, len(cases)+extra)}
	cs := append([]int{}, cases...)
	s.Load(&f.NumData, &cs)
	for i, p := range cs {
		c.Check(s.Vals[i] == f.NumData[p], "Load: value %d of case %d", i, p)
	}
	c.Check(s.Len() == len(cs), "Len")
	s.Sort()
	c.Check(vSameBag(cases, cs), "cases changed %v -> %v", cases, cs)
	for i := range cs {
		c.Check(i == 0 || f.Get(cs[i-1]) <= f.Get(cs[i]), "cases not in increasing order of value: %v", cs)
		c.Check(s.Vals[i] == f.Get(cs[i]), "value %d no longer that of its case", i)
	}
}
