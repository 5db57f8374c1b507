package CloudForest

func init() {
	vRegister("with replacement", 2000, c16Replace)
	vRegister("first n", 4000, c16First)
	vRegister("balanced", 3000, c16Balanced)
	vRegister("balanced by a second feature", 3000, c16Second)
}

func c16Replace(c *vCase) {
	n, total := c.Intn(40), 1+c.Intn(30)
	c.Log("n", n)
	c.Log("total", total)
	s := SampleWithReplacment(n, total)
	c.Check(len(s) == n, "%d cases, %d requested", len(s), n)
	for _, v := range s {
		c.Check(0 <= v && v < total, "case %d of %d", v, total)
	}
}

func c16First(c *vCase) {
	length := c.Intn(20)
	deck := make([]int, length)
	for i := range deck {
		deck[i] = 100 + c.Intn(length+3)
		if c.Intn(2) == 0 {
			deck[i] = i
		}
	}
	constants := 0
	if c.Intn(2) == 0 {
		constants = c.Intn(length + 1)
	}
	n := c.Intn(length + 4)
	c.Log("deck", append([]int{}, deck...))
	c.Log("constants", constants)
	c.Log("n", n)
	before := append([]int{}, deck...)
	var sample []int
	ptr := &sample
	if c.Intn(6) == 0 {
		ptr = nil
	}
	d := deck
	SampleFirstN(&d, ptr, n, constants)
	c.Check(len(d) == length && vSameBag(d, before), "the deck is no rearrangement: %v", d)
	c.Check(vSameInts(d[length-constants:], before[length-constants:]), "the constants moved: %v", d)
	if ptr != nil {
		c.Check(len(sample) <= n && len(sample) <= length-constants, "%d sampled, %d requested, %d constants", len(sample), n, constants)
		// as a bag, the sample comes out of distinct places of the non constant part
		count := map[int]int{}
		for _, v := range before[:length-constants] {
			count[v]++
		}
		for _, v := range sample {
			count[v]--
			c.Check(count[v] >= 0, "%d sampled too often: %v", v, sample)
		}
		if constants == 0 {
			want := n
			if want > length {
				want = length
			}
			c.Check(len(sample) == want, "%d sampled, %d requested of %d", len(sample), n, length)
		}
		// and it is the beginning of the deck
		c.Check(vSameInts(sample, d[:len(sample)]), "the sample %v is not the beginning of the deck %v", sample, d)
	}
}

// c16Cat makes a feature whose categories all have a known case.
func c16Cat(c *vCase, name string, n, k int, pm float64) *DenseCatFeature {
	f := vCat(c, name, n, k, pm)
	return f
}

func c16Balanced(c *vCase) {
	n := 1 + c.Intn(20)
	f := c16Cat(c, "t", n, 1+c.Intn(4), .3*float64(c.Intn(2)))
	c.Log("f", vShow(f))
	s := NewBalancedSampler(f)
	want := make([][]int, f.NCats())
	ok := len(want) > 0
	for i := 0; i < n; i++ {
		if !f.IsMissing(i) {
			want[f.Geti(i)] = append(want[f.Geti(i)], i)
		}
	}
	for _, w := range want {
		ok = ok && len(w) > 0
	}
	c.Check(len(s.Cases) == len(want), "%d classes instead of %d", len(s.Cases), len(want))
	for k := range want {
		if k < len(s.Cases) {
			c.Check(vSameBag(s.Cases[k], want[k]), "class %d holds %v instead of %v", k, s.Cases[k], want[k])
		}
	}
	if !ok {
		c.Trivial()
		return
	}
	samples := make([]int, c.Intn(10), 10)
	for i := range samples {
		samples[i] = -7
	}
	for r := 0; r < 2; r++ {
		m := c.Intn(40)
		s.Sample(&samples, m)
		c.Check(len(samples) == m, "%d cases, %d requested", len(samples), m)
		for _, v := range samples {
			c.Check(0 <= v && v < n && !f.IsMissing(v), "drew %d", v)
		}
	}
	for k := range want {
		c.Check(vSameBag(s.Cases[k], want[k]), "sampling changed class %d to %v", k, s.Cases[k])
	}
	m := 60 * len(want)
	s.Sample(&samples, m)
	seen := make([]int, len(want))
	for _, v := range samples {
		seen[f.Geti(v)]++
	}
	for k, v := range seen {
		// an expected 60 draws per class: none at all does not happen
		c.Check(v > 0, "no case of class %d in %d draws", k, m)
	}
}

func c16Second(c *vCase) {
	n := 1 + c.Intn(24)
	pm := .3 * float64(c.Intn(2))
	t := c16Cat(c, "t", n, 1+c.Intn(2), pm)
	b := c16Cat(c, "b", n, 1+c.Intn(3), pm)
	c.Log("target", vShow(t))
	c.Log("by", vShow(b))
	s := NewSecondaryBalancedSampler(t, b)
	cells := map[[2]int]int{}
	row := map[int]int{}
	total := 0
	for i := 0; i < n; i++ {
		if !t.IsMissing(i) && !b.IsMissing(i) {
			cells[[2]int{b.Geti(i), t.Geti(i)}]++
			row[b.Geti(i)]++
			total++
		}
	}
	if total == 0 {
		c.Trivial()
		return
	}
	for r := range row {
		for j := 0; j < t.NCats(); j++ {
			if cells[[2]int{r, j}] == 0 {
				c.Trivial()
				return
			}
		}
	}
	samples := make([]int, c.Intn(10), 10)
	for r := 0; r < 2; r++ {
		m := c.Intn(60)
		s.Sample(&samples, m)
		c.Check(len(samples) == m, "%d cases, %d requested", len(samples), m)
		for _, v := range samples {
			c.Check(0 <= v && v < n && !t.IsMissing(v) && !b.IsMissing(v), "drew %d", v)
		}
	}
	// every combination that can be drawn is drawn
	m := 200 * n
	s.Sample(&samples, m)
	seen := map[[2]int]int{}
	for _, v := range samples {
		seen[[2]int{b.Geti(v), t.Geti(v)}]++
	}
	for k := range cells {
		c.Check(seen[k] > 0, "combination %v never drawn in %d draws", k, m)
	}
}
