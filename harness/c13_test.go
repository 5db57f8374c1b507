package CloudForest

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
)

func init() {
	vRegister("categorical votes", 2500, c13Cat)
	vRegister("numerical votes", 2500, c13Num)
	vRegister("pair counts", 1500, c13Pairs)
}

func c13Weight(c *vCase) float64 {
	switch c.Intn(4) {
	case 0:
		return 1
	case 1:
		return 0
	case 2:
		return float64(1+c.Intn(8)) / 8
	}
	return c.Float64() * 5
}

func c13Cat(c *vCase) {
	n := 1 + c.Intn(5)
	bb := NewCatBallotBox(n)
	want := make([]map[string]float64, n)
	for i := range want {
		want[i] = map[string]float64{}
	}
	var log []string
	check := func() bool {
		for i := 0; i < n; i++ {
			best := 0.0
			for _, w := range want[i] {
				if w > best {
					best = w
				}
			}
			got := bb.Tally(i)
			if best == 0 {
				if got != "NA" && want[i][got] <= 0 {
					c.Fail("case %d has no positive votes but its tally is %q after %v", i, got, log)
					return false
				}
				continue
			}
			w, ok := want[i][got]
			if !ok || w < best-1e-9 {
				c.Fail("case %d: tally %q has weight %v, the largest is %v, after %v", i, got, w, best, log)
				return false
			}
		}
		return true
	}
	steps := c.Intn(40)
	for s := 0; s < steps; s++ {
		i, l, w := c.Intn(n), fmt.Sprintf("l%d", c.Intn(6)), c13Weight(c)
		if c.Intn(30) == 0 {
			l = ""
		}
		log = append(log, fmt.Sprintf("vote(%d,%q,%v)", i, l, w))
		bb.Vote(i, l, w)
		want[i][l] += w
		if c.Intn(10) == 0 && !check() {
			c.Log("votes", log)
			return
		}
	}
	c.Log("votes", log)
	check()
	if steps == 0 {
		c.Trivial()
	}
}

func c13Num(c *vCase) {
	n := 1 + c.Intn(5)
	nb, sb := NewNumBallotBox(n), NewSumBallotBox(n)
	rms := *NewRunningMeans(n)
	type st struct{ wv, w float64 }
	want := make([]st, n)
	var log []string
	steps := c.Intn(40)
	for s := 0; s < steps; s++ {
		i, w := c.Intn(n), c13Weight(c)
		l := strconv.FormatFloat(float64(c.Intn(200)-100)/8, 'g', -1, 64)
		switch c.Intn(8) {
		case 0:
			l = []string{"NA", "", "x", "1,5", "true"}[c.Intn(5)]
		case 1:
			l = "1e3"
		}
		log = append(log, fmt.Sprintf("vote(%d,%q,%v)", i, l, w))
		nb.Vote(i, l, w)
		sb.Vote(i, l, w)
		v, err := strconv.ParseFloat(l, 64)
		if err == nil {
			want[i].wv += w * v
			want[i].w += w
			rms[i].WeightedAdd(v, w)
		}
	}
	c.Log("votes", log)
	for i := range want {
		c.Check(vClose(sb.TallyNum(i), want[i].wv), "case %d: sum tally %v, want %v", i, sb.TallyNum(i), want[i].wv)
		t, err := strconv.ParseFloat(sb.Tally(i), 64)
		c.Check(err == nil && vClose(t, want[i].wv), "case %d: sum tally %q, want %v", i, sb.Tally(i), want[i].wv)
		if want[i].w == 0 {
			c.Check(nb.Tally(i) == "NA", "case %d without votes has tally %q", i, nb.Tally(i))
			continue
		}
		m := want[i].wv / want[i].w
		c.Check(vClose(nb.TallyNum(i), m), "case %d: mean tally %v, want %v", i, nb.TallyNum(i), m)
		t, err = strconv.ParseFloat(nb.Tally(i), 64)
		c.Check(err == nil && vClose(t, m), "case %d: mean tally %q, want %v", i, nb.Tally(i), m)
		rm, cnt := rms[i].Read()
		c.Check(vClose(rm, m) && vClose(cnt, want[i].w), "running mean %v of weight %v, want %v of %v", rm, cnt, m, want[i].w)
	}
	var rm RunningMean
	sum, k := 0.0, c.Intn(20)
	for j := 0; j < k; j++ {
		v := float64(c.Intn(100)) / 4
		sum += v
		rm.Add(v)
	}
	m, cnt := rm.Read()
	c.Check(cnt == float64(k) && (k == 0 || math.Abs(m-sum/float64(k)) < 1e-7), "running mean of %d values is %v of %v, want %v", k, m, cnt, sum/float64(k))
	if steps == 0 {
		c.Trivial()
	}
}

func c13Pairs(c *vCase) {
	var sc SparseCounter
	want := map[[2]int]int{}
	k := c.Intn(40)
	var log []string
	for s := 0; s < k; s++ {
		i, j, v := c.Intn(5), c.Intn(5), c.Intn(5)-1
		log = append(log, fmt.Sprintf("add(%d,%d,%d)", i, j, v))
		sc.Add(i, j, v)
		want[[2]int{i, j}] += v
	}
	c.Log("adds", log)
	var b bytes.Buffer
	sc.WriteTsv(&b)
	got := map[[2]int]int{}
	for _, l := range strings.Split(strings.TrimSpace(b.String()), "\n") {
		if l == "" {
			continue
		}
		var i, j, v int
		if _, err := fmt.Sscanf(l, "%d\t%d\t%d", &i, &j, &v); err != nil {
			c.Fail("bad line %q", l)
			return
		}
		_, dup := got[[2]int{i, j}]
		c.Check(!dup, "pair %d,%d is written twice", i, j)
		got[[2]int{i, j}] = v
	}
	for p, v := range want {
		c.Check(got[p] == v, "pair %v counts %d, want %d", p, got[p], v)
	}
	for p, v := range got {
		c.Check(want[p] == v, "pair %v counts %d, want %d", p, v, want[p])
	}
	if k == 0 {
		c.Trivial()
	}
}
