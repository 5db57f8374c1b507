package CloudForest

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

// Several goroutines use one accumulator; the content afterwards must be that of the same operations in
// any order, and what readers see on the way must be a state some prefix of them can leave.

func init() {
	vRegister("concurrent categorical votes", 120, c14Cat)
	vRegister("concurrent numerical votes", 120, c14Num)
	vRegister("concurrent sums", 120, c14Sum)
	vRegister("concurrent running means", 120, c14Mean)
	vRegister("concurrent pair counts", 120, c14Pairs)
}

// par runs k goroutines and reports a panic of one of them.
func c14Par(c *vCase, k int, f func(g int)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	start := make(chan bool)
	for g := 0; g < k; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					bad = fmt.Sprint(r)
					mu.Unlock()
				}
			}()
			<-start
			f(g)
		}(g)
	}
	close(start)
	wg.Wait()
	c.Check(bad == "", "a goroutine panicked: %v", bad)
}

type c14Op struct {
	i int
	p string
	w float64
}

func c14Ops(c *vCase, k, n int, pred func() string) [][]c14Op {
	ops := make([][]c14Op, k)
	for g := range ops {
		for m := 0; m < 30+c.Intn(60); m++ {
			ops[g] = append(ops[g], c14Op{c.Intn(n), pred(), float64(1 + c.Intn(4))})
		}
	}
	c.Log("operations", ops)
	return ops
}

func c14Cat(c *vCase) {
	k, n, nl := 2+c.Intn(6), 1+c.Intn(3), 1+c.Intn(30)
	ops := c14Ops(c, k, n, func() string { return "L" + strconv.Itoa(c.Intn(nl)) })
	bb := NewCatBallotBox(n)
	bad := make([]string, k+1)
	c14Par(c, k+1, func(g int) {
		if g == k {
			for m := 0; m < 60; m++ {
				if t := bb.Tally(m % n); t != "NA" && !strings.HasPrefix(t, "L") {
					bad[g] = fmt.Sprintf("a concurrent tally returned %q", t)
				}
				if m%8 == 0 {
					runtime.Gosched()
				}
			}
			return
		}
		for _, o := range ops[g] {
			bb.Vote(o.i, o.p, o.w)
		}
	})
	for _, b := range bad {
		c.Check(b == "", "%s", b)
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		want := map[string]float64{}
		for _, os := range ops {
			for _, o := range os {
				used[o.p] = true
				if o.i == i {
					want[o.p] += o.w
				}
			}
		}
		best := 0.0
		for _, w := range want {
			best = math.Max(best, w)
		}
		got := bb.Tally(i)
		if best == 0 {
			c.Check(got == "NA", "case %d without votes tallies %q", i, got)
			continue
		}
		c.Check(want[got] == best, "case %d tallies %q with %v votes, a label got %v", i, got, want[got], best)
		// raise a label above the best by less than one: its recorded total must be exact
		for l, w := range want {
			bb.Vote(i, l, best-w+0.5)
			c.Check(bb.Tally(i) == l, "label %q of case %d does not hold the %v votes cast for it", l, i, w)
			bb.Vote(i, l, -(best - w + 0.5))
		}
	}
	c.Check(bb.NCats() == len(used), "%d labels voted for, %d known", len(used), bb.NCats())
}

func c14Num(c *vCase) {
	k, n := 2+c.Intn(6), 1+c.Intn(3)
	ops := c14Ops(c, k, n, func() string {
		if c.Intn(8) == 0 {
			return "none"
		}
		return strconv.Itoa(c.Intn(20) - 5)
	})
	bb := NewNumBallotBox(n)
	bad := make([]string, k+1)
	c14Par(c, k+1, func(g int) {
		if g == k {
			for m := 0; m < 60; m++ {
				if v := bb.TallyNum(m % n); !(v >= -5.0001 && v <= 14.0001) {
					bad[g] = fmt.Sprintf("a concurrent tally returned %v", v)
				}
			}
			return
		}
		for _, o := range ops[g] {
			bb.Vote(o.i, o.p, o.w)
		}
	})
	for _, b := range bad {
		c.Check(b == "", "%s", b)
	}
	for i := 0; i < n; i++ {
		s, w := 0.0, 0.0
		for _, os := range ops {
			for _, o := range os {
				if v, err := strconv.ParseFloat(o.p, 64); err == nil && o.i == i {
					s += v * o.w
					w += o.w
				}
			}
		}
		if w > 0 {
			c.Check(vClose(bb.TallyNum(i), s/w), "case %d tallies %v, the votes average %v", i, bb.TallyNum(i), s/w)
		}
	}
}

func c14Sum(c *vCase) {
	k, n := 2+c.Intn(6), 1+c.Intn(3)
	ops := c14Ops(c, k, n, func() string { return strconv.Itoa(c.Intn(9)) })
	bb := NewSumBallotBox(n)
	bad := make([]string, k+1)
	c14Par(c, k+1, func(g int) {
		if g == k {
			last := make([]float64, n)
			for m := 0; m < 60; m++ {
				v := bb.TallyNum(m % n)
				if v < last[m%n] {
					bad[g] = fmt.Sprintf("a sum of positive votes fell from %v to %v", last[m%n], v)
				}
				last[m%n] = v
			}
			return
		}
		for _, o := range ops[g] {
			bb.Vote(o.i, o.p, o.w)
		}
	})
	for _, b := range bad {
		c.Check(b == "", "%s", b)
	}
	for i := 0; i < n; i++ {
		s := 0.0
		for _, os := range ops {
			for _, o := range os {
				if o.i == i {
					v, _ := strconv.ParseFloat(o.p, 64)
					s += v * o.w
				}
			}
		}
		c.Check(vClose(bb.TallyNum(i), s), "case %d sums to %v, the votes to %v", i, bb.TallyNum(i), s)
	}
}

func c14Mean(c *vCase) {
	k := 2 + c.Intn(6)
	ops := c14Ops(c, k, 1, func() string { return "x" })
	v := float64(1 + c.Intn(9))
	rm := (*NewRunningMeans(1))[0]
	bad := make([]string, k+1)
	c14Par(c, k+1, func(g int) {
		if g == k {
			last := 0.0
			for m := 0; m < 60; m++ {
				mean, count := rm.Read()
				if count < last || count > 0 && !vClose(mean, v) || count == 0 && mean != 0 {
					bad[g] = fmt.Sprintf("read mean %v and count %v after count %v while only %v is added", mean, count, last, v)
				}
				last = count
			}
			return
		}
		for j, o := range ops[g] {
			if j%3 == 0 {
				rm.Add(v)
			} else {
				rm.WeightedAdd(v, o.w)
			}
		}
	})
	for _, b := range bad {
		c.Check(b == "", "%s", b)
	}
	w := 0.0
	for _, os := range ops {
		for j, o := range os {
			if j%3 == 0 {
				w++
			} else {
				w += o.w
			}
		}
	}
	mean, count := rm.Read()
	c.Check(vClose(mean, v) && vClose(count, w), "mean %v and count %v, want %v and %v", mean, count, v, w)
}

func c14Pairs(c *vCase) {
	k, n := 2+c.Intn(6), 1+c.Intn(4)
	ops := c14Ops(c, k, n, func() string { return strconv.Itoa(c.Intn(4)) })
	sc := new(SparseCounter)
	parse := func(s string) map[string]int {
		m := map[string]int{}
		for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
			f := strings.Split(l, "\t")
			if len(f) == 3 {
				v, _ := strconv.Atoi(f[2])
				m[f[0]+","+f[1]] += v
			}
		}
		return m
	}
	c14Par(c, k+1, func(g int) {
		if g == k {
			for m := 0; m < 5; m++ {
				var b bytes.Buffer
				sc.WriteTsv(&b)
				parse(b.String())
			}
			return
		}
		for _, o := range ops[g] {
			j, _ := strconv.Atoi(o.p)
			sc.Add(o.i, j, int(o.w))
		}
	})
	want := map[string]int{}
	for _, os := range ops {
		for _, o := range os {
			want[strconv.Itoa(o.i)+","+o.p] += int(o.w)
		}
	}
	var b bytes.Buffer
	sc.WriteTsv(&b)
	got := parse(b.String())
	for k, v := range want {
		c.Check(got[k] == v, "pair %s counts %d, added %d", k, got[k], v)
	}
	for k, v := range got {
		c.Check(want[k] == v, "pair %s counts %d, added %d", k, v, want[k])
	}
}
