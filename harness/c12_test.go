package CloudForest

import (
	"fmt"
	"math/big"
	"sort"
)

func init() { vRegister("votes and partitions of random trees", 5000, c12) }

// c12Split draws a split of feature f: the coded split and the side a known case takes.
func c12Split(c *vCase, f Feature) (interface{}, func(i int) bool) {
	if d, ok := f.(*DenseNumFeature); ok {
		t := float64(c.Intn(20)-4) / 2
		if len(d.NumData) > 0 && c.Intn(2) == 0 {
			t = d.NumData[c.Intn(len(d.NumData))]
		}
		return t, func(i int) bool { return d.NumData[i] <= t }
	}
	d := f.(*DenseCatFeature)
	left := map[int]bool{}
	code, b := 0, big.NewInt(0)
	for j := 0; j < d.NCats(); j++ {
		if c.Intn(2) == 0 {
			left[j] = true
			code |= 1 << uint(j)
			b.SetBit(b, j, 1)
		}
	}
	side := func(i int) bool { return left[d.Geti(i)] }
	if c.Intn(3) == 0 {
		return b, side
	}
	return code, side
}

type c12Node struct {
	n                *Node
	feat             int
	side             func(i int) bool
	left, right, mid *c12Node
}

func c12Tree(c *vCase, fm *FeatureMatrix, d int, leaves *int) *c12Node {
	if d == 0 || c.Intn(4) == 0 {
		*leaves++
		return &c12Node{n: &Node{Pred: []string{fmt.Sprintf("p%d", *leaves), "same", "1.5", ""}[c.Intn(4)]}}
	}
	k := c.Intn(len(fm.Data))
	split, side := c12Split(c, fm.Data[k])
	n := &Node{Featurei: k, Splitter: fm.Data[k].DecodeSplit(split)}
	switch c.Intn(3) {
	case 0:
		n.CodedSplit = split
	case 1:
		n.CodedSplit = split
		if c.Intn(2) == 0 {
			n.Splitter = nil
		}
	}
	x := &c12Node{n: n, feat: k, side: side, left: c12Tree(c, fm, d-1, leaves), right: c12Tree(c, fm, d-1, leaves)}
	n.Left, n.Right = x.left.n, x.right.n
	if c.Intn(2) == 0 {
		x.mid = c12Tree(c, fm, d-1, leaves)
		n.Missing = x.mid.n
	}
	return x
}

func c12Text(n *Node) string {
	if n == nil {
		return "-"
	}
	s := fmt.Sprintf("%p %q %d %v", n, n.Pred, n.Featurei, n.CodedSplit)
	if n.Splitter != nil {
		s += fmt.Sprintf(" %s %v %v %v", n.Splitter.Feature, n.Splitter.Numerical, n.Splitter.Value, n.Splitter.Left)
	}
	return "(" + s + " " + c12Text(n.Left) + c12Text(n.Right) + c12Text(n.Missing) + ")"
}

// c12Dest follows the splits; nil when the case is dropped.
func c12Dest(fm *FeatureMatrix, x *c12Node, i int) *Node {
	for x.left != nil {
		switch {
		case fm.Data[x.feat].IsMissing(i):
			if x.mid == nil {
				return nil
			}
			x = x.mid
		case x.side(i):
			x = x.left
		default:
			x = x.right
		}
	}
	return x.n
}

type c12Vote struct {
	i int
	p string
	w float64
}

type c12Box struct{ votes []c12Vote }

func (b *c12Box) Vote(i int, p string, w float64) { b.votes = append(b.votes, c12Vote{i, p, w}) }
func (b *c12Box) TallyError(f Feature) float64    { return 0 }
func (b *c12Box) Tally(i int) string              { return "" }
func c12Sort(v []c12Vote) []c12Vote {
	sort.Slice(v, func(a, b int) bool {
		if v[a].i != v[b].i {
			return v[a].i < v[b].i
		}
		if v[a].p != v[b].p {
			return v[a].p < v[b].p
		}
		return v[a].w < v[b].w
	})
	return v
}

func c12(c *vCase) {
	n := 1 + c.Intn(14)
	fm := &FeatureMatrix{Map: map[string]int{}}
	for k := 0; k < 1+c.Intn(4); k++ {
		pm := []float64{0, 0.2, 0.6}[c.Intn(3)]
		name := fmt.Sprintf("f%d", k)
		fm.Map[name] = k
		if c.Intn(2) == 0 {
			fm.Data = append(fm.Data, vNum(c, name, n, pm))
		} else {
			fm.Data = append(fm.Data, vCat(c, name, n, 2+c.Intn(6), pm))
		}
	}
	for i := 0; i < n; i++ {
		fm.CaseLabels = append(fm.CaseLabels, fmt.Sprint("c", i))
	}
	leaves := 0
	root := c12Tree(c, fm, c.Intn(5), &leaves)
	t := &Tree{Root: root.n, Target: "t", Weight: []float64{-1, 0, 1, 2.5}[c.Intn(4)]}
	weight := 1.0
	if t.Weight >= 0 {
		weight = t.Weight
	}
	c.Log("tree", c12Text(root.n))
	c.Log("weight", t.Weight)
	before := c12Text(t.Root)
	snap := ""
	for _, f := range fm.Data {
		snap += vSnap(f)
	}
	expect := func(cases []int) []c12Vote {
		var v []c12Vote
		for _, i := range cases {
			if d := c12Dest(fm, root, i); d != nil {
				v = append(v, c12Vote{i, d.Pred, weight})
			}
		}
		return c12Sort(v)
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	// votes
	cases := vCases(c, n)
	orig := append([]int{}, cases...)
	bb := &c12Box{}
	t.VoteCases(fm, bb, cases)
	got, want := c12Sort(bb.votes), expect(orig)
	c.Check(fmt.Sprint(got) == fmt.Sprint(want), "votes on %v are %v, the leaves reached predict %v", orig, got, want)
	c.Check(vSameBag(cases, orig), "voting turned the case list %v into %v", orig, cases)
	bb = &c12Box{}
	t.Vote(fm, bb)
	got, want = c12Sort(bb.votes), expect(all)
	c.Check(fmt.Sprint(got) == fmt.Sprint(want), "votes on every case are %v, the leaves reached predict %v", got, want)
	// partitions
	check := func(what string, sets [][]int, preds []string) {
		c.Check(len(sets) == len(preds), "%s: %d leaves, %d predictions", what, len(sets), len(preds))
		where := map[int]int{}
		for k, s := range sets {
			node := map[*Node]bool{}
			for _, i := range s {
				_, dup := where[i]
				c.Check(!dup, "%s lists case %d twice", what, i)
				where[i] = k
				d := c12Dest(fm, root, i)
				c.Check(d != nil && d.Pred == preds[k], "%s lists case %d under a leaf predicting %q that it does not reach", what, i, preds[k])
				node[d] = true
			}
			c.Check(len(node) <= 1, "%s lists cases of different leaves together: %v", what, s)
		}
		of := map[*Node]int{}
		for i := 0; i < n; i++ {
			d := c12Dest(fm, root, i)
			k, ok := where[i]
			c.Check(ok == (d != nil), "%s: case %d listed: %v, it reaches a leaf: %v", what, i, ok, d != nil)
			if ok {
				if p, seen := of[d]; seen {
					c.Check(p == k, "%s spreads the cases of one leaf over two lists", what)
				}
				of[d] = k
			}
		}
	}
	ls, ps := t.Partition(fm)
	check("the partition", *ls, *ps)
	var sc *SparseCounter
	if root.n.Splitter != nil && c.Intn(2) == 0 {
		sc = new(SparseCounter)
	}
	var sets [][]int
	var preds []string
	for _, l := range t.GetLeaves(fm, sc) {
		sets = append(sets, l.Cases)
		preds = append(preds, l.Pred)
	}
	check("the leaf list", sets, preds)
	c.Check(c12Text(t.Root) == before, "the tree changed: %s", c12Text(t.Root))
	after := ""
	for _, f := range fm.Data {
		after += vSnap(f)
	}
	c.Check(after == snap, "the data changed")
}
