package CloudForest

import (
	"fmt"
	"strconv"
)

func init() { vRegister("trees grown and grown again", 8000, c11) }

type c11Grow struct {
	fm       *FeatureMatrix
	target   Target
	cands    map[string]bool
	leafSize int
	maxDepth int
	wantDeep int
	nodes    int
	seen     map[*Node]bool
}

func c11SamePred(a, b string) bool {
	if a == b {
		return true
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && vClose(x, y)
}

func (g *c11Grow) walk(c *vCase, n *Node, cases []int, depth int, path string) {
	c.Check(n != nil, "node %s is missing", path)
	c.Check(!g.seen[n], "node %s occurs twice in the tree", path)
	g.seen[n] = true
	g.nodes++
	if n.Splitter == nil && n.CodedSplit == nil {
		c.Check(n.Left == nil && n.Right == nil && n.Missing == nil, "leaf %s has children", path)
		want := g.target.FindPredicted(append([]int{}, cases...))
		c.Check(c11SamePred(n.Pred, want), "leaf %s predicts %q for the cases %v that reach it, the target %q", path, n.Pred, cases, want)
		return
	}
	c.Check(n.Splitter != nil, "inner node %s has no splitter", path)
	c.Check(n.Left != nil && n.Right != nil, "inner node %s lacks a child", path)
	c.Check(g.cands[n.Splitter.Feature], "inner node %s splits on %q, which is no candidate", path, n.Splitter.Feature)
	c.Check(g.maxDepth <= 0 || depth < g.maxDepth, "inner node %s at depth %d, the maximum is %d", path, depth, g.maxDepth)
	c.Check(len(cases) >= 2*g.leafSize, "inner node %s holds %d cases, the leaf size is %d", path, len(cases), g.leafSize)
	f := g.fm.Data[g.fm.Map[n.Splitter.Feature]]
	var l, r, m []int
	for _, i := range cases {
		switch {
		case f.IsMissing(i):
			m = append(m, i)
		case n.Splitter.Numerical && f.(*DenseNumFeature).NumData[i] <= n.Splitter.Value, !n.Splitter.Numerical && n.Splitter.Left[f.GetStr(i)]:
			l = append(l, i)
		default:
			r = append(r, i)
		}
	}
	g.walk(c, n.Left, l, depth+1, path+"L")
	g.walk(c, n.Right, r, depth+1, path+"R")
	if n.Missing != nil {
		g.walk(c, n.Missing, m, depth+1, path+"M")
	}
}

func c11(c *vCase) {
	n := 2 + c.Intn(30)
	fm := &FeatureMatrix{Map: map[string]int{}}
	nf := 1 + c.Intn(5)
	for k := 0; k < nf; k++ {
		var f Feature
		pm := []float64{0, 0.2, 0.6}[c.Intn(3)]
		name := fmt.Sprintf("F%d", k)
		if c.Intn(2) == 0 {
			f = vNum(c, name, n, pm)
		} else {
			d := vCat(c, name, n, []int{1, 2, 3, 6, 12, 40}[c.Intn(6)], pm)
			d.RandomSearch = c.Intn(2) == 0
			f = d
		}
		fm.Data = append(fm.Data, f)
		fm.Map[name] = k
		c.Log("feature", vShow(f))
	}
	var tf Feature
	var target Target
	switch c.Intn(5) {
	case 0, 1:
		d := vNum(c, "T", n, 0)
		tf, target = d, d
		if c.Intn(3) == 0 {
			target = &L1Target{d}
		}
	default:
		d := vCat(c, "T", n, 1+c.Intn(4), 0)
		tf, target = d, d
		switch c.Intn(4) {
		case 0:
			target = NewEntropyTarget(d)
		case 1:
			w := map[string]float64{}
			for k := 0; k < d.NCats(); k++ {
				w[d.NumToCat(k)] = float64(1+c.Intn(8)) / 2
			}
			target = NewWRFTarget(d, w)
		}
	}
	fm.Data = append(fm.Data, tf)
	fm.Map["T"] = nf
	c.Log("target", fmt.Sprintf("%T %s", target, vShow(tf)))
	tree := NewTree()
	rounds := 1 + c.Intn(3)
	total := 0
	for round := 0; round < rounds; round++ {
		g := &c11Grow{fm: fm, target: target, cands: map[string]bool{}, seen: map[*Node]bool{}}
		g.leafSize = 1 + c.Intn(4)
		if c.Intn(2) == 0 {
			g.maxDepth = 1 + c.Intn(3)
		}
		var cases, oob []int
		in := map[int]bool{}
		for len(cases) == 0 {
			cases = vCases(c, n)
		}
		for _, i := range cases {
			in[i] = true
		}
		for i := 0; i < n; i++ {
			if !in[i] {
				oob = append(oob, i)
			}
		}
		cands := c.Perm(nf)[:1+c.Intn(nf)]
		for _, k := range cands {
			g.cands[fm.Data[k].GetName()] = true
		}
		mTry := 1 + c.Intn(len(cands))
		splitmissing, force := c.Intn(2) == 0, c.Intn(3) == 0
		_, isnum := target.(*DenseNumFeature)
		_, iscat := target.(*DenseCatFeature)
		vet := (isnum || iscat) && c.Intn(6) == 0
		evaloob := len(oob) > 0 && c.Intn(6) == 0
		extra := c.Intn(4) == 0
		var imp *[]*RunningMean
		if c.Intn(3) == 0 {
			imp = NewRunningMeans(len(fm.Data))
		}
		var deep *[]int
		if c.Intn(3) == 0 {
			d := make([]int, len(fm.Data))
			deep = &d
		}
		c.Log("growth", fmt.Sprintf("round %d: cases %v candidates %v mTry %d leafSize %d maxDepth %d splitmissing %v force %v vet %v evaloob %v random %v",
			round, cases, cands, mTry, g.leafSize, g.maxDepth, splitmissing, force, vet, evaloob, extra))
		keep := append([]int{}, cases...)
		tree.Grow(fm, target, cases, cands, oob, mTry, g.leafSize, g.maxDepth, splitmissing, force, vet, evaloob, extra, imp, deep, NewBestSplitAllocs(n, target))
		g.walk(c, tree.Root, keep, 0, "")
		total += g.nodes
	}
	if total == rounds {
		c.Trivial()
	}
}
