package CloudForest

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
)

func init() { vRegister("forests written and read back", 6000, c18) }

var c18Words = []string{"a", "B", "true", "N:x", "value one", "é", "x-y", "0", "1.5", "-2", "TREE", "NODE", "FOREST", "*", "*LR", "L", "%d", "100%", "'q'", "(z)", "|", "\\n", "NA", "PRED"}

type c18Gen struct {
	*vCase
	depth int
	long  string
	feats []string
	count int
}

func (g *c18Gen) word() string {
	w := c18Words[g.Intn(len(c18Words))]
	if g.Intn(3) == 0 {
		w += c18Words[g.Intn(len(c18Words))]
	}
	if g.long != "" && g.Intn(6) == 0 {
		w += g.long
	}
	w = strings.Replace(w, ":", "", -1)
	return w
}

func (g *c18Gen) num() float64 {
	switch g.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(g.Intn(20) - 10)
	case 2:
		return g.NormFloat64() * 1e-12
	case 3:
		return g.NormFloat64() * 1e15
	case 4:
		return []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1e21, 123456789.125, math.Inf(1), math.Inf(-1)}[g.Intn(7)]
	case 5:
		return float64(float32(g.NormFloat64()))
	}
	return g.NormFloat64()
}

func (g *c18Gen) node(d int) *Node {
	g.count++
	n := &Node{}
	if g.Intn(4) > 0 {
		n.Pred = g.word()
		if g.Intn(3) == 0 {
			n.Pred = fmt.Sprintf("%v", g.num())
		}
	}
	if d >= g.depth || g.count > 100 || d > 0 && g.Intn(4) == 0 {
		return n
	}
	s := &Splitter{}
	if len(g.feats) > 0 {
		s.Feature = g.feats[g.Intn(len(g.feats))]
	} else {
		s.Feature = g.word()
	}
	if g.Intn(2) == 0 {
		s.Numerical = true
		s.Value = g.num()
	} else {
		s.Left = map[string]bool{}
		for k := 1 + g.Intn(6); k > 0; k-- {
			s.Left[g.word()] = true
		}
		for k := g.Intn(3); k > 0; k-- {
			w := g.word()
			if !s.Left[w] {
				s.Left[w] = false
			}
		}
	}
	n.Splitter = s
	n.Left = g.node(d + 1)
	n.Right = g.node(d + 1)
	if g.Intn(3) == 0 {
		n.Missing = g.node(d + 1)
	}
	return n
}

func c18Lefts(m map[string]bool) string {
	var l []string
	for k, v := range m {
		if v {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "|;|")
}

func c18Same(c *vCase, where string, a, b *Node) {
	c.Check((a == nil) == (b == nil), "%s: written %v, read back %v", where, a != nil, b != nil)
	if a == nil {
		return
	}
	c.Check(a.Pred == b.Pred, "%s: prediction %q read back as %q", where, a.Pred, b.Pred)
	c.Check((a.Splitter == nil) == (b.Splitter == nil), "%s: has a splitter: written %v, read back %v", where, a.Splitter != nil, b.Splitter != nil)
	if a.Splitter != nil {
		x, y := a.Splitter, b.Splitter
		c.Check(x.Feature == y.Feature, "%s: splitter on %q read back as %q", where, x.Feature, y.Feature)
		c.Check(x.Numerical == y.Numerical, "%s: numerical %v read back as %v", where, x.Numerical, y.Numerical)
		if x.Numerical {
			c.Check(x.Value == y.Value, "%s: split at %v read back as %v", where, x.Value, y.Value)
		} else {
			c.Check(c18Lefts(x.Left) == c18Lefts(y.Left), "%s: left categories %v read back as %v", where, x.Left, y.Left)
		}
	}
	c18Same(c, where+"L", a.Left, b.Left)
	c18Same(c, where+"R", a.Right, b.Right)
	c18Same(c, where+"M", a.Missing, b.Missing)
}

func c18Tree(c *vCase, where string, a, b *Tree) {
	c.Check(b != nil, "%s is missing", where)
	c.Check(a.Target == b.Target, "%s: target %q read back as %q", where, a.Target, b.Target)
	if a.Weight >= 0 {
		c.Check(a.Weight == b.Weight, "%s: weight %v read back as %v", where, a.Weight, b.Weight)
	} else {
		c.Check(b.Weight < 0, "%s: no weight, read back as %v", where, b.Weight)
	}
	c18Same(c, where+" node *", a.Root, b.Root)
}

func c18Forest(c *vCase, a, b *Forest, err error) {
	c.Check(err == nil || err == io.EOF, "reading fails: %v", err)
	c.Check(b != nil, "no forest read back")
	c.Check(a.Target == b.Target, "target %q read back as %q", a.Target, b.Target)
	c.Check(a.Intercept == b.Intercept, "intercept %v read back as %v", a.Intercept, b.Intercept)
	c.Check(len(a.Trees) == len(b.Trees), "%d trees read back as %d", len(a.Trees), len(b.Trees))
	for i := range a.Trees {
		c18Tree(c, fmt.Sprintf("tree %d", i), a.Trees[i], b.Trees[i])
	}
}

// hands out the text in small pieces, as a file or a pipe may
type c18Reader struct {
	s string
	n int
}

func (r *c18Reader) Read(p []byte) (int, error) {
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	k := r.n
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.s) {
		k = len(r.s)
	}
	copy(p, r.s[:k])
	r.s = r.s[k:]
	return k, nil
}

func c18(c *vCase) {
	g := &c18Gen{vCase: c, depth: []int{0, 1, 2, 3, 5, 14}[c.Intn(6)]}
	if c.Intn(8) == 0 {
		g.long = strings.Repeat("w", 1000+c.Intn(5000))
	}
	var fm *FeatureMatrix
	n := 1 + c.Intn(12)
	if c.Intn(3) == 0 {
		fm = &FeatureMatrix{Map: map[string]int{}}
		for k := 0; k < 1+c.Intn(4); k++ {
			name := fmt.Sprintf("F%d", k)
			var f Feature
			if c.Intn(2) == 0 {
				f = vNum(c, name, n, 0.2)
			} else {
				f = vCat(c, name, n, 1+c.Intn(5), 0.2)
			}
			fm.Map[name] = len(fm.Data)
			fm.Data = append(fm.Data, f)
		}
	}
	target := g.word()
	forest := &Forest{Target: target}
	if c.Intn(2) == 0 {
		forest.Intercept = g.num()
	}
	for k := 1 + c.Intn(5); k > 0; k-- {
		t := &Tree{Target: target, Root: g.node(0)}
		if c.Intn(4) == 0 {
			t.Target = g.word()
		}
		switch c.Intn(4) {
		case 0:
			t.Weight = -1
		case 1:
			t.Weight = 0
		case 2:
			t.Weight = math.Abs(g.num())
		case 3:
			t.Weight = c.Float64()
		}
		forest.Trees = append(forest.Trees, t)
	}
	if fm != nil {
		// splits that fit the matrix, so that the trees can vote on it
		for _, t := range forest.Trees {
			t.Root.Climb(func(n *Node) {
				if n.Splitter == nil {
					return
				}
				f := fm.Data[c.Intn(len(fm.Data))]
				n.Splitter = &Splitter{Feature: f.GetName()}
				if d, ok := f.(*DenseCatFeature); ok {
					n.Splitter.Left = map[string]bool{}
					for _, l := range d.Back {
						if c.Intn(2) == 0 {
							n.Splitter.Left[l] = true
						}
					}
					n.Splitter.Left["never seen"] = true
				} else {
					n.Splitter.Numerical = true
					n.Splitter.Value = float64(c.Intn(7)) - 3
				}
			})
		}
	}
	var buf bytes.Buffer
	NewForestWriter(&buf).WriteForest(forest)
	text := buf.String()
	c.Log("file", text)
	if g.count < 2 {
		c.Trivial()
	}
	trim := c.Intn(3) == 0
	if trim {
		text = strings.TrimRight(text, "\n")
		c.Log("last line", "without a line break")
	}
	var in io.Reader = strings.NewReader(text)
	if c.Intn(2) == 0 {
		in = &c18Reader{text, []int{1, 7, 100, 4096}[c.Intn(4)]}
	}
	if c.Intn(4) > 0 {
		back, err := NewForestReader(in).ReadForest()
		c18Forest(c, forest, back, err)
		if fm != nil {
			for i := 0; i < n; i++ {
				for k := range forest.Trees {
					a, b := NewCatBallotBox(n), NewCatBallotBox(n)
					forest.Trees[k].Vote(fm, a)
					back.Trees[k].Vote(fm, b)
					c.Check(a.Tally(i) == b.Tally(i), "tree %d votes %q for case %d before and %q after", k, a.Tally(i), i, b.Tally(i))
				}
			}
		}
		// a second round trip says the same again
		var buf2 bytes.Buffer
		NewForestWriter(&buf2).WriteForest(back)
		again, err := NewForestReader(strings.NewReader(buf2.String())).ReadForest()
		c18Forest(c, forest, again, err)
		return
	}
	// tree by tree
	fr := NewForestReader(in)
	k := 0
	head := false
	for {
		t, f, err := fr.ReadTree()
		if f != nil {
			c.Check(!head, "two forest headers read back")
			head = true
			c.Check(f.Target == forest.Target && f.Intercept == forest.Intercept, "forest header %q %v read back as %q %v", forest.Target, forest.Intercept, f.Target, f.Intercept)
		}
		if t != nil {
			c.Check(k < len(forest.Trees), "more trees read back than written")
			c18Tree(c, fmt.Sprintf("tree %d", k), forest.Trees[k], t)
			k++
		}
		if err != nil {
			c.Check(err == io.EOF, "reading fails: %v", err)
			break
		}
		c.Check(t != nil, "ReadTree returns neither a tree nor an error")
	}
	c.Check(k == len(forest.Trees), "%d trees written, %d read back", len(forest.Trees), k)
}
