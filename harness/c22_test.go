package CloudForest

import "fmt"

func init() { vRegister("flat export of random trees", 4000, c22) }

func c22Tree(c *vCase, d int) *Node {
	if d == 0 || c.Intn(3) == 0 {
		n := &Node{Pred: fmt.Sprint(c.Intn(9))}
		if c.Intn(3) == 0 {
			n.Featurei = c.Intn(5)
		}
		return n
	}
	n := &Node{Featurei: c.Intn(5)}
	n.Splitter = &Splitter{Feature: fmt.Sprintf("f%d", n.Featurei), Numerical: true, Value: float64(c.Intn(100)) / 4}
	n.CodedSplit = n.Splitter.Value
	n.Left, n.Right = c22Tree(c, d-1), c22Tree(c, d-1)
	return n
}

func c22Text(n *Node) string {
	if n.Splitter == nil {
		return "."
	}
	return fmt.Sprintf("(f%d<=%v %s %s)", n.Featurei, n.Splitter.Value, c22Text(n.Left), c22Text(n.Right))
}

func c22(c *vCase) {
	root := c22Tree(c, 1+c.Intn(6))
	nf := 1 + c.Intn(8)
	t := NewScikitTree(nf)
	c.Log("tree", c22Text(root))
	BuildScikitTree(0, root, t)
	next, deep := 0, 0
	var walk func(n *Node, d int)
	walk = func(n *Node, d int) {
		p := next
		next++
		if d > deep {
			deep = d
		}
		if p >= len(t.Nodes) {
			c.Fail("the export has only %d entries", len(t.Nodes))
		}
		e := t.Nodes[p]
		if n.Splitter == nil {
			c.Check(e.LeftChild == -1 && e.RightChild == -1, "the leaf at %d has children %d %d", p, e.LeftChild, e.RightChild)
			return
		}
		c.Check(e.Feature == n.Featurei && e.Threshold == n.Splitter.Value, "entry %d splits feature %d at %v, the node splits %d at %v", p, e.Feature, e.Threshold, n.Featurei, n.Splitter.Value)
		c.Check(e.LeftChild == next, "entry %d has its left child at %d, it is at %d", p, e.LeftChild, next)
		walk(n.Left, d+1)
		c.Check(e.RightChild == next, "entry %d has its right child at %d, it is at %d", p, e.RightChild, next)
		walk(n.Right, d+1)
	}
	walk(root, 0)
	c.Check(len(t.Nodes) == next && t.NodeCount == next && t.Capacity == next, "%d nodes: %d entries, node count %d, capacity %d", next, len(t.Nodes), t.NodeCount, t.Capacity)
	c.Check(t.MaxDepth == deep && t.NFeatures == nf, "depth %d, recorded %d; features %d", deep, t.MaxDepth, t.NFeatures)
}
