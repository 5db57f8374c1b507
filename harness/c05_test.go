package CloudForest

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	vRegister("shuffle", 3000, c05Shuffle)
	vRegister("cases", 3000, c05Cases)
	vRegister("matrix", 1500, c05Matrix)
}

func c05Feature(c *vCase, name string, n int) Feature {
	pm := []float64{0, .2, .6}[c.Intn(3)]
	if c.Intn(2) == 0 {
		return vNum(c, name, n, pm)
	}
	return vCat(c, name, n, 1+c.Intn(6), pm)
}

// c05Bag is the multiset of entries of the listed cases.
func c05Bag(f Feature, cases []int) string {
	var s []string
	for _, i := range cases {
		if f.IsMissing(i) {
			s = append(s, "missing")
		} else {
			s = append(s, "v"+f.GetStr(i))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "|")
}

func c05All(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func c05Shuffle(c *vCase) {
	n := c.Intn(25)
	f := c05Feature(c, "f", n)
	c.Log("feature", vShow(f))
	bag := c05Bag(f, c05All(n))
	snap := vSnap(f)
	g := f.ShuffledCopy()
	c.Check(vSnap(f) == snap, "taking a shuffled copy changed the feature: %s -> %s", snap, vSnap(f))
	c.Check(g.GetName() == "f:SHUFFLED", "name %q", g.GetName())
	c.Check(g.Length() == n && c05Bag(g, c05All(n)) == bag, "shuffled copy holds other entries: %s -> %s", bag, c05Bag(g, c05All(n)))
	c.Check(!f.MissingVals() || g.MissingVals(), "shuffled copy forgot that it has missing values")
	// writing to the copy does not reach the original
	for i := 0; i < n; i++ {
		if c.Intn(2) == 0 {
			g.PutMissing(i)
		} else {
			g.PutStr(i, fmt.Sprint(1000+i))
		}
	}
	g.Shuffle()
	c.Check(vSnap(f) == snap, "changing the shuffled copy changed the feature: %s -> %s", snap, vSnap(f))
	f.Shuffle()
	c.Check(f.Length() == n && f.GetName() == "f", "shuffle changed length or name")
	c.Check(c05Bag(f, c05All(n)) == bag, "shuffle lost or invented entries: %s -> %s", bag, c05Bag(f, c05All(n)))
	if n < 2 {
		c.Trivial()
	}
}

func c05Cases(c *vCase) {
	n := 1 + c.Intn(25)
	f := c05Feature(c, "f", n)
	cases := vCases(c, n)
	c.Log("feature", vShow(f))
	c.Log("cases", append([]int{}, cases...))
	allocs := NewBestSplitAllocs(n, f.(Target))
	in := map[int]bool{}
	for _, i := range cases {
		in[i] = true
	}
	var uniq []int
	for i := range in {
		uniq = append(uniq, i)
	}
	bag := c05Bag(f, uniq)
	before := f.Copy()
	lst := append([]int{}, cases...)
	f.ShuffleCases(&cases, allocs)
	c.Check(vSameInts(lst, cases), "case list changed")
	c.Check(f.Length() == n, "length changed")
	c.Check(c05Bag(f, uniq) == bag, "shuffling cases lost or invented entries: %s -> %s", bag, c05Bag(f, uniq))
	for i := 0; i < n; i++ {
		if !in[i] {
			c.Check(f.IsMissing(i) == before.IsMissing(i) && f.GetStr(i) == before.GetStr(i), "unlisted case %d changed", i)
		}
	}
}

func c05Matrix(c *vCase) {
	n := 1 + c.Intn(12)
	nf := 1 + c.Intn(5)
	fm := &FeatureMatrix{Map: map[string]int{}}
	for i := 0; i < n; i++ {
		fm.CaseLabels = append(fm.CaseLabels, fmt.Sprint(i))
	}
	orig := map[string]Feature{}
	snaps := []string{}
	var fs []Feature
	for k := 0; k < nf; k++ {
		f := c05Feature(c, fmt.Sprintf("F%d", k), n)
		fm.Map[f.GetName()] = k
		fm.Data = append(fm.Data, f)
		orig[f.GetName()] = f
		fs = append(fs, f)
		snaps = append(snaps, vSnap(f))
		c.Log("feature", vShow(f))
	}
	m := c.Intn(7)
	all := c.Intn(2) == 0
	if all {
		m = nf
		c.Log("contrast all", "")
		fm.ContrastAll()
	} else {
		c.Log("add contrasts", m)
		fm.AddContrasts(m)
	}
	c.Check(len(fm.Data) == nf+m, "%d features, want %d", len(fm.Data), nf+m)
	for k := 0; k < nf; k++ {
		c.Check(fm.Data[k] == fs[k], "feature %d was replaced", k)
		c.Check(vSnap(fs[k]) == snaps[k], "feature %d changed: %s -> %s", k, snaps[k], vSnap(fs[k]))
		c.Check(fm.Map[fs[k].GetName()] == k, "feature %d no longer found under its name", k)
	}
	used := map[string]bool{}
	for k := nf; k < nf+m; k++ {
		g := fm.Data[k]
		name := g.GetName()
		c.Check(strings.HasSuffix(name, ":SHUFFLED"), "contrast named %q", name)
		o := orig[strings.TrimSuffix(name, ":SHUFFLED")]
		c.Check(o != nil, "contrast %q of an unknown feature", name)
		c.Check(o.Length() == g.Length() && c05Bag(o, c05All(n)) == c05Bag(g, c05All(n)), "contrast %q holds other entries", name)
		i, ok := fm.Map[name]
		c.Check(ok && i >= nf && i < len(fm.Data) && fm.Data[i].GetName() == name, "contrast %q cannot be found", name)
		c.Check(!all || !used[name], "feature contrasted twice")
		used[name] = true
	}
}
