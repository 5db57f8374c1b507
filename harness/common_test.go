package CloudForest

// Failing-input search: runs a property's oracle on generated cases against the real code.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vCase struct {
	*rand.Rand
	N      int
	Name   string
	Input  []string
	failed string
	known  string
	triv   bool
}

type vStop struct{}

func (c *vCase) Log(name string, v interface{}) { c.Input = append(c.Input, fmt.Sprintf("%s = %v", name, v)) }
func (c *vCase) Trivial()                       { c.triv = true }
func (c *vCase) Fail(f string, a ...interface{}) {
	c.failed = fmt.Sprintf(f, a...)
	panic(vStop{})
}
func (c *vCase) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		c.Fail(f, a...)
	}
}

type vOut struct {
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Samples     []json.RawMessage `json:"samples"`
	Fails       []json.RawMessage `json:"fails"`
	Known       []string          `json:"known"`
	Ran         bool              `json:"ran"`
}

type vTest struct {
	Name string
	N    int // number of cases in the quick tier
	F    func(c *vCase)
}

var vTests []vTest
var vOnce []func()

func vRegister(name string, n int, f func(c *vCase)) { vTests = append(vTests, vTest{name, n, f}) }

func vEnv(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

func vRunOne(tst vTest, seed, i int, limit time.Duration) *vCase {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", tst.Name, seed, i)
	c := &vCase{Rand: rand.New(rand.NewSource(int64(h.Sum64() >> 1))), N: i, Name: tst.Name}
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vStop); !ok && c.failed == "" {
					buf := make([]byte, 3000)
					buf = buf[:runtime.Stack(buf, false)]
					c.failed = fmt.Sprintf("panic: %v\n%s", r, buf)
				}
			}
			done <- true
		}()
		rand.Seed(int64(h.Sum64() >> 2))
		tst.F(c)
	}()
	stop := time.After(limit)
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		over := false
		select {
		case <-done:
			return c
		case <-stop:
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			over = ms.HeapAlloc > 8<<30
			if !over {
				continue
			}
		}
		buf := make([]byte, 6000)
		buf = buf[:runtime.Stack(buf, true)]
		d := &vCase{N: i, Name: tst.Name, failed: "no result within " + limit.String() + " (or memory runs away): " + string(buf)}
		if over {
			vOver = true
		}
		return d
	}
}

var vOver bool

func TestVerif(t *testing.T) {
	out := vOut{Ran: true}
	seed := vEnv("VERIF_SEED", 1)
	mult := 1
	budget := 40 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		mult = 20
		budget = 500 * time.Second
	}
	start := time.Now()
	seen := map[uint64]bool{}
	file := os.Getenv("VERIF_OUT")
	save := func() {
		if file != "" {
			b, _ := json.Marshal(out)
			os.WriteFile(file, b, 0644)
		}
	}
	defer save()
	for ti, tst := range vTests {
		samples := 0
		per := budget * time.Duration(ti+1) / time.Duration(len(vTests))
		for i := 0; i < tst.N*mult; i++ {
			if i >= 20 && time.Since(start) > per {
				break
			}
			if file != "" && i%50 == 0 {
				os.WriteFile(file+".current", []byte(fmt.Sprintf("%s, cases from %d on (seed %d)", tst.Name, i, seed)), 0644)
			}
			c := vRunOne(tst, seed, i, 30*time.Second)
			out.Evaluations++
			if !c.triv {
				h := fnv.New64a()
				h.Write([]byte(tst.Name + strings.Join(c.Input, ";")))
				if !seen[h.Sum64()] {
					seen[h.Sum64()] = true
					out.Distinct++
				}
				if samples < 1 && i > 2 && len(out.Samples) < 6 {
					samples++
					b, _ := json.Marshal(map[string]interface{}{"test": tst.Name, "case": i, "input": clip(c.Input)})
					out.Samples = append(out.Samples, b)
				}
			}
			if c.failed != "" {
				b, _ := json.Marshal(map[string]interface{}{"test": tst.Name, "case": i, "seed": seed, "input": clip(c.Input), "what": c.failed})
				out.Fails = append(out.Fails, b)
				t.Logf("%s case %d: %s\n  input: %s", tst.Name, i, c.failed, strings.Join(clip(c.Input), "\n         "))
				if vOver {
					save()
					os.Exit(1)
				}
				break // next test
			}
		}
		save()
	}
	if len(out.Fails) > 0 {
		t.Fail()
	}
}

func clip(in []string) []string {
	var r []string
	for _, s := range in {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		r = append(r, s)
	}
	return r
}

// ---------- generators and oracles shared by the properties ----------

func vClose(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-7 || d <= 1e-7*math.Max(math.Abs(a), math.Abs(b))
}

// vNum makes a numerical feature with ties; missing with probability pm.
func vNum(c *vCase, name string, n int, pm float64) *DenseNumFeature {
	f := &DenseNumFeature{Name: name}
	style := c.Intn(4)
	for i := 0; i < n; i++ {
		if c.Float64() < pm {
			f.Append("NA")
			continue
		}
		var v float64
		switch style {
		case 0:
			v = float64(c.Intn(3))
		case 1:
			v = float64(c.Intn(20)) / 2
		case 2:
			v = float64(c.Intn(2000)-1000) / 8
		default:
			v = -float64(c.Intn(8))
		}
		f.Append(strconv.FormatFloat(v, 'g', -1, 64))
	}
	return f
}

// vCat makes a categorical feature over k labels.
func vCat(c *vCase, name string, n, k int, pm float64) *DenseCatFeature {
	f := &DenseCatFeature{CatMap: &CatMap{Map: map[string]int{}, Back: []string{}}, Name: name}
	for i := 0; i < n; i++ {
		if c.Float64() < pm {
			f.Append("NA")
			continue
		}
		f.Append(fmt.Sprintf("c%d", c.Intn(k)))
	}
	return f
}

func vShow(f Feature) string {
	var s []string
	for i := 0; i < f.Length(); i++ {
		if f.IsMissing(i) {
			s = append(s, "NA")
		} else {
			s = append(s, f.GetStr(i))
		}
	}
	return f.GetName() + "[" + strings.Join(s, " ") + "]"
}

// vSubset draws distinct or repeated cases.
func vCases(c *vCase, n int) []int {
	m := c.Intn(n + 1)
	if c.Intn(3) == 0 {
		r := c.Perm(n)
		return r[:m]
	}
	r := make([]int, m)
	for i := range r {
		r[i] = c.Intn(n)
	}
	return r
}

func vKnown(f Feature, cases []int) []int {
	var r []int
	for _, i := range cases {
		if !f.IsMissing(i) {
			r = append(r, i)
		}
	}
	return r
}

func vSorted(a []int) []int {
	b := append([]int{}, a...)
	sort.Ints(b)
	return b
}

func vSameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vSameBag(a, b []int) bool { return vSameInts(vSorted(a), vSorted(b)) }

// vSnap records everything observable about a feature.
func vSnap(f Feature) string {
	s := f.GetName()
	for i := 0; i < f.Length(); i++ {
		s += fmt.Sprintf("|%v:%s", f.IsMissing(i), f.GetStr(i))
	}
	if cf, ok := f.(*DenseCatFeature); ok {
		s += "#"
		for k := 0; k < cf.NCats(); k++ {
			s += cf.NumToCat(k) + ","
		}
	}
	return s
}
