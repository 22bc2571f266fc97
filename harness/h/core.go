// Package h holds the case runner, the monitors and the reference model shared by all checks.
package h

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// R is the random source of one case, fully determined by (seed, property, category, index).
type R struct {
	*rand.Rand
	Extra    []reflect.Type // types that RandType also uses
	Variants []reflect.Type // and as variants
}

func NewR(parts ...interface{}) *R {
	s := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return &R{Rand: rand.New(rand.NewPCG(binary.LittleEndian.Uint64(s[:8]), binary.LittleEndian.Uint64(s[8:16])))}
}

func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return r.IntN(n)
}
func (r *R) Chance(num, den int) bool { return r.IntN(den) < num }
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; {
		v := r.Uint64()
		for j := 0; j < 8 && i < n; j++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return b
}
func Pick[T any](r *R, l []T) T { return l[r.IntN(len(l))] }

type Category struct {
	Name            string
	Quick, Thorough int
	Run             func(c *C)
}

// How often the quick counts are run: the counts are those that found every planted bug, the rest is margin.
var quickScale = map[string]int{"C01": 16, "C02": 12, "C03": 8, "C04": 4, "C05": 3, "C06": 2, "C07": 3, "C08": 3, "C10": 12, "C11": 12, "C12": 12,
	"C14": 16, "C15": 16, "C16": 2, "C17": 16, "C18": 16, "C19": 12, "C20": 12, "C21": 12, "C23": 6, "C25": 10, "C26": 10, "C27": 4, "C30": 4}

// thorough counts of the random categories
var thoroughScale = map[string]int{"C01": 8, "C02": 6, "C03": 5, "C04": 3, "C05": 3, "C06": 2, "C07": 2, "C08": 2, "C10": 6, "C11": 6, "C12": 6, "C17": 3, "C18": 3, "C19": 2, "C20": 2, "C21": 2, "C23": 3, "C25": 5, "C26": 5}

// Cases is the number of cases of a category. Enumerated ones have the same count in both tiers.
func (cat Category) Cases(prop, tier string) int {
	th := cat.Thorough
	if s := thoroughScale[prop]; s > 1 && cat.Quick < th && th >= 10000 && cat.Name != "short" && cat.Name != "days" {
		th *= s
	}
	if tier == "thorough" {
		return th
	}
	if s := quickScale[prop]; s > 1 {
		return min(cat.Quick*s, cat.Thorough)
	}
	return cat.Quick
}

type Prop struct {
	ID          string
	Rule        string
	Level       string
	Cats        []Category
	Assumptions []string
	MinEvents   int // fewer observed events than this make the run inconclusive
	Single      bool
}

var Props = map[string]*Prop{}

func Register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	Props[p.ID] = p
}

// C is the context of a running case.
type C struct {
	R    *R
	Prop string
	Cat  string
	Idx  int
	Seed int64
	Tier string
	res  *Result
	desc string
}

type failure struct{ msg string }

// Fail reports a violation and ends the case.
func (c *C) Fail(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Desc records what the case is doing, for reports of panics.
func (c *C) Desc(format string, a ...interface{}) { c.desc = fmt.Sprintf(format, a...) }

// Event counts observations made by a monitor.
func (c *C) Event(kind string, n int) {
	c.res.mu.Lock()
	c.res.Events[kind] += n
	c.res.mu.Unlock()
}

// Distinct registers a non-trivial case by its content.
func (c *C) Distinct(parts ...interface{}) {
	hh := fnv64(fmt.Sprint(parts...))
	c.res.mu.Lock()
	c.res.distinct[hh] = struct{}{}
	c.res.mu.Unlock()
}
func (c *C) DistinctBytes(tag string, b []byte) {
	hh := fnv64(tag) ^ fnvb(b)*31
	c.res.mu.Lock()
	c.res.distinct[hh] = struct{}{}
	c.res.mu.Unlock()
}

func (c *C) Sample(format string, a ...interface{}) {
	c.res.mu.Lock()
	defer c.res.mu.Unlock()
	if c.res.sampleCount[c.Cat] < 2 {
		c.res.sampleCount[c.Cat]++
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.res.Samples = append(c.res.Samples, fmt.Sprintf("%s/%d: %s", c.Cat, c.Idx, s))
	}
}

func fnv64(s string) uint64 { return fnvb([]byte(s)) }
func fnvb(b []byte) uint64 {
	x := uint64(14695981039346656037)
	for _, v := range b {
		x ^= uint64(v)
		x *= 1099511628211
	}
	return x
}

type Violation struct {
	Property string `json:"property"`
	Category string `json:"category"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Detail   string `json:"detail"`
}

type Result struct {
	mu          sync.Mutex
	Done        bool           `json:"done"`
	Cases       int            `json:"cases"`
	CatCases    map[string]int `json:"cat_cases"`
	Events      map[string]int `json:"events"`
	Samples     []string       `json:"samples"`
	Distinct    []uint64       `json:"distinct"`
	Violation   *Violation     `json:"violation,omitempty"`
	distinct    map[uint64]struct{}
	sampleCount map[string]int
}

func NewResult() *Result {
	return &Result{CatCases: map[string]int{}, Events: map[string]int{}, distinct: map[uint64]struct{}{}, sampleCount: map[string]int{}}
}

type ChildOpts struct {
	Prop    string
	Seed    int64
	Tier    string
	Shard   int
	Shards  int
	OnlyCat string // replay
	OnlyIdx int
	Out     string // result file
	Journal string
	Exe     string // program to run it with, this one if empty
}

// per-case limit on CPU time, no case comes anywhere near it
const cpuLimit = 60.0

// a case that makes no progress at all for this many ticks of a second is blocked
const blockedTicks = 180

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// RunChild runs the cases of one shard in this process.
func RunChild(o ChildOpts) int {
	p := Props[o.Prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.Prop)
		return 2
	}
	debug.SetMaxStack(512 << 20)
	if !raceBuild {
		// runaway allocation ends this process, not the machine
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	}
	res := NewResult()
	var jf *os.File
	if o.Journal != "" {
		jf, _ = os.OpenFile(o.Journal, os.O_CREATE|os.O_RDWR, 0o644)
	}
	var caseNo atomic.Int64
	var curMu sync.Mutex
	var cur Violation
	finish := func() {
		res.mu.Lock()
		defer res.mu.Unlock()
		for k := range res.distinct {
			res.Distinct = append(res.Distinct, k)
		}
		sort.Slice(res.Distinct, func(i, j int) bool { return res.Distinct[i] < res.Distinct[j] })
		b, _ := json.Marshal(res)
		os.WriteFile(o.Out, b, 0o644)
	}
	go func() {
		last, start, lastCPU, idle := int64(-1), 0.0, 0.0, 0
		for {
			time.Sleep(time.Second)
			n, cpu := caseNo.Load(), cpuSeconds()
			if n != last {
				last, start, lastCPU, idle = n, cpu, cpu, 0
				continue
			}
			if cpu-lastCPU < 0.02 {
				idle++
			} else {
				idle = 0
			}
			lastCPU = cpu
			if cpu-start > cpuLimit || idle > blockedTicks {
				curMu.Lock()
				v := cur
				curMu.Unlock()
				v.Detail = fmt.Sprintf("call does not return: %.0f s of CPU time used, blocked for %d s", cpu-start, idle)
				res.mu.Lock()
				res.Violation = &v
				res.mu.Unlock()
				finish()
				os.Exit(0)
			}
		}
	}()
	k := 0
	for _, cat := range p.Cats {
		n := cat.Cases(p.ID, o.Tier)
		for i := 0; i < n; i++ {
			if o.OnlyCat != "" {
				if cat.Name != o.OnlyCat || i != o.OnlyIdx {
					continue
				}
			} else {
				k++
				if k%o.Shards != o.Shard {
					continue
				}
			}
			curMu.Lock()
			cur = Violation{Property: o.Prop, Category: cat.Name, Index: i, Seed: o.Seed}
			curMu.Unlock()
			if jf != nil {
				jf.WriteAt([]byte(fmt.Sprintf("%-40s %10d\n", cat.Name, i)), 0)
			}
			caseNo.Add(1)
			c := &C{R: NewR(o.Seed, "/", o.Prop, "/", cat.Name, "/", i), Prop: o.Prop, Cat: cat.Name, Idx: i, Seed: o.Seed, Tier: o.Tier, res: res}
			if msg := runCase(cat.Run, c); msg != "" {
				v := cur
				v.Detail = msg
				res.Violation = &v
				finish()
				return 0
			}
			res.Cases++
			res.CatCases[cat.Name]++
		}
	}
	res.Done = true
	finish()
	return 0
}

func runCase(f func(c *C), c *C) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if fl, ok := e.(failure); ok {
				msg = fl.msg
				if c.desc != "" {
					msg += " [" + c.desc + "]"
				}
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v [%s]\n%s", e, c.desc, st)
		}
	}()
	f(c)
	return ""
}

// Hex is a shortened hex dump.
func Hex(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x..(%d bytes)..%x", b[:64], len(b), b[len(b)-16:])
	}
	return fmt.Sprintf("%x", b)
}
