// Shared monitor runtime. run.py copies this file into every harness package
// (replacing the package name) and builds it through an overlay.
package VPKG

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

type vH struct {
	prop          string
	tier          string
	seed          int64
	shard, nshard int
	only          string
	out           *os.File
	mu            sync.Mutex
	idx           int
	evals         int64
	distinct      map[uint64]struct{}
	counters      map[string]int64
	samples       []string
	nviol         int

	curMu    sync.Mutex
	cur      string
	curStart float64 // cpu seconds at the start of the case
	cpuLimit float64
	memLimit uint64
	stuck    time.Duration
}

type vC struct {
	h    *vH
	Name string
	R    *rand.Rand
}

type vAbort struct{ msg string }

var vTickN, vTickMax int64

// vTick is called from hooks (symbol XOR/Hash, module callbacks); it turns
// non-termination into a deterministic, step-counted violation.
func vTick() {
	n := atomic.AddInt64(&vTickN, 1)
	if m := atomic.LoadInt64(&vTickMax); m > 0 && n > m {
		panic(vAbort{fmt.Sprintf("step budget of %d operations exceeded: no progress", m)})
	}
}

func vCPU() float64 {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)/1e6
}

func vHash64(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

func vMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func vMain(t *testing.T, prop string, body func(h *vH)) {
	if want := os.Getenv("VERIF_PROP"); want != prop {
		t.Skip()
	}
	h := &vH{prop: prop, tier: os.Getenv("VERIF_TIER"), only: os.Getenv("VERIF_CASE"),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, cpuLimit: 170, memLimit: 3 << 30, stuck: 100 * time.Second}
	h.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h.nshard = 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &h.shard, &h.nshard)
	}
	f, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	if err != nil {
		t.Fatal(err)
	}
	h.out = f
	go h.watch()
	body(h)
	h.finish()
}

func (h *vH) Quick() bool { return h.tier != "thorough" }

// N picks the number of cases by tier.
func (h *vH) N(quick, thorough int) int {
	if h.Quick() {
		return quick
	}
	return thorough
}

func (h *vH) emit(m map[string]any) {
	b, _ := json.Marshal(m)
	h.mu.Lock()
	h.out.Write(append(b, '\n'))
	h.mu.Unlock()
}

func (h *vH) finish() {
	keys := make([]string, 0, len(h.distinct))
	for k := range h.distinct {
		keys = append(keys, strconv.FormatUint(k, 36))
	}
	sort.Strings(keys)
	h.emit(map[string]any{"t": "done", "evals": h.evals, "distinct": keys, "counters": h.counters, "samples": h.samples})
	h.out.Close()
}

func (h *vH) watch() {
	lastCPU, lastT := vCPU(), time.Now()
	for {
		time.Sleep(300 * time.Millisecond)
		h.curMu.Lock()
		cur, st := h.cur, h.curStart
		h.curMu.Unlock()
		if cur == "" {
			lastCPU, lastT = vCPU(), time.Now()
			continue
		}
		c := vCPU()
		why := ""
		if c-st > h.cpuLimit {
			why = fmt.Sprintf("case still running after %.0f s of CPU time (cases normally take a few seconds): not terminating", c-st)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > h.memLimit {
			why = fmt.Sprintf("heap grew to %d MB: runaway memory", ms.HeapAlloc>>20)
		}
		if c-lastCPU > 0.25 {
			lastCPU, lastT = c, time.Now()
		} else if time.Since(lastT) > h.stuck {
			why = "no goroutine has run for a long time: blocked forever (deadlock)"
		}
		if why != "" {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			h.emit(map[string]any{"t": "viol", "case": cur, "msg": why, "stack": string(buf[:n])})
			os.Exit(3)
		}
	}
}

// Case runs one generated case. Names are unique and determine the case
// together with the seed, so a name is a replay handle.
func (h *vH) Case(name string, fn func(c *vC)) {
	h.idx++
	if h.only != "" {
		if h.only != name {
			return
		}
	} else if h.idx%h.nshard != h.shard {
		return
	}
	if h.nviol >= 5 {
		return
	}
	c := &vC{h: h, Name: name, R: rand.New(rand.NewSource(int64(vHash64(fmt.Sprintf("%s|%d|%s", h.prop, h.seed, name)))))}
	h.emit(map[string]any{"t": "begin", "case": name})
	h.curMu.Lock()
	h.cur, h.curStart = name, vCPU()
	h.curMu.Unlock()
	atomic.StoreInt64(&vTickN, 0)
	atomic.StoreInt64(&vTickMax, 0)
	func() {
		defer func() {
			if e := recover(); e != nil {
				h.nviol++
				if a, ok := e.(vAbort); ok {
					h.emit(map[string]any{"t": "viol", "case": name, "msg": a.msg})
				} else {
					h.emit(map[string]any{"t": "viol", "case": name, "msg": fmt.Sprintf("panic: %v", e), "stack": string(debug.Stack())})
				}
			}
		}()
		fn(c)
	}()
	atomic.StoreInt64(&vTickMax, 0)
	h.curMu.Lock()
	h.cur = ""
	h.curMu.Unlock()
	h.mu.Lock()
	h.evals++
	h.mu.Unlock()
}

// Budget bounds the number of hook events from here to the end of the case.
func (c *vC) Budget(n int64) {
	atomic.StoreInt64(&vTickN, 0)
	atomic.StoreInt64(&vTickMax, n)
}

// Fail reports a violation and abandons the case. Only call it on the case's
// own goroutine.
func (c *vC) Fail(f string, a ...any) { panic(vAbort{fmt.Sprintf(f, a...)}) }

func (c *vC) Check(ok bool, f string, a ...any) {
	if !ok {
		c.Fail(f, a...)
	}
}

// Seen counts observed events.
func (c *vC) Seen(what string, n int) {
	c.h.mu.Lock()
	c.h.counters[what] += int64(n)
	c.h.mu.Unlock()
}

func (c *vC) Max(what string, n int64) {
	c.h.mu.Lock()
	if c.h.counters["max_"+what] < n {
		c.h.counters["max_"+what] = n
	}
	c.h.mu.Unlock()
}

// Distinct records the case as non-trivial under the given signature.
func (c *vC) Distinct(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.h.mu.Lock()
	if _, ok := c.h.distinct[vHash64(s)]; !ok {
		c.h.distinct[vHash64(s)] = struct{}{}
		if len(c.h.samples) < 6 {
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			c.h.samples = append(c.h.samples, c.Name+": "+s)
		}
	}
	c.h.mu.Unlock()
}

func vJoin(a []string) string { return strings.Join(a, ",") }

func vMode() string { return os.Getenv("VERIF_MODE") }

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
