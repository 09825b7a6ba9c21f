// Package simrt is what simulated programs and harnesses use of the
// simulator: scheduling points, recorded choices, fault decisions, counters
// and the entry point of a harness.  Scheduling itself is done by the patched
// runtime (../../overlay).
//
// Functions that simulated goroutines call are excluded from race detection
// and touch no maps: only one goroutine runs at a time.
package simrt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Y is a scheduling point.
//
//go:norace
func Y() { runtime.SimYield() }

// Size returns the capacity a package-level cache gets in the next run.
var sizeHint = 0

func Size(n int) int {
	if sizeHint > 0 && sizeHint < n {
		return sizeHint
	}
	return n
}

type resetEntry struct {
	name string
	f    func()
}

var resets []resetEntry

// OnReset registers the initialisation of the state of a package.
func OnReset(name string, f func()) { resets = append(resets, resetEntry{name, f}) }

// ResetPackages brings all resettable package state back to its initial value.
func ResetPackages(size int) {
	sizeHint = size
	for _, r := range resets {
		r.f()
	}
}

const (
	maxChoices   = 1 << 17
	maxDecisions = 1 << 17
	maxCounters  = 256
)

// R is one simulated run.
type R struct {
	Seed    uint64
	Variant string
	Verbose bool

	rng        uint64
	choices    []uint64 // recorded, value + 1
	nchoices   int
	replay     []uint64
	replaying  bool
	decisions  []runtime.SimDecision
	rdecisions []runtime.SimDecision
	nontrivial bool
	note       string
	names      [maxCounters]string
	values     [maxCounters]uint64
	ncounters  int
	started    bool
	hasSched   bool
	mode       uint32
	gap        uint64
	pick       uint32
	exit       func(class, msg string)
	stopped    bool
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *R) next() uint64 {
	r.rng += 0x9E3779B97F4A7C15
	return mix(r.rng)
}

// N returns a choice in [0,n).
//
//go:norace
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if r.replaying {
		if r.nchoices < len(r.replay) {
			v = r.replay[r.nchoices] % uint64(n)
		}
	} else {
		v = r.next() % uint64(n)
	}
	if r.nchoices < len(r.choices) {
		r.choices[r.nchoices] = v + 1
	}
	r.nchoices++
	return int(v)
}

// U64 returns an arbitrary 64-bit choice.
//
//go:norace
func (r *R) U64() uint64 {
	var v uint64
	if r.replaying {
		if r.nchoices < len(r.replay) {
			v = r.replay[r.nchoices]
		}
	} else {
		v = r.next() >> 1
	}
	if r.nchoices < len(r.choices) {
		r.choices[r.nchoices] = v + 1
	}
	r.nchoices++
	return v
}

// Range returns a choice in [lo,hi].
//
//go:norace
func (r *R) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// Chance is true in num of den cases; false is the simple case.
//
//go:norace
func (r *R) Chance(num, den int) bool { return r.N(den) >= den-num }

// Fault decides whether a fault of the given kind is injected here.
//
//go:norace
func (r *R) Fault(kind string, num, den int) bool {
	if r.Chance(num, den) {
		r.Count("fault:"+kind, 1)
		return true
	}
	return false
}

// Count adds to a counter of the evidence.
//
//go:norace
func (r *R) Count(name string, n uint64) {
	for i := 0; i < r.ncounters; i++ {
		if r.names[i] == name {
			r.values[i] += n
			return
		}
	}
	if r.ncounters < maxCounters {
		r.names[r.ncounters] = name
		r.values[r.ncounters] = n
		r.ncounters++
	}
}

// Value returns the value of a counter.
//
//go:norace
func (r *R) Value(name string) uint64 {
	for i := 0; i < r.ncounters; i++ {
		if r.names[i] == name {
			return r.values[i]
		}
	}
	return 0
}

// NonTrivial marks the run as one that reached the situation of interest.
//
//go:norace
func (r *R) NonTrivial() { r.nontrivial = true }

// Note keeps a description of the run for the evidence.
//
//go:norace
func (r *R) Note(format string, args ...any) {
	if r.note == "" {
		r.note = fmt.Sprintf(format, args...)
	}
}

// NoteWanted tells whether a note would be kept.
func (r *R) NoteWanted() bool { return r.note == "" }

// Event adds an observation to the digest of the run.
//
//go:norace
func (r *R) Event(v uint64) { runtime.SimMix(v) }

// EventBytes adds an observation to the digest of the run.
//
//go:norace
func (r *R) EventBytes(b []byte) {
	h := uint64(1469598103934665603)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	runtime.SimMix(h)
}

// EventString adds an observation to the digest of the run.
//
//go:norace
func (r *R) EventString(s string) {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	runtime.SimMix(h)
}

// Logf prints in verbose replays.
//
//go:norace
func (r *R) Logf(format string, args ...any) {
	if r.Verbose {
		rawPrint(fmt.Sprintf("[%s] ", time.Duration(runtime.SimNow())) + fmt.Sprintf(format, args...) + "\n")
	}
}

func rawPrint(s string) {
	b := []byte(s)
	for len(b) > 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, 2, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e != 0 {
			return
		}
		b = b[n:]
	}
}

// Fail reports a violation; it does not return.
//
//go:norace
func (r *R) Fail(class, format string, args ...any) {
	runtime.SimStop()
	r.exit(class, fmt.Sprintf(format, args...))
}

// Threads runs n client goroutines under the seeded schedule and waits for
// all of them; it fails if they stop making progress.
func (r *R) Threads(n int, body func(i int)) {
	done := make(chan struct{})
	left := n
	for i := 0; i < n; i++ {
		i := i
		go func() {
			defer func() {
				if e := recover(); e != nil {
					r.Fail("panic", "client %d: %v\n%s", i, e, trimStack(debug.Stack()))
				}
				threadDone(&left, done)
			}()
			Y()
			body(i)
		}()
	}
	r.Wait(done, time.Hour, "clients")
	clientsEnded()
}

// The counter is plain memory so that the end of one client does not
// synchronise with the others; the channel synchronises with the waiter only.
//
//go:norace
func threadDone(left *int, done chan struct{}) {
	clientEnds()
	*left--
	if *left == 0 {
		close(done)
	}
}

// Wait waits for a channel to be closed within a bound on simulated time.
func (r *R) Wait(done <-chan struct{}, limit time.Duration, what string) {
	t := time.NewTimer(limit)
	select {
	case <-done:
		t.Stop()
	case <-t.C:
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		r.Fail("no-progress", "%s did not end: all goroutines are blocked\n%s", what, goroutineStates(string(buf)))
	}
}

func goroutineStates(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		lines := strings.Split(g, "\n")
		head := lines[0]
		f := ""
		for _, l := range lines[1:] {
			if strings.Contains(l, "Tosca/go/") && !strings.Contains(l, "/dst/") && !strings.HasPrefix(l, "\t") {
				f = l
				break
			}
		}
		out = append(out, head+" "+f)
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "Tosca/go/") && !strings.HasPrefix(l, "\t") {
			out = append(out, l)
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Harness is the program of a simulation.
type Harness struct {
	Name string
	// Run executes one simulated run.
	Run func(r *R)
	// Cap bounds the scheduling points of a run.
	Cap uint64
	// Sequential harnesses have no schedule to explore.
	Sequential bool
	// CacheSizes are the capacities of package-level caches to choose from
	// (0: as in the code).
	CacheSizes []int
}

func realNow() int64 {
	var ts syscall.Timespec
	_, _, _ = syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

type shared struct {
	data      []byte
	index     *uint64
	choices   []uint64
	decisions []runtime.SimDecision
}

func mapShared(path string) *shared {
	size := 4096 + maxChoices*8 + maxDecisions*int(unsafe.Sizeof(runtime.SimDecision{}))
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		die(err)
	}
	if err := f.Truncate(int64(size)); err != nil {
		die(err)
	}
	d, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die(err)
	}
	f.Close()
	s := &shared{data: d, index: (*uint64)(unsafe.Pointer(&d[0]))}
	s.choices = unsafe.Slice((*uint64)(unsafe.Pointer(&d[4096])), maxChoices)
	s.decisions = unsafe.Slice((*runtime.SimDecision)(unsafe.Pointer(&d[4096+maxChoices*8])), maxDecisions)
	return s
}

func die(err error) {
	rawPrint("simrt: " + err.Error() + "\n")
	os.Exit(9)
}

type counter struct {
	N    uint64 `json:"n"`
	Runs uint64 `json:"runs"`
}

type violation struct {
	Class   string `json:"class"`
	Message string `json:"message"`
	Index   uint64 `json:"index"`
	Seed    uint64 `json:"seed"`
}

type result struct {
	Runs       uint64              `json:"runs"`
	NonTrivial uint64              `json:"nontrivial"`
	Steps      uint64              `json:"steps"`
	Switches   uint64              `json:"switches"`
	SimTicks   uint64              `json:"sim_ticks"`
	Digest     uint64              `json:"digest"`
	Next       uint64              `json:"next"`
	Finished   bool                `json:"finished"`
	Counters   map[string]*counter `json:"counters"`
	Samples    []string            `json:"samples"`
	Violation  *violation          `json:"violation"`
	WallMs     int64               `json:"wall_ms"`
}

// SeedOf derives the seed of the i-th run of a batch.
func SeedOf(base, i uint64) uint64 { return mix(base*0x9E3779B97F4A7C15+i+1) >> 1 }

// Main is the entry point of a harness:
//
//	work VARIANT BASE START STEP COUNT MILLISECONDS OUT SHARED
//	one SEED VARIANT OUT SHARED
//	replay FILE OUT SHARED [-v]
func Main(h Harness) {
	runtime.MemProfileRate = 0
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30) // reached by runs without an end only
	if h.Cap == 0 {
		h.Cap = 3_000_000
	}
	if len(os.Args) < 2 {
		rawPrint("missing command\n")
		os.Exit(9)
	}
	u := func(i int) uint64 {
		v, err := strconv.ParseUint(os.Args[i], 10, 64)
		if err != nil {
			die(err)
		}
		return v
	}
	switch os.Args[1] {
	case "work":
		work(h, os.Args[2], u(3), u(4), u(5), u(6), int64(u(7)), os.Args[8], os.Args[9])
	case "one":
		r := &R{Seed: u(2), Variant: os.Args[3], Verbose: len(os.Args) > 6}
		single(h, r, os.Args[4], os.Args[5])
	case "replay":
		r := &R{Verbose: len(os.Args) > 5}
		parse(r, os.Args[2])
		single(h, r, os.Args[3], os.Args[4])
	default:
		rawPrint("unknown command\n")
		os.Exit(9)
	}
}

func parse(r *R, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	r.replaying = true
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "variant":
			if len(f) > 1 && f[1] != "default" {
				r.Variant = f[1]
			}
		case "seed":
			r.Seed, _ = strconv.ParseUint(f[1], 10, 64)
		case "choices":
			for _, x := range f[1:] {
				v, _ := strconv.ParseUint(x, 10, 64)
				r.replay = append(r.replay, v)
			}
		case "sched":
			for _, x := range f[1:] {
				a, b, _ := strings.Cut(x, ":")
				at, _ := strconv.ParseUint(a, 10, 64)
				v, _ := strconv.ParseUint(b, 10, 32)
				r.rdecisions = append(r.rdecisions, runtime.SimDecision{At: at, Val: uint32(v)})
			}
			r.hasSched = true
		}
	}
}

func single(h Harness, r *R, out, sharedPath string) {
	s := mapShared(sharedPath)
	res := &result{Counters: map[string]*counter{}}
	start := realNow()
	runOne(h, r, s, res, func(class, msg string) {
		res.Violation = &violation{Class: class, Message: msg, Seed: r.Seed}
		account(r, res, map[uint64]bool{}, true)
		res.WallMs = (realNow() - start) / 1e6
		emit(res, out)
		os.Exit(1)
	})
	account(r, res, map[uint64]bool{}, true)
	res.Finished = true
	res.WallMs = (realNow() - start) / 1e6
	emit(res, out)
	os.Exit(0)
}

func runOne(h Harness, r *R, s *shared, res *result, exit func(class, msg string)) {
	r.exit = exit
	r.rng = mix(r.Seed ^ 0xc401ce)
	// schedule parameters and cache sizes belong to the seed, not to the choices
	p := mix(r.Seed ^ 0x5c4ed)
	draw := func(n uint64) uint64 { p += 0x9E3779B97F4A7C15; return mix(p) % n }
	switch draw(8) {
	case 0, 1:
		r.mode, r.gap = 1, []uint64{5, 20, 80, 300, 1500}[draw(5)]
	case 2:
		r.mode, r.gap = 0, 0
	default:
		r.mode, r.gap = 0, []uint64{1, 2, 4, 8, 20, 60, 200, 1000}[draw(8)]
	}
	r.pick = []uint32{0, 0, 3}[draw(3)]
	size := 0
	if len(h.CacheSizes) > 0 {
		size = h.CacheSizes[draw(uint64(len(h.CacheSizes)))]
	}
	r.choices = s.choices
	r.decisions = s.decisions
	cfg := &runtime.SimConfig{Seed: r.Seed, Mode: r.mode, Gap: r.gap, Pick: r.pick, Cap: h.Cap, Record: r.decisions}
	if h.Sequential {
		cfg.Gap, cfg.Mode = 0, 0
	}
	if r.replaying && r.hasSched {
		cfg.Mode, cfg.Replay = 2, r.rdecisions
	}
	cfg.OnCap = func() {
		r.Fail("no-progress", "the run did not end within %d scheduling points\n%s", h.Cap, trimStack(debug.Stack()))
	}
	runtime.SimPrepare(r.Seed)
	ResetPackages(size)
	runtime.SimStart(cfg)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("panic", "%v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		h.Run(r)
	}()
	runtime.SimStop()
}

func account(r *R, res *result, distinct map[uint64]bool, last bool) {
	ev, sw, _, dg, _ := runtime.SimStats()
	res.Runs++
	res.Steps += ev
	res.Switches += sw
	if now := runtime.SimNow(); now > 0 {
		res.SimTicks += uint64(now)
	}
	for i := 0; i < r.nchoices && i < len(r.choices); i++ {
		dg = mix(dg ^ r.choices[i])
	}
	if r.nontrivial {
		res.NonTrivial++
		dg |= 1
	} else {
		dg &^= 1
	}
	res.Digest += dg
	if os.Getenv("SIM_SLOW") != "" {
		rawPrint(fmt.Sprintf("account %d %x %d\n", r.Seed, dg, r.nchoices))
	}
	distinct[dg] = true
	for i := 0; i < r.ncounters; i++ {
		c := res.Counters[r.names[i]]
		if c == nil {
			c = &counter{}
			res.Counters[r.names[i]] = c
		}
		c.N += r.values[i]
		c.Runs++
	}
	if r.note != "" && r.nontrivial && len(res.Samples) < 3 {
		res.Samples = append(res.Samples, fmt.Sprintf("seed %d: %s", r.Seed, r.note))
	}
}

func emit(res *result, out string) {
	b, err := json.Marshal(res)
	if err != nil {
		die(err)
	}
	if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
		die(err)
	}
	if err := os.Rename(out+".tmp", out); err != nil {
		die(err)
	}
}

func work(h Harness, variant string, base, start, step, count uint64, ms int64, out, sharedPath string) {
	s := mapShared(sharedPath)
	t0 := realNow()
	res := &result{Counters: map[string]*counter{}}
	distinct := map[uint64]bool{}
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	finish := func() {
		res.WallMs = (realNow() - t0) / 1e6
		writeDistinct(distinct, out+".distinct")
		emit(res, out)
	}
	i := start
	usedC, usedD := 0, 0
	first := true
	for ; i < count; i += step {
		if realNow()-t0 > ms*1e6 {
			break
		}
		res.Next = i
		*s.index = i + 1
		// what a crashed run leaves behind must be its own
		clear(s.choices[:usedC])
		clear(s.decisions[:usedD])
		r := &R{Seed: SeedOf(base, i), Variant: variant}
		idx := i
		before := runtime.NumGoroutine()
		runOne(h, r, s, res, func(class, msg string) {
			res.Violation = &violation{Class: class, Message: msg, Index: idx, Seed: r.Seed}
			finish()
			os.Exit(1)
		})
		if first {
			clear(s.choices[min(r.nchoices, maxChoices):])
			first = false
		}
		_, _, nrec, _, _ := runtime.SimStats()
		usedC, usedD = min(r.nchoices, maxChoices), nrec
		account(r, res, distinct, false)
		if slow := os.Getenv("SIM_SLOW"); slow != "" {
			ev, sw, nd, dg, _ := runtime.SimStats()
			rawPrint(fmt.Sprintf("run %d seed %d ev %d sw %d rec %d choices %d dg %x %d ms\n", i, r.Seed, ev, sw, nd, r.nchoices, dg, (realNow()-t0)/1e6))
		}
		if runtime.NumGoroutine() > before+200 {
			// goroutines of earlier runs are left: continue in a new process
			res.Next = i + step
			finish()
			os.Exit(0)
		}
		if res.Runs%16 == 0 {
			metrics.Read(sample)
			if sample[0].Value.Uint64() > 400<<20 {
				debug.FreeOSMemory()
				metrics.Read(sample)
				if sample[0].Value.Uint64() > 300<<20 {
					res.Next = i + step
					finish()
					os.Exit(0)
				}
			}
		}
	}
	res.Next = i
	res.Finished = true
	finish()
	os.Exit(0)
}

func writeDistinct(m map[uint64]bool, path string) {
	keys := make([]uint64, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	b := make([]byte, 8*len(keys))
	for i, k := range keys {
		binary.LittleEndian.PutUint64(b[8*i:], k)
	}
	_ = os.WriteFile(path, b, 0o644)
}
