package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
)

// ---------------------------------------------------------------- SHA3 cache

type hashStep struct {
	a, b [32]byte
	size int
}

// program hashes memory contents and returns all the hashes.
func hashProgram(steps []hashStep) []byte {
	var c []byte
	put := func(w [32]byte, at int) {
		c = append(append(c, 0x7f), w[:]...)
		c = append(c, 0x60, byte(at), 0x52)
	}
	for i, s := range steps {
		put(s.a, 0)
		put(s.b, 32)
		c = append(c, 0x60, byte(s.size), 0x60, 0, 0x20, 0x61, byte((128+32*i)>>8), byte(128+32*i), 0x52)
	}
	n := 32 * len(steps)
	return append(c, 0x61, byte(n>>8), byte(n), 0x60, 128, 0xf3)
}

func hash(r *simrt.R) {
	name := "lfvm"
	if r.Chance(1, 4) {
		experimental(r)
		name = []string{"lfvm-si", "lfvm-stats"}[r.N(2)]
	}
	vm1 := newVm(r, name)
	vm2 := vm1
	if r.Chance(1, 3) {
		vm2 = newVm(r, name) // caches belong to the process
	}
	nt := r.Range(2, 4)
	pool := make([][32]byte, r.Range(2, 6))
	for i := range pool {
		if i == 0 {
			continue // zero is in the caches from the beginning
		}
		pool[i][31-r.N(32)] = byte(r.Range(1, 255))
	}
	sizes := [][]int{{32}, {64}, {32, 64}, {32, 64, 0, 31, 33, 63, 65, 96}}[r.N(4)]
	progs := make([][]hashStep, nt)
	for i := range progs {
		for k := r.Range(1, 6); k > 0; k-- {
			progs[i] = append(progs[i], hashStep{pool[r.N(len(pool))], pool[r.N(len(pool))], sizes[r.N(len(sizes))]})
		}
	}
	running := 0
	r.Threads(nt, func(i int) {
		v := vm1
		if i%2 == 1 {
			v = vm2
		}
		enter(&running, r)
		res, err := v.Run(tosca.Parameters{Gas: 1 << 20, Code: hashProgram(progs[i])})
		leave(&running)
		if err != nil || !res.Success {
			r.Fail("wrong-result", "%s: execution of client %d failed: %v %v", name, i, res.Success, err)
		}
		for k, s := range progs[i] {
			data := append(append(append([]byte{}, s.a[:]...), s.b[:]...), make([]byte, 64)...)
			if s.size > 64 && s.size > 96 {
				data = append(data, make([]byte, s.size)...)
			}
			want := evmref.Keccak(data[:s.size])
			if len(res.Output) < 32*k+32 {
				r.Fail("wrong-result", "%s: %d bytes of output", name, len(res.Output))
			}
			got := [32]byte(res.Output[32*k : 32*k+32])
			if k == 0 && s.size > 64 {
				continue // the rest of the memory is known to be empty for the first hash only
			}
			if s.size <= 64 && got != want {
				r.Fail("wrong-hash", "%s: client %d of %d, hash %d of %d bytes %x is %x, not %x", name, i, nt, k, s.size, data[:s.size], got, want)
			}
		}
		r.EventBytes(res.Output)
	})
	r.Count("probe:hashes", uint64(len(progs[0])*nt))
	r.Note("%s, %d clients, %d different words, sizes %v", name, nt, len(pool), sizes)
}

// ----------------------------------------------------------------- statistics

type report struct {
	steps  uint64
	counts [4]map[string]uint64 // rows of the four tables
	text   string
}

var rowRe = regexp.MustCompile(`^\t(.*): (\d+) \(([0-9.]+)%\)$`)

func parseReport(r *simrt.R, text string) report {
	res := report{text: text}
	section := -1
	for _, l := range strings.Split(text, "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "Steps:" {
			res.steps, _ = strconv.ParseUint(f[1], 10, 64)
		}
		for i, n := range []string{"Singles:", "Pairs:", "Triples:", "Quads:"} {
			if strings.TrimSpace(l) == n {
				section = i
				res.counts[i] = map[string]uint64{}
			}
		}
		if m := rowRe.FindStringSubmatch(l); m != nil {
			if section < 0 {
				r.Fail("bad-report", "a row outside of the tables in %q", text)
			}
			n, _ := strconv.ParseUint(m[2], 10, 64)
			res.counts[section][strings.Join(strings.Fields(m[1]), " ")] += n
		}
	}
	if section != 3 {
		r.Fail("bad-report", "the report lacks tables: %q", text)
	}
	return res
}

func dump(r *simrt.R, p tosca.ProfilingInterpreter) report {
	simos.ClearOutput()
	p.DumpProfile()
	return parseReport(r, string(simos.Output()))
}

// straight generates programs without jumps over a small alphabet.
func straight(r *simrt.R, ops []byte) []byte {
	var c []byte
	h := 0
	for n := r.Range(1, 14); n > 0; n-- {
		o := ops[r.N(len(ops))]
		switch o {
		case 0x60:
			c = append(c, o, byte(r.N(256)))
			h++
		case 0x50:
			if h > 0 {
				c = append(c, o)
				h--
			}
		case 0x01:
			if h > 1 {
				c = append(c, o)
				h--
			}
		case 0x15:
			if h > 0 {
				c = append(c, o)
			}
		default:
			c = append(c, o)
			h++
		}
	}
	return append(c, 0x00)
}

// what the report has to show for straight programs
func countStraight(codes [][]byte, times []int) (steps uint64, tables [4]map[string]uint64) {
	for i := range tables {
		tables[i] = map[string]uint64{}
	}
	for i, c := range codes {
		var seq []string
		for k := 0; k < len(c); k++ {
			seq = append(seq, vm.OpCode(c[k]).String())
			if c[k] == 0x60 {
				k++
			}
		}
		for n := 1; n <= 4; n++ {
			for k := 0; k+n <= len(seq); k++ {
				tables[n-1][strings.Join(seq[k:k+n], " ")] += uint64(times[i])
			}
		}
		steps += uint64(len(seq) * times[i])
	}
	return
}

func stats(r *simrt.R) {
	experimental(r)
	name := []string{"lfvm-stats", "lfvm-no-sha-cache-stats", "lfvm-si-stats"}[r.N(3)]
	v := newVm(r, name)
	p, ok := v.(tosca.ProfilingInterpreter)
	if !ok {
		r.Fail("no-profiler", "%s is no profiling interpreter", name)
	}
	nt := r.Range(2, 4)
	if name != "lfvm-si-stats" && r.Chance(2, 3) {
		statsExact(r, name, p, nt)
		return
	}
	// general programs: the counts do not depend on the interleaving
	cfg := evmref.ScenarioCfg{Contracts: 2, Budget: 6, Calls: true, Storage: true, Faults: true, Cheap: true, MaxGas: 30_000}
	all := jobs(r, nt, cfg)
	for _, j := range all {
		m := &evmref.Machine{Vm: p}
		got, _ := j.s.Run(r, m.Exec, nil)
		if d := evmref.Diff(j.want, got); d != "" {
			r.Fail("divergence", "%s: %s", name, d)
		}
	}
	alone := dump(r, p)
	steps, want := countLogged(r, strings.TrimSuffix(name, "stats")+"logging", all)
	checkTables(r, name, alone, steps, want)
	p.ResetProfile()
	if d := dump(r, p); d.steps != 0 || len(d.counts[0]) != 0 {
		r.Fail("reset", "%s: the report is not empty after a reset: %q", name, d.text)
	}
	running := 0
	r.Threads(nt, func(i int) {
		m := &evmref.Machine{Vm: p}
		enter(&running, r)
		got, _ := all[i].s.Run(r, m.Exec, simrt.Y)
		leave(&running)
		if d := evmref.Diff(all[i].want, got); d != "" {
			r.Fail("divergence", "%s: %s", name, d)
		}
	})
	if d := dump(r, p); d.text != alone.text {
		r.Fail("lost-counts", "%s: %d concurrent transactions gave the report %q, one after the other they gave %q", name, nt, d.text, alone.text)
	}
	r.Event(alone.steps)
	r.Note("%s, %d clients, %d instructions", name, nt, alone.steps)
}

// countLogged derives the counts from the instructions the logging
// configuration shows for the same transactions, frame by frame.
func countLogged(r *simrt.R, name string, all []job) (steps uint64, tables [4]map[string]uint64) {
	for i := range tables {
		tables[i] = map[string]uint64{}
	}
	m := &evmref.Machine{Vm: newVm(r, name)}
	type open struct{ seq []string }
	var frames []*open
	at := 0
	drain := func() {
		out := simos.Output()
		for _, l := range strings.Split(string(out[at:]), "\n") {
			if op, _, ok := strings.Cut(l, ", "); ok {
				f := frames[len(frames)-1]
				f.seq = append(f.seq, op)
			}
		}
		at = len(out)
	}
	exec := func(e *evmref.Env, msg *evmref.Msg, code []byte, hash *tosca.Hash) evmref.Res {
		if len(frames) > 0 {
			drain()
		}
		frames = append(frames, &open{})
		res := m.Exec(e, msg, code, hash)
		drain()
		seq := frames[len(frames)-1].seq
		frames = frames[:len(frames)-1]
		for n := 1; n <= 4; n++ {
			for k := 0; k+n <= len(seq); k++ {
				tables[n-1][strings.Join(seq[k:k+n], " ")]++
			}
		}
		steps += uint64(len(seq))
		return res
	}
	for _, j := range all {
		simos.ClearOutput()
		at = 0
		got, _ := j.s.Run(r, exec, nil)
		if d := evmref.Diff(j.want, got); d != "" {
			r.Fail("divergence", "%s: %s", name, d)
		}
	}
	return
}

func checkTables(r *simrt.R, name string, got report, steps uint64, want [4]map[string]uint64) {
	if got.steps != steps {
		r.Fail("lost-counts", "%s: %d steps were executed, the report counts %d", name, steps, got.steps)
	}
	for i := range want {
		shown := got.counts[i]
		if min(len(want[i]), 5) != len(shown) {
			r.Fail("lost-counts", "%s: table %d has %d rows for %d sequences: %q", name, i+1, len(shown), len(want[i]), got.text)
		}
		least := uint64(1 << 62)
		for k, c := range shown {
			if want[i][k] != c {
				r.Fail("lost-counts", "%s: the report counts %q %d times, executed %d times", name, k, c, want[i][k])
			}
			least = min(least, c)
		}
		for k, c := range want[i] {
			if _, ok := shown[k]; !ok && c > least {
				r.Fail("lost-counts", "%s: %q was executed %d times but is not among the most frequent: %q", name, k, c, got.text)
			}
		}
	}
}

func statsExact(r *simrt.R, name string, p tosca.ProfilingInterpreter, nt int) {
	alphabet := [][]byte{{0x60, 0x50}, {0x60, 0x01}, {0x60, 0x50, 0x01, 0x15}, {0x60, 0x5a}, {0x5a, 0x58, 0x50}}[r.N(5)]
	codes := make([][]byte, nt)
	times := make([]int, nt)
	for i := range codes {
		codes[i] = straight(r, alphabet)
		times[i] = r.Range(1, 3)
	}
	dumper := r.Chance(1, 3)
	started, ended := make([]int, nt), make([]int, nt)
	one, _ := countStraight(codes, ones(nt))
	_ = one
	lens := make([]uint64, nt)
	for i := range codes {
		lens[i], _ = countStraight(codes[i:i+1], []int{1})
	}
	total := func(n []int) (s uint64) {
		for i := range n {
			s += lens[i] * uint64(n[i])
		}
		return
	}
	running := 0
	n := nt
	if dumper {
		n++
	}
	r.Threads(n, func(i int) {
		if i == nt {
			for k := 0; k < 2; k++ {
				lo := total(ended)
				d := dump(r, p)
				hi := total(started)
				if d.steps < lo || d.steps > hi {
					r.Fail("inconsistent-report", "%s: a report while others run counts %d instructions, %d had ended before it and %d had started after it", name, d.steps, lo, hi)
				}
				sum := uint64(0)
				for _, c := range d.counts[0] {
					sum += c
				}
				if sum != d.steps {
					r.Fail("inconsistent-report", "%s: a report while others run counts %d steps but %d instructions", name, d.steps, sum)
				}
				simrt.Y()
			}
			return
		}
		for k := 0; k < times[i]; k++ {
			bump(started, i)
			enter(&running, r)
			res, err := p.Run(tosca.Parameters{Gas: 1 << 20, Code: codes[i]})
			leave(&running)
			if err != nil || !res.Success {
				r.Fail("wrong-result", "%s: execution of client %d failed: %v %v", name, i, res.Success, err)
			}
			bump(ended, i)
		}
	})
	steps, want := countStraight(codes, times)
	checkTables(r, name, dump(r, p), steps, want)
	r.Event(steps)
	r.Note("%s, exact counts, %d clients, %d steps, concurrent report %t", name, nt, steps, dumper)
}

//go:norace
func bump(a []int, i int) { a[i]++ }

func ones(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = 1
	}
	return r
}

func sum(a []int) (s int) {
	for _, x := range a {
		s += x
	}
	return
}

// -------------------------------------------------------------------- logging

var errSink = errors.New("simulated: no space left on device")

func logging(r *simrt.R) {
	experimental(r)
	if r.Chance(1, 3) {
		otherObservers(r)
		return
	}
	name := []string{"lfvm-logging", "lfvm-no-sha-cache-logging"}[r.N(2)]
	v := newVm(r, name)
	cfg := evmref.ScenarioCfg{Contracts: 2, Budget: 8, Calls: true, Storage: true, Faults: true, Cheap: true, MaxGas: 100_000, Huge: 1000}
	s := evmref.NewScenario(r, cfg)
	want, ref := s.Reference()
	fail, lost := -1, 0
	if r.Chance(1, 2) {
		fail = r.N(int(ref.Instructions) + 1)
	}
	// the sink as the execution sees it: writes in order; from one of them on
	// all fail, or only that one
	writes, once := 0, r.Chance(1, 2)
	simos.Hook = func(op, file string, n int) (int, error) {
		if op == "stdout" {
			writes++
			if fail >= 0 && writes > fail && !(once && lost > 0) {
				r.Count("fault:log-write-fails", 1)
				lost++
				if r.Chance(1, 2) {
					return n / 2, errSink
				}
				return 0, errSink
			}
		}
		return n, nil
	}
	m := &evmref.Machine{Vm: v}
	got, env := s.Run(r, m.Exec, nil)
	digest(r, got)
	r.EventBytes(simos.Output())
	d := evmref.Diff(want, got)
	if lost == 0 {
		if d != "" {
			r.Fail("observer-effect", "%s: %s", name, d)
		}
		checkLog(r, s, ref, name)
	} else if m.RunErrs == 0 {
		r.Fail("hidden-failure", "%s: %d writes to the log failed, but no execution reported it (result: %s)", name, lost, d)
	}
	if env.Breach != "" {
		r.Fail("static-breach", "%s: %s", name, env.Breach)
	}
	if ref.Instructions > 3 {
		r.NonTrivial()
	}
	r.Count("probe:log-bytes", uint64(len(simos.Output())))
	r.Note("%s: %s, failing after %d writes, %d lost", name, summary(want, ref), fail, lost)
}

func topOf(i evmref.InstrRec) string {
	if i.Empty {
		return "-empty-"
	}
	return new(big.Int).SetBytes(i.Top[:]).String()
}

// checkLog compares the log of a run with the instructions of the reference.
// Instructions which the conversion adds or drops are skipped.
func checkLog(r *simrt.R, s *evmref.Scenario, _ *evmref.Env, name string) {
	e := &evmref.Env{W: s.World.Clone(), Ctx: s.Ctx, FateSeed: s.Fate, FateMask: s.Mask, Exec: evmref.Interpret, Keep: true}
	m := s.Top
	e.Top(&m)
	lines := bytes.Split(simos.Output(), []byte("\n"))
	if len(lines) > 0 && len(lines[len(lines)-1]) == 0 {
		lines = lines[:len(lines)-1]
	}
	k := 0
	for n, l := range lines {
		f := strings.Split(string(l), ", ")
		if len(f) != 3 {
			r.Fail("bad-log", "%s: line %d of the log is %q", name, n, l)
		}
		op := f[0]
		if op == "JUMP_TO" || op == "NOOP" || op == "DATA" {
			continue
		}
		for k < len(e.Instr) && e.Instr[k].Implicit && (op != "STOP" || f[1] != fmt.Sprint(e.Instr[k].Gas) || f[2] != topOf(e.Instr[k])) {
			k++ // it need not be logged
		}
		if k >= len(e.Instr) {
			if op == "STOP" {
				continue
			}
			r.Fail("bad-log", "%s: line %d of the log is %q, all %d instructions were logged before", name, n, l, len(e.Instr))
		}
		i := e.Instr[k]
		top := topOf(i)
		wantOp := vm.OpCode(i.Op).String()
		if op == "INVALID" || !validOp(i.Op) {
			wantOp = op // names of undefined instructions are not compared
		}
		if op != wantOp || f[1] != fmt.Sprint(i.Gas) || f[2] != top {
			r.Fail("bad-log", "%s: line %d of the log is %q, executed was %s at %d with %d gas and %s on the stack", name, n, l, wantOp, i.Pc, i.Gas, top)
		}
		k++
	}
	for ; k < len(e.Instr); k++ {
		if !e.Instr[k].Implicit {
			r.Fail("bad-log", "%s: instruction %d (%v at %d) is missing in the log", name, k, vm.OpCode(e.Instr[k].Op), e.Instr[k].Pc)
		}
	}
}

func validOp(o byte) bool { return vm.IsValid(vm.OpCode(o)) }

// otherObservers runs a history of transactions on one instance of another
// configuration, reporting and resetting in between.
func otherObservers(r *simrt.R) {
	names := []string{"lfvm-stats", "lfvm-no-sha-cache-stats", "lfvm-si-stats", "lfvm-si-logging", "lfvm-si-no-sha-cache-stats", "lfvm-si-no-sha-cache-logging", "lfvm-si", "lfvm-no-code-cache", "lfvm-no-sha-cache"}
	name := names[r.N(len(names))]
	v := newVm(r, name)
	cfg := evmref.ScenarioCfg{Contracts: 2, Budget: 8, Calls: true, Storage: true, Faults: true, Cheap: true, MaxGas: 100_000, Huge: 1000}
	m := &evmref.Machine{Vm: v}
	for k := r.Range(1, 3); k > 0; k-- {
		s := evmref.NewScenario(r, cfg)
		want, ref := s.Reference()
		got, env := s.Run(r, m.Exec, nil)
		digest(r, got)
		if d := evmref.Diff(want, got); d != "" {
			r.Fail("observer-effect", "%s: %s", name, d)
		}
		if env.Breach != "" {
			r.Fail("static-breach", "%s: %s", name, env.Breach)
		}
		if ref.Instructions > 3 {
			r.NonTrivial()
		}
		if p, ok := v.(tosca.ProfilingInterpreter); ok {
			switch r.N(3) {
			case 0:
				p.DumpProfile()
			case 1:
				p.ResetProfile()
			}
		}
		r.Note("%s: %s", name, summary(want, ref))
	}
	r.Count("probe:config-"+name, 1)
}
