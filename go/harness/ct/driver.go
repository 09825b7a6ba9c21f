package main

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	driver "github.com/Fantom-foundation/Tosca/go/ct/driverx"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/interpreter/evmzero"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/Fantom-foundation/Tosca/go/tosca/vm"
	"github.com/urfave/cli/v2"
	"pgregory.net/rand"
)

// target is the implementation under test by the driver: the specification
// with injected misbehaviour.  Its record must not synchronise its callers.
type target struct {
	r       *simrt.R
	num     int // one in num steps misbehaves
	panics  bool
	slow    bool
	always  bool // slow in every step
	steps   int
	active  int
	peak    int
	good    int
	unsup   int
	inputs  []*st.State // inputs of all steps
	issues  []*st.State // inputs of misbehaving steps
	causes  []string
	dead    bool // a panic happened
	after   int  // steps started after the panic
	ended   bool
	lastEnd time.Duration
	first   time.Duration // when the first issue was seen
	late    int           // steps started at a later time
}

//go:norace
func (t *target) begin(s *st.State) int {
	if t.ended {
		t.r.Fail("call-after-return", "the implementation was called after the command returned")
	}
	t.steps++
	t.active++
	if t.active > t.peak {
		t.peak = t.active
	}
	if t.dead {
		t.after++
	}
	if t.first != 0 && time.Duration(time.Now().UnixNano()) > t.first {
		t.late++
	}
	t.inputs = append(t.inputs, s)
	return t.steps
}

//go:norace
func (t *target) end(issue *st.State, cause string, unsupported bool) {
	t.active--
	switch {
	case issue != nil:
		t.issues = append(t.issues, issue)
		t.causes = append(t.causes, cause)
		if strings.HasPrefix(cause, "boom") {
			t.dead = true
		}
	case unsupported:
		t.unsup++
	default:
		t.good++
	}
	t.lastEnd = time.Duration(time.Now().UnixNano())
	if t.first == 0 && len(t.issues)+t.unsup > 0 {
		t.first = t.lastEnd
	}
}

func (t *target) step(s *st.State, n int) (*st.State, error) {
	r := t.r
	id := t.begin(s.Clone())
	if n != 1 {
		r.Fail("steps", "%d steps were requested", n)
	}
	if t.slow && (t.always || r.Chance(1, 5)) {
		r.Count("fault:slow-evm", 1)
		time.Sleep(time.Duration(r.Range(1, 9000)) * time.Millisecond)
	}
	input := s.Clone()
	if t.num > 0 && r.Chance(1, t.num) {
		kinds := 6
		if t.panics {
			kinds = 8
		}
		switch k := r.N(kinds); k {
		case 0:
			r.Count("fault:evm-unsupported", 1)
			t.end(nil, "", true)
			return nil, &tosca.ErrUnsupportedRevision{Revision: s.Revision}
		case 1:
			r.Count("fault:evm-unsupported", 1)
			t.end(nil, "", true)
			return s, fmt.Errorf("step %d: %w", id, &tosca.ErrUnsupportedRevision{Revision: s.Revision})
		case 2:
			r.Count("fault:evm-error", 1)
			c := fmt.Sprintf("cause-%d", id)
			t.end(input, c, false)
			return nil, errors.New(c)
		case 3:
			r.Count("fault:evm-error", 1)
			c := fmt.Sprintf("cause-%d", id)
			s.Pc, s.Gas = 1, 1 // a failed step may leave anything behind
			t.end(input, c, false)
			return s, fmt.Errorf("%s: %w", c, fs.ErrInvalid)
		case 4, 5:
			want := s.Clone()
			rule := spc.Spec.GetRulesFor(s)
			if len(rule) > 0 {
				rule[0].Effect.Apply(want)
				got := want.Clone()
				if k == 4 {
					got.Gas--
				} else {
					got.Status = st.StatusCode((int(got.Status) + 1) % int(st.NumStatusCodes))
				}
				if !got.Eq(want) {
					r.Count("fault:evm-wrong-result", 1)
					t.end(input, "", false)
					return got, nil
				}
			}
		default:
			r.Count("fault:evm-panic", 1)
			c := fmt.Sprintf("boom-%d", id)
			t.end(input, c, false)
			if k == 6 {
				panic(c)
			}
			panic(errors.New(c))
		}
	}
	simrt.Y()
	if rules := spc.Spec.GetRulesFor(s); len(rules) > 0 {
		rules[0].Effect.Apply(s)
	}
	t.end(nil, "", false)
	return s, nil
}

// disk decides the fate of disk operations.
type disk struct {
	r      *simrt.R
	num    int
	on     bool
	torn   map[string]bool
	mkdirs int
}

func (d *disk) install() {
	d.torn = map[string]bool{}
	simos.Hook = func(op, name string, n int) (int, error) {
		if !d.on || op == "stdout" || op == "stderr" || op == "stat" || op == "readdir" {
			return n, nil
		}
		if d.num == 0 || !d.r.Chance(1, d.num) {
			return n, nil
		}
		d.r.Count("fault:disk-"+op, 1)
		switch op {
		case "write":
			d.torn[name] = true
			return d.r.N(n + 1), []error{syscall.ENOSPC, syscall.EIO}[d.r.N(2)]
		case "mkdir":
			d.mkdirs++
		default:
			d.torn[name] = true
		}
		return 0, syscall.EIO
	}
}

// filtered picks rules of the specification and the filter selecting them.
func filtered(r *simrt.R, limit int) ([]rlz.Rule, string) {
	var names []string
	for n := r.Range(1, 2); n > 0; n-- {
		names = append(names, regexp.QuoteMeta(someRule(r, limit).Name))
	}
	filter := "^(" + strings.Join(names, "|") + ")$"
	var rules []rlz.Rule
	re := regexp.MustCompile(filter)
	for _, rule := range sortedRules() { // names are not unique
		if re.MatchString(rule.Name) {
			rules = append(rules, rule)
		}
	}
	return rules, filter
}

// delivered lists what ForEachState delivers for the rules, by the sequential
// enumeration.
func delivered(rules []rlz.Rule, seed uint64, full bool) []*st.State {
	var res []*st.State
	for _, rule := range rules {
		_ = rule.EnumerateTestCases(rand.New(seed), func(s *st.State) rlz.ConsumerResult {
			if !full {
				if ok, err := rule.Condition.Check(s); !ok || err != nil {
					return rlz.ConsumeContinue
				}
			}
			res = append(res, s.Clone())
			return rlz.ConsumeContinue
		})
	}
	return res
}

func anyNamed(rules []rlz.Rule, re *regexp.Regexp) bool {
	for _, x := range rules {
		if re.MatchString(x.Name) {
			return true
		}
	}
	return false
}

// missing finds a state of a that has no counterpart in b.
func missing(a, b []*st.State) *st.State {
	used := make([]bool, len(b))
outer:
	for _, x := range a {
		for i, y := range b {
			if !used[i] && x.Gas == y.Gas && x.Pc == y.Pc && len(x.Diff(y)) == 0 {
				used[i] = true
				continue outer
			}
		}
		return x
	}
	return nil
}

func ctx(cmd *cli.Command, values map[string]any, params ...string) *cli.Context {
	return &cli.Context{Command: cmd, Values: values, Params: params}
}

var dumpLine = regexp.MustCompile(`(?m)^Input state dumped to (\S+)$`)

// dumps checks the files a command claims to have exported.
func dumps(r *simrt.R, out string, d *disk, issues []*st.State) int {
	var got []*st.State
	seen := map[string]bool{}
	for _, m := range dumpLine.FindAllStringSubmatch(out, -1) {
		p := m[1]
		if seen[p] {
			r.Fail("export", "two issues were exported to %s", p)
		}
		seen[p] = true
		if d.torn[p] {
			r.Fail("export", "%s is reported as exported, but writing it failed", p)
		}
		s, err := st.ImportStateJSON(p)
		if err != nil {
			r.Fail("export", "%s cannot be imported: %v", p, err)
		}
		got = append(got, s)
	}
	failed := strings.Count(out, "\nfailed to dump state:")
	if len(got)+failed != len(issues) {
		r.Fail("export", "%d states exported and %d failed for %d issues", len(got), failed, len(issues))
	}
	if failed > 0 && len(d.torn) == 0 {
		r.Fail("export", "%d exports failed on a working disk", failed)
	}
	if s := missing(got, issues); s != nil {
		r.Fail("export", "an exported state is not the input of an issue: %v", brief(s))
	}
	r.Count("probe:exported", uint64(len(got)))
	return failed
}

// drvRun: the run command against a faulty implementation and disk.
func drvRun(r *simrt.R) {
	rules, filter := filtered(r, 40)
	full := r.Chance(1, 4)
	seed := r.U64()
	t := &target{r: r, num: []int{0, 40, 12, 4, 2}[r.N(5)], panics: r.Chance(1, 3), slow: r.Chance(1, 4)}
	d := &disk{r: r, num: []int{0, 0, 6, 2}[r.N(4)]}
	d.install()
	jobs := r.Range(1, 4)
	limit := []int{0, 100, 100, 1, 2, 5}[r.N(6)]
	re := regexp.MustCompile(filter)
	var expect []*st.State
	for _, s := range delivered(rules, seed, full) {
		if s.Code.IsCode(int(s.Pc)) && anyNamed(spc.Spec.GetRulesFor(s), re) {
			expect = append(expect, s)
		}
	}
	real := r.Chance(1, 5) // the repository's own interpreter
	name := "evmzero"
	if real {
		name, t.num = "lfvm", 0
	}
	evmzero.Step = t.step
	d.on = true
	simos.ClearOutput()
	var err error
	r.Threads(1, func(int) {
		err = driver.DoRun(ctx(&driver.RunCmd, map[string]any{"filter": filter, "jobs": jobs, "seed": seed, "full-mode": full, "max-errors": limit}, name))
		finish(t)
	})
	d.on = false
	out := string(simos.Output())
	settle()
	r.Count("probe:steps", uint64(t.steps))
	r.Event(uint64(t.steps))
	r.EventString(out)
	n := len(t.issues)
	if !strings.Contains(out, fmt.Sprintf("Seed Used: %d\n", seed)) {
		r.Fail("report", "the seed is not reported")
	}
	passed := strings.Contains(out, "All tests passed successfully!")
	if passed != (n == 0 && err == nil) {
		r.Fail("verdict", "%d issues, error %v, and the report is:\n%s", n, err, tail(out))
	}
	if n == 0 {
		if err != nil {
			r.Fail("verdict", "no issue was injected, but the command failed: %v", err)
		}
	} else {
		if err == nil {
			r.Fail("verdict", "%d issues were injected, but the command succeeded", n)
		}
		if d.mkdirs == 0 && !strings.Contains(err.Error(), fmt.Sprintf("failed to pass %d test cases", n)) {
			r.Fail("verdict", "%d issues were injected, the command reports: %v", n, err)
		}
		if d.mkdirs == 0 {
			dumps(r, out, d, t.issues)
			for _, c := range t.causes {
				if !strings.Contains(out, c) {
					r.Fail("report", "the cause %q of an issue is not reported:\n%s", c, tail(out))
				}
			}
		}
	}
	line := fmt.Sprintf("Number of tests with unsupported revision: %d\n", t.unsup)
	if !real && (strings.Contains(out, "unsupported revision:") != (t.unsup > 0) || t.unsup > 0 && !strings.Contains(out, line)) {
		r.Fail("report", "%d steps were refused as unsupported, the report is:\n%s", t.unsup, tail(out))
	}
	if limit > 0 && n > limit+jobs-1 {
		r.Fail("max-errors", "%d issues with a limit of %d and %d jobs", n, limit, jobs)
	}
	if !real {
		if s := missing(t.inputs, expect); s != nil {
			r.Fail("unexpected-test", "the implementation was tested with a state the rules do not define: %v", brief(s))
		}
		if !t.dead && (limit == 0 || n < limit) && len(t.inputs) != len(expect) {
			r.Fail("lost", "%d of %d test cases were executed", len(t.inputs), len(expect))
		}
		if limit := 12 * jobs; t.after > limit {
			r.Fail("abort", "%d tests were started after a panic of the implementation", t.after)
		}
	} else {
		r.Count("probe:lfvm-runs", 1)
	}
	if t.peak > 1 || n > 0 {
		r.NonTrivial()
	}
	if n > 0 && err != nil && d.mkdirs == 0 && r.Chance(1, 2) {
		rerun(r, t, out)
	}
	r.Note("%d jobs, filter %s: %d of %d cases, %d issues, %d unsupported, error %v", jobs, filter, t.steps, len(expect), n, t.unsup, err)
}

// rerun feeds exported issues back through the regressions command.
func rerun(r *simrt.R, t *target, out string) {
	m := dumpLine.FindStringSubmatch(out)
	if m == nil {
		return
	}
	var importable []*st.State
	for _, f := range simos.Files() {
		if path.Dir(f) == path.Dir(m[1]) {
			if s, err := st.ImportStateJSON(f); err == nil {
				importable = append(importable, s)
			}
		}
	}
	t2 := &target{r: r}
	evmzero.Step = t2.step
	simos.ClearOutput()
	r.Threads(1, func(int) {
		if err := driver.DoRegressions(ctx(&driver.RegressionsCmd, map[string]any{"input": []string{path.Dir(m[1])}}, "evmzero")); err != nil {
			r.Fail("regressions", "exported issues cannot be run again: %v", err)
		}
	})
	if s := missing(importable, t2.inputs); s != nil {
		r.Fail("regressions", "an exported issue was not run again: %v", brief(s))
	}
	if t2.steps < len(importable) || strings.Contains(string(simos.Output()), "Failed to evaluate") {
		r.Fail("regressions", "exported issues fail on a correct implementation:\n%s", tail(string(simos.Output())))
	}
	r.Count("probe:rerun", uint64(len(importable)))
}

//go:norace
func finish(t *target) {
	if t.active != 0 {
		t.r.Fail("call-after-return", "the command returned while the implementation was working")
	}
	t.ended = true
}

func tail(s string) string {
	if len(s) > 600 {
		return "..." + s[len(s)-600:]
	}
	return s
}

// drvStats: exact counts, whatever the number of jobs.
func drvStats(r *simrt.R) {
	rules, filter := filtered(r, 40)
	full := r.Chance(1, 2)
	seed := r.U64()
	counts := map[string]int{}
	for _, rule := range spc.FilterRules(spc.Spec.GetRules(), regexp.MustCompile(filter)) {
		counts[rule.Name] = 0
	}
	total := 0
	for _, s := range delivered(rules, seed, full) {
		for _, rule := range spc.Spec.GetRulesFor(s) {
			counts[rule.Name]++
			total++
		}
	}
	var names []string
	for n := range counts {
		names = append(names, n)
	}
	sort.Strings(names)
	want := "rule,num_tests\n"
	for _, n := range names {
		want += fmt.Sprintf("%s,%d\n", n, counts[n])
	}
	simos.ClearOutput()
	jobs := r.Range(1, 4)
	r.Threads(1, func(int) {
		if err := driver.DoStats(ctx(&driver.StatsCmd, map[string]any{"filter": filter, "jobs": jobs, "seed": seed, "full-mode": full})); err != nil {
			r.Fail("stats", "unexpected error: %v", err)
		}
	})
	out := string(simos.Output())
	r.EventString(out)
	i := strings.Index(out, "rule,num_tests\n")
	if i < 0 || out[i:] != want {
		r.Fail("stats", "%d jobs, filter %s: the first difference between the statistics and the test cases is %s", jobs, filter, firstDiff(out[max(i, 0):], want))
	}
	if jobs > 1 && total > 1 {
		r.NonTrivial()
	}
	r.Note("%d jobs, filter %s: %d cases counted", jobs, filter, total)
}

// undecidable is a condition that fails to decide about any state.
type undecidable struct{}

func (undecidable) Check(*st.State) (bool, error)  { return false, errors.New("undecidable") }
func (undecidable) Restrict(*gen.StateGenerator)   {}
func (undecidable) GetTestValues() []rlz.TestValue { return nil }
func (undecidable) String() string                 { return "undecidable" }

// drvTest: conflicting rules are found, however they are spread.
func drvTest(r *simrt.R) {
	if r.Chance(1, 6) {
		drvSound(r)
		return
	}
	saved := spc.Spec
	defer func() { spc.Spec = saved }()
	var rules []rlz.Rule
	n := r.Range(1, 4)
	effects := make([]int, n)
	base := r.N(3)
	for i := range effects {
		effects[i] = base
		if r.Chance(1, 4) {
			effects[i] = r.N(3)
		}
	}
	split := r.Range(1, 5)
	perOp := r.Chance(1, 4)
	op := []vm.OpCode{vm.STOP, vm.ADD, vm.PUSH3, vm.SSTORE, vm.JUMPDEST}[r.N(5)]
	for i := 0; i < n; i++ {
		e := effects[i]
		cs := []rlz.Condition{rlz.Eq(rlz.Status(), st.Running), rlz.Eq(rlz.StackSize(), split)}
		if r.Chance(1, 3) {
			cs = append(cs, rlz.Lt(rlz.Gas(), tosca.Gas(r.Range(1, 100))))
		}
		if perOp { // of one instruction, else of none
			cs = append(cs, rlz.RevisionBounds(tosca.R07_Istanbul, tosca.R13_Cancun), rlz.Eq(rlz.Op(rlz.Pc()), op))
		}
		if r.Chance(1, 8) {
			cs = append(cs, undecidable{})
			r.Count("fault:undecidable-rule", 1)
		}
		rules = append(rules, rlz.Rule{Name: fmt.Sprintf("rule%d", i), Condition: rlz.And(cs...), Effect: rlz.Change(func(s *st.State) {
			switch e {
			case 1:
				s.Gas -= 5
			case 2:
				s.Stack.Push(common.NewU256(5))
			}
		})})
	}
	spc.Spec = spc.NewSpecificationMap(rules...)
	seed := r.U64()
	full := r.Chance(1, 2)
	conflicts := 0
	states := delivered(rules, seed, full)
	for _, s := range states {
		if !s.Code.IsCode(int(s.Pc)) {
			continue
		}
		match := map[int]bool{}
		for i, rule := range rules {
			if ok, err := rule.Condition.Check(s); ok && err == nil {
				match[effects[i]] = true
			}
		}
		if len(match) > 1 {
			conflicts++
		}
	}
	simos.ClearOutput()
	jobs := r.Range(1, 4)
	var err error
	r.Threads(1, func(int) {
		err = driver.DoTest(ctx(&driver.TestCmd, map[string]any{"jobs": jobs, "seed": seed, "full-mode": full}))
	})
	out := string(simos.Output())
	r.EventString(out)
	passed := strings.Contains(out, "All tests passed successfully!")
	if passed != (conflicts == 0) || (err != nil) != (conflicts > 0) {
		r.Fail("conflict", "%d of %d test cases have conflicting rules, the result is %v:\n%s", conflicts, len(states), err, tail(out))
	}
	if conflicts > 0 && !strings.Contains(err.Error(), fmt.Sprintf("failed to pass %d test cases", conflicts)) {
		r.Fail("conflict", "%d of %d test cases have conflicting rules, the result is %v", conflicts, len(states), err)
	}
	r.Count("fault:conflicting-rules", uint64(conflicts))
	if len(states) > 1 {
		r.NonTrivial()
	}
	r.Note("%d jobs, %d rules, %d states, %d conflicts", jobs, n, len(states), conflicts)
}

// drvSound: the rules of the specification do not contradict each other on
// the states they generate.
func drvSound(r *simrt.R) {
	rules, filter := filtered(r, 40)
	seed, full := r.U64(), r.Chance(1, 2)
	simos.ClearOutput()
	r.Threads(1, func(int) {
		if err := driver.DoTest(ctx(&driver.TestCmd, map[string]any{"filter": filter, "jobs": r.Range(1, 4), "seed": seed, "full-mode": full})); err != nil {
			r.Fail("unsound", "rules %s: %v\n%s", filter, err, tail(string(simos.Output())))
		}
	})
	r.EventString(string(simos.Output()))
	r.Count("probe:specification-rules", uint64(len(rules)))
	r.NonTrivial()
	r.Note("specification, filter %s: no conflict", filter)
}

// drvProbe: probing ends at its time limit or at the first issue.
func drvProbe(r *simrt.R) {
	t := &target{r: r, num: []int{0, 0, 60, 15, 4}[r.N(5)], slow: true, always: true}
	d := &disk{r: r, num: []int{0, 0, 4}[r.N(3)]}
	d.install()
	evmzero.Step = t.step
	jobs := r.Range(1, 4)
	minutes := r.Range(1, 2)
	seed := r.U64()
	d.on = true
	simos.ClearOutput()
	var err error
	start := time.Duration(time.Now().UnixNano())
	var end time.Duration
	r.Threads(1, func(int) {
		err = driver.DoProbe(ctx(&driver.ProbeCmd, map[string]any{"jobs": jobs, "seed": seed, "timeout": minutes}, "evmzero"))
		end = time.Duration(time.Now().UnixNano())
		finish(t)
	})
	d.on = false
	settle()
	out := string(simos.Output())
	r.EventString(out)
	other := strings.Count(out, "no rules for state") + strings.Count(out, "produce different results")
	n := len(t.issues) + t.unsup + other
	if limit := time.Duration(minutes)*time.Minute + 5*time.Second + 10*time.Second; end-start > limit {
		r.Fail("timeout", "probing took %v, the limit was %d minutes", end-start, minutes)
	}
	if n == 0 && end-start < time.Duration(minutes)*time.Minute {
		r.Fail("timeout", "probing ended after %v without an issue, the limit was %d minutes", end-start, minutes)
	}
	if d.mkdirs > 0 && n > 0 {
		if err == nil {
			r.Fail("verdict", "issues could not be exported, and no error was returned")
		}
	} else {
		if err != nil {
			r.Fail("verdict", "unexpected error %v", err)
		}
		if !strings.Contains(out, fmt.Sprintf("Issues found: %d\n", n)) {
			r.Fail("verdict", "%d issues, the report is:\n%s", n, tail(out))
		}
		if strings.Contains(out, "All tests passed successfully!") != (n == 0) {
			r.Fail("verdict", "%d issues, the report is:\n%s", n, tail(out))
		}
		for _, c := range t.causes {
			if !strings.Contains(out, c) {
				r.Fail("report", "the cause %q of an issue is not reported:\n%s", c, tail(out))
			}
		}
	}
	if t.late > 0 {
		r.Fail("stop", "%d steps were started after the time of the first issue", t.late)
	}
	if n > jobs {
		r.Fail("stop", "%d issues were collected by %d jobs that stop at the first", n, jobs)
	}
	if !strings.Contains(out, fmt.Sprintf("Random tests completed, %d tests executed\n", t.good)) {
		r.Fail("report", "%d tests were executed, the report is:\n%s", t.good, tail(out))
	}
	r.Count("probe:steps", uint64(t.steps))
	r.Count("probe:unruled", uint64(other))
	if t.peak > 1 || n > 0 {
		r.NonTrivial()
	}
	r.Note("%d jobs, %d min: %d steps in %v, %d issues", jobs, minutes, t.steps, end-start, n)
}

// drvRegressions: every readable input is run, whatever else lies around.
func drvRegressions(r *simrt.R) {
	var expect []*st.State
	steps := 0
	broken := 0
	put := func(name string, s *st.State) {
		if err := st.ExportStateJSON(s, name); err != nil {
			r.Fail("export", "%v", err)
		}
	}
	simos.Put("/in/.keep", nil)
	_ = simos.Remove("/in/.keep")
	unruled := 0
	seen := 0
	inputs := []string{"/in"}
	unreadable := map[string]bool{}
	for i, n := 0, r.Range(1, 6); i < n; i++ {
		dir := []string{"/in", "/in/a", "/in/a/b", "/in/c"}[r.N(4)]
		_ = simos.MkdirAll(dir, 0o755)
		rule := someRule(r, 20)
		states := delivered([]rlz.Rule{rule}, r.U64(), true)
		if len(states) == 0 {
			continue
		}
		seen++
		s := states[r.N(len(states))]
		for k := r.N(2) * 12; k > 0 && len(spc.Spec.GetRulesFor(s)) < 2; k-- {
			s = states[r.N(len(states))]
		}
		name := fmt.Sprintf("%s/case%d.json", dir, i)
		if r.Chance(1, 4) {
			// named itself
			_ = simos.MkdirAll("/alone", 0o755)
			name = fmt.Sprintf("/alone/case%d.json", i)
			inputs = append(inputs, name)
		}
		put(name, s)
		switch r.N(8) {
		case 0:
			b := simos.Content(name)
			simos.Put(name, b[:r.N(len(b))])
			r.Count("fault:torn-file", 1)
			broken++
			continue
		case 1:
			simos.Put(name, []byte([]string{"", "[]", "{\"Gas\": \"a\"}", "\x00\x01"}[r.N(4)]))
			r.Count("fault:garbage-file", 1)
			broken++
			continue
		case 2:
			unreadable[name] = true
			r.Count("fault:unreadable-file", 1)
			broken++
			continue
		}
		rules := spc.Spec.GetRulesFor(s)
		if len(rules) == 0 {
			unruled++
		} else if s.Code.IsCode(int(s.Pc)) {
			expect = append(expect, s)
			steps += len(rules)
			if len(rules) > 1 {
				r.Count("probe:several-rules", 1)
			}
		}
	}
	for i := len(inputs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		inputs[i], inputs[j] = inputs[j], inputs[i]
	}
	simos.Hook = func(op, name string, n int) (int, error) {
		if unreadable[name] && (op == "open" || op == "read") {
			return 0, syscall.EIO
		}
		return n, nil
	}
	t := &target{r: r, num: []int{0, 3}[r.N(2)]}
	evmzero.Step = t.step
	simos.ClearOutput()
	var err error
	r.Threads(1, func(int) {
		err = driver.DoRegressions(ctx(&driver.RegressionsCmd, map[string]any{"input": inputs}, "evmzero"))
	})
	simos.Hook = nil
	out := string(simos.Output())
	r.EventString(out)
	if err != nil {
		r.Fail("regressions", "unexpected error %v", err)
	}
	if n := strings.Count("\n"+out, "\nFailed to import state from "); n != broken {
		r.Fail("regressions", "%d files are broken, %d are reported:\n%s", broken, n, tail(out))
	}
	if n := strings.Count("\n"+out, "\nNo rules apply for input "); n != unruled {
		r.Fail("regressions", "no rule applies to %d files, %d are reported:\n%s", unruled, n, tail(out))
	}
	if s := missing(expect, t.inputs); s != nil || t.steps != steps {
		r.Fail("regressions", "%d steps were executed for %d files, expected %d", t.steps, len(expect), steps)
	}
	bad := len(t.issues) + t.unsup
	if n := strings.Count("\n"+out, "\nOK: "); n != steps-bad {
		r.Fail("verdict", "%d of %d steps misbehaved, %d are reported as passed:\n%s", bad, steps, n, tail(out))
	}
	if n := strings.Count("\n"+out, "\nFailed to evaluate rule "); n != bad {
		r.Fail("verdict", "%d of %d steps misbehaved, %d are reported:\n%s", bad, steps, n, tail(out))
	}
	if seen > 1 {
		r.NonTrivial()
	}
	r.Note("%d files, %d broken, %d steps, %d misbehaved", seen, broken, steps, bad)
}
