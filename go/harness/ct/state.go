package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/gen"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"github.com/Fantom-foundation/Tosca/go/dst/evmref"
	"github.com/Fantom-foundation/Tosca/go/dst/simos"
	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"pgregory.net/rand"
)

// freshState builds a state without cloning: from a rule, from nothing, or
// with a contract.
func freshState(r *simrt.R, seed uint64) *st.State {
	switch r.N(10) {
	default:
		code := make([]byte, r.N(40))
		rnd := rand.New(seed)
		_, _ = rnd.Read(code)
		s := st.NewState(st.NewCode(code))
		s.Revision = tosca.Revision(r.N(7))
		s.Gas = tosca.Gas(r.N(100000))
		if r.Chance(1, 2) {
			s.BlockContext.BlockNumber = uint64(r.N(300))
			s.CallContext.AccountAddress = tosca.Address{1}
			for k := r.N(8); k > 0; k-- {
				mutate(s, r.N(24), r.U64(), nil)
			}
		}
		return s
	case 1:
	case 0:
		rule := composed(r)
		g := gen.NewStateGenerator()
		rule.Condition.Restrict(g)
		if s, err := g.Generate(rand.New(seed)); err == nil {
			return s
		}
	}
	rule := someRule(r, 20)
	var res *st.State
	_ = rule.EnumerateTestCases(rand.New(seed), func(s *st.State) rlz.ConsumerResult {
		res = s.Clone() // the enumeration recycles its states
		return rlz.ConsumeAbort
	})
	if res == nil {
		return st.NewState(st.NewCode([]byte{0x60, 1, 0x60, 2, 1}))
	}
	return res
}

// mutate applies one operation; what it does depends on kind, the seed and
// the state only.
func mutate(s *st.State, kind int, seed uint64, vm interface {
	StepN(*st.State, int) (*st.State, error)
}) *st.State {
	rnd := rand.New(seed)
	key := common.NewU256(uint64(rnd.Intn(4)))
	val := common.NewU256(uint64(rnd.Intn(3)))
	addr := tosca.Address{byte(rnd.Intn(4))}
	data := make([]byte, rnd.Intn(70))
	_, _ = rnd.Read(data)
	switch kind {
	case 0:
		for n := rnd.Intn(8); n > 0 && s.Stack.Size() < st.MaxStackSize; n-- {
			v := common.NewU256(rnd.Uint64())
			s.Stack.Push(v)
			if n := s.Stack.Size(); s.Stack.Get(0) != v {
				wrong("%v pushed on the stack, %v is on top of %d", v, s.Stack.Get(0), n)
			}
		}
	case 1:
		for n := rnd.Intn(8); n > 0 && s.Stack.Size() > 0; n-- {
			s.Stack.Pop()
		}
	case 2:
		if n := s.Stack.Size(); n > 0 {
			s.Stack.Set(rnd.Intn(n), common.NewU256(rnd.Uint64()))
		}
	case 3:
		old := s.Stack.Size()
		n := rnd.Intn(40)
		s.Stack.Resize(n)
		for i := 0; i < n; i++ {
			s.Stack.Set(i, common.NewU256(uint64(i+old)))
		}
	case 4:
		at := uint64(rnd.Intn(100))
		s.Memory.Write(data, at)
		if got := s.Memory.Read(at, uint64(len(data))); !bytes.Equal(got, data) {
			wrong("%x written to memory, %x read", data, got)
		}
	case 5:
		s.Memory.Grow(uint64(rnd.Intn(100)), uint64(rnd.Intn(100)))
	case 6:
		if rnd.Intn(2) == 0 {
			s.Memory.Set(data)
			data = append(data, 1)
			data[0] = ^data[0]
		} else {
			s.Memory.Append(data)
		}
	case 7:
		s.Storage.SetCurrent(key, val)
		if got := s.Storage.GetCurrent(key); got != val {
			wrong("after Storage.SetCurrent the value is %v", got)
		}
	case 8:
		s.Storage.SetOriginal(key, val)
		if got := s.Storage.GetOriginal(key); got != val {
			wrong("after Storage.SetOriginal the value is %v", got)
		}
	case 9:
		switch rnd.Intn(3) {
		case 0:
			s.Storage.RemoveCurrent(key)
		case 1:
			s.Storage.RemoveOriginal(key)
		default:
			s.Storage.MarkCold(key)
		}
	case 10:
		s.Storage.MarkWarm(key)
		if got := s.Storage.IsWarm(key); !got {
			wrong("after Storage.MarkWarm the value is %v", got)
		}
	case 11:
		s.TransientStorage.Set(key, val)
		if got := s.TransientStorage.Get(key); got != val {
			wrong("after TransientStorage.Set the value is %v", got)
		}
	case 12:
		s.Accounts.SetBalance(addr, val)
		if got := s.Accounts.GetBalance(addr); got != val {
			wrong("after Accounts.SetBalance the value is %v", got)
		}
	case 13:
		s.Accounts.MarkWarm(addr)
		if got := s.Accounts.IsWarm(addr); !got {
			wrong("after Accounts.MarkWarm the value is %v", got)
		}
	case 14:
		topics := []common.U256{key, val}
		s.Logs.AddLog(data, topics[:rnd.Intn(3)]...)
		topics[0] = common.NewU256(77)
		if len(data) > 0 {
			data[0]++
		}
	case 15:
		if n := len(s.Logs.Entries); n > 0 {
			e := &s.Logs.Entries[rnd.Intn(n)]
			if len(e.Data) > 0 {
				e.Data[rnd.Intn(len(e.Data))]++
			}
			if len(e.Topics) > 0 {
				e.Topics[rnd.Intn(len(e.Topics))] = key
			}
		}
	case 16:
		r := s.CallJournal.Call(tosca.CallKind(rnd.Intn(4)), tosca.CallParameters{Recipient: addr, Input: data, Gas: tosca.Gas(rnd.Intn(1000))})
		for i := range r.Output {
			r.Output[i]++
		}
	case 17:
		s.CallJournal.Future = append(s.CallJournal.Future, st.FutureCall{Success: rnd.Intn(2) == 0, Output: common.NewBytes(data), GasCosts: tosca.Gas(rnd.Intn(100)), CreatedAccount: addr})
	case 18:
		s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.NewSelfDestructEntry(addr, tosca.Address{1}))
		s.HasSelfDestructed = true
	case 19:
		if n := len(s.SelfDestructedJournal); n > 0 {
			s.SelfDestructedJournal[rnd.Intn(n)] = st.NewSelfDestructEntry(addr, addr)
		}
	case 20:
		if n := len(s.TransactionContext.BlobHashes); n > 0 && rnd.Intn(2) == 0 {
			s.TransactionContext.BlobHashes[rnd.Intn(n)] = tosca.Hash{byte(rnd.Intn(256))}
		} else {
			s.TransactionContext.BlobHashes = append(s.TransactionContext.BlobHashes, tosca.Hash{byte(rnd.Intn(256))})
		}
	case 21:
		s.TransactionContext.OriginAddress = addr
	case 22:
		s.Pc, s.Gas, s.GasRefund = uint16(rnd.Intn(30)), tosca.Gas(rnd.Intn(100000)), tosca.Gas(rnd.Intn(10))
	case 23:
		switch rnd.Intn(9) {
		case 0:
			s.Status = st.StatusCode(rnd.Intn(int(st.NumStatusCodes)))
		case 1:
			s.ReadOnly = !s.ReadOnly
		case 2:
			s.CallContext.Value = val
		case 3:
			s.BlockContext.BlockNumber++
		case 4:
			s.CallData = common.NewBytes(data)
		case 5:
			s.LastCallReturnData = common.NewBytes(data)
		case 6:
			s.ReturnData = common.NewBytes(data)
		case 7:
			s.RecentBlockHashes = common.NewRandomImmutableHashArray(rnd)
		default:
			s.Code = st.NewCode(data)
		}
	case 24, 25:
		if rules := spc.Spec.GetRulesFor(s); len(rules) > 0 {
			rules[0].Effect.Apply(s)
		}
	case 26, 27:
		if s.Code.IsCode(int(s.Pc)) && s.Gas < 1_000_000 {
			if res, err := vm.StepN(s, 1+rnd.Intn(4)); err == nil {
				return res
			}
		}
	case 28:
		b := s.Memory.Read(0, uint64(s.Memory.Size()))
		for i := range b {
			b[i]++
		}
		if a, h := s.Accounts.GetCode(addr), s.Accounts.GetCodeHash(addr); h == (tosca.Hash{}) && strings.Contains(os.Getenv("SIM_KNOWN"), "account-code-hash-zero") {
			zeroHashes.Add(1)
		} else if h != evmref.Keccak(a.ToBytes()) {
			wrong("the hash of code %v is %x", a, h)
		}
		c := s.Code.Copy()
		for i := range c {
			c[i]++
		}
		_, _ = s.String(), s.Code.Hash()
	case 29, 30, 31:
		tweak(s, rnd)
	}
	return s
}

const mutations = 32

// zeroHashes counts a known finding.
var zeroHashes atomic.Uint64

// wrong is told about changes without the effect they are made for.
var wrong = func(string, ...any) {}

// tweak changes one number, flag or text anywhere in a state.
func tweak(s *st.State, rnd *rand.Rand) {
	var leaves []reflect.Value
	var collect func(v reflect.Value)
	collect = func(v reflect.Value) {
		switch v.Type() { // parts shared by states are not even read
		case reflect.TypeFor[common.U256](), reflect.TypeFor[common.Bytes]():
			leaves = append(leaves, v)
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					collect(v.Field(i))
				}
			}
		case reflect.Pointer:
			if !v.IsNil() {
				collect(v.Elem())
			}
		case reflect.Array, reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				if v.Len() > 0 {
					leaves = append(leaves, v)
				}
				return
			}
			for i := 0; i < v.Len() && i < 10; i++ {
				collect(v.Index(i))
			}
		default:
			leaves = append(leaves, v)
		}
	}
	collect(reflect.ValueOf(s).Elem())
	v := leaves[rnd.Intn(len(leaves))]
	switch x := v.Interface().(type) {
	case common.U256:
		v.Set(reflect.ValueOf(x.Add(common.NewU256(1))))
		return
	case common.Bytes:
		v.Set(reflect.ValueOf(common.NewBytes(append(x.ToBytes(), 7))))
		return
	case tosca.Revision:
		v.SetInt(int64(x+1) % 7)
		return
	case tosca.CallKind:
		v.SetInt(int64(x+1) % 6)
		return
	case st.StatusCode:
		v.SetInt(int64(x+1) % int64(st.NumStatusCodes))
		return
	}
	switch {
	case v.Kind() == reflect.Array || v.Kind() == reflect.Slice:
		e := v.Index(rnd.Intn(v.Len()))
		e.SetUint((e.Uint() + 1) & 255)
	case v.CanInt():
		v.SetInt(v.Int() + 1)
	case v.CanUint():
		v.SetUint(v.Uint() ^ 1)
	case v.Kind() == reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// look renders everything there is to see of a state.
func look(r *simrt.R, s *st.State) string {
	hook := simos.Hook
	simos.Hook = nil
	defer func() { simos.Hook = hook }()
	if err := st.ExportStateJSON(s, "/work/.look"); err != nil {
		r.Fail("export", "a state cannot be exported: %v", err)
	}
	return empties.ReplaceAllString(string(simos.Content("/work/.look")), ": null")
}

var empties = regexp.MustCompile(`: (\[\]|\{\})`)

// essence is what the comparison of states has to look at.
func essence(r *simrt.R, text string, codeLen int) map[string]any {
	var m map[string]any
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		r.Fail("export", "the exported state is not valid: %v", err)
	}
	zero := common.NewU256(0).String()
	prune := func(path ...string) {
		x := m
		for _, p := range path[:len(path)-1] {
			x, _ = x[p].(map[string]any)
		}
		y, _ := x[path[len(path)-1]].(map[string]any)
		for k, v := range y {
			if v == zero || v == false {
				delete(y, k)
			}
		}
		if len(y) == 0 {
			x[path[len(path)-1]] = nil
		}
	}
	prune("Storage", "Current")
	prune("Storage", "Original")
	prune("Storage", "Warm")
	prune("TransientStorage", "Storage")
	switch m["Status"] {
	case "failed":
		return map[string]any{"Status": "failed"}
	case "running":
		delete(m, "ReturnData")
		if n, err := m["Pc"].(json.Number).Int64(); err == nil && int(n) >= codeLen {
			m["Pc"] = "end"
		}
	default:
		for _, k := range []string{"Pc", "Stack", "Memory", "LastCallReturnData"} {
			delete(m, k)
		}
	}
	var strip func(x any) any
	strip = func(x any) any {
		switch y := x.(type) {
		case map[string]any:
			for k, v := range y {
				if v = strip(v); v == nil {
					delete(y, k)
				} else {
					y[k] = v
				}
			}
			if len(y) == 0 {
				return nil
			}
		case []any:
			if len(y) == 0 {
				return nil
			}
			for i := range y {
				y[i] = strip(y[i])
			}
		}
		return x
	}
	strip(m)
	return m
}

func sameEssence(r *simrt.R, a, b *st.State, la, lb string) (bool, string) {
	x, y := essence(r, la, a.Code.Length()), essence(r, lb, b.Code.Length())
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	if bytes.Equal(p, q) {
		return true, ""
	}
	var d []string
	for k := range x {
		u, _ := json.Marshal(x[k])
		v, _ := json.Marshal(y[k])
		if !bytes.Equal(u, v) {
			d = append(d, fmt.Sprintf("%s: %.80s and %.80s", k, u, v))
		}
	}
	for k := range y {
		if _, ok := x[k]; !ok {
			d = append(d, fmt.Sprintf("%s: absent and present", k))
		}
	}
	return false, strings.Join(d, "; ")
}

type handle struct {
	s    *st.State
	look string
}

// states: a history of copies, changes, releases, exports and imports of
// states that must not influence each other.
func states(r *simrt.R) {
	vm := lfvm.NewConformanceTestingTarget()
	wrong = func(format string, args ...any) { r.Fail("value", format, args...) }
	var hs []*handle
	files := map[string][]string{} // contents a file may have; nil if torn is possible
	names := []string{"/work/a.json", "/work/b.json"}
	add := func(s *st.State) *handle {
		h := &handle{s, look(r, s)}
		hs = append(hs, h)
		return h
	}
	check := func(what string, except *handle) {
		for i, h := range hs {
			if h == except {
				h.look = look(r, h.s)
				continue
			}
			if now := look(r, h.s); now != h.look {
				r.Fail("aliasing", "%s changed another state (%d): first difference %s", what, i, firstDiff(h.look, now))
			}
		}
	}
	add(freshState(r, r.U64()))
	ops := r.Range(3, 25)
	done := 0
	for k := 0; k < ops; k++ {
		h := hs[r.N(len(hs))]
		done++
		switch op := r.N(12); {
		case op < 2 && len(hs) < 6: // copy
			c := add(h.s.Clone())
			if c.look != h.look {
				r.Fail("clone", "a copy differs from its original: %s", firstDiff(h.look, c.look))
			}
			if !c.s.Eq(h.s) || !h.s.Eq(c.s) || len(c.s.Diff(h.s)) > 0 {
				r.Fail("clone", "a copy does not equal its original: %v", c.s.Diff(h.s))
			}
			check("Clone", nil)
			r.Count("probe:clones", 1)
		case op == 2 && len(hs) > 1: // give up
			for i := range hs {
				if hs[i] == h {
					hs = append(hs[:i], hs[i+1:]...)
					break
				}
			}
			h.s.Release()
			check("Release", nil)
			r.Count("probe:releases", 1)
		case op == 3: // another state
			if len(hs) < 6 {
				add(freshState(r, r.U64()))
				check("a new state", nil)
			}
		case op == 4 || op == 5: // save, with a disk that may fail
			name := names[r.N(2)]
			fault := r.Fault("disk", 1, 3)
			fired, crash := false, fault && r.Chance(1, 2)
			if fault {
				at := r.N(3)
				simos.Hook = func(o, f string, n int) (int, error) {
					i := map[string]int{"create": 0, "write": 1, "close": 2}
					if j, ok := i[o]; ok && j == at && !fired {
						fired = true
						k := r.N(n + 1)
						if crash {
							simos.CrashAfter = true
							return k, nil
						}
						return k, []error{syscall.ENOSPC, syscall.EIO}[r.N(2)]
					}
					return n, nil
				}
			}
			crashed, err := saving(h.s, name)
			simos.Hook = nil
			simos.CrashAfter = false
			switch {
			case fired:
				r.Count("fault:export-interrupted", 1)
				if !crashed && !crash && err == nil {
					r.Fail("export", "the disk failed, and the export reports success")
				}
				files[name] = append(files[name], h.look)
			case err != nil:
				r.Fail("export", "the export failed on a working disk: %v", err)
			default:
				files[name] = []string{h.look}
			}
			check("an export", nil)
		case op == 6: // restart from a file
			name := names[r.N(2)]
			if len(files[name]) == 0 {
				break
			}
			s, err := st.ImportStateJSON(name)
			if err != nil {
				if len(files[name]) == 1 && empties.ReplaceAllString(string(simos.Content(name)), ": null") == files[name][0] {
					r.Fail("import", "an exported state cannot be imported: %v", err)
				}
				r.Count("probe:imports-refused", 1)
				break
			}
			got := look(r, s)
			known := false
			for _, l := range files[name] {
				known = known || l == got
			}
			if !known {
				r.Fail("import", "the imported state was never exported to this file: %s", firstDiff(files[name][len(files[name])-1], got))
			}
			if len(hs) < 6 {
				add(s)
				check("an import", nil)
			}
			r.Count("probe:imports", 1)
		default: // change, next to a copy of the state that went through a file
			kind, seed := r.N(mutations), r.U64()
			var twin *st.State
			if r.Chance(1, 3) {
				if _, err := saving(h.s, "/work/twin.json"); err != nil {
					r.Fail("export", "%v", err)
				}
				t, err := st.ImportStateJSON("/work/twin.json")
				if err != nil {
					r.Fail("import", "an exported state cannot be imported: %v", err)
				}
				twin = t
				if !twin.Eq(h.s) || !h.s.Eq(twin) || len(twin.Diff(h.s)) > 0 || look(r, twin) != h.look {
					r.Fail("import", "an imported state differs from the exported one: %v %s", twin.Diff(h.s), firstDiff(h.look, look(r, twin)))
				}
			} else if r.Chance(1, 2) {
				twin = h.s.Clone()
			}
			before := h.s.Clone()
			was := h.look
			h.s = mutate(h.s, kind, seed, vm)
			check(fmt.Sprintf("change %d", kind), h)
			if l := look(r, before); l != was {
				r.Fail("aliasing", "change %d of a state changed a copy made before: %s", kind, firstDiff(was, l))
			}
			if twin != nil {
				twin = mutate(twin, kind, seed, vm)
				l := look(r, twin)
				if ok, d := sameEssence(r, h.s, twin, h.look, l); !ok {
					r.Fail("clone", "change %d has a different effect on a copy: %s", kind, d)
				}
			}
			same, d := sameEssence(r, before, h.s, was, h.look)
			if eq := before.Eq(h.s); eq && !same || eq != h.s.Eq(before) {
				r.Fail("equality", "after change %d, Eq is %v and %v: %s", kind, eq, h.s.Eq(before), d)
			}
			if !same && len(before.Diff(h.s)) == 0 {
				r.Fail("equality", "after change %d, Diff is empty: %s", kind, d)
			}
			check("a comparison", nil)
			r.Count("probe:changes", 1)
		}
	}
	r.Event(uint64(len(hs)))
	for _, h := range hs {
		r.EventString(h.look)
	}
	if done > 2 {
		r.NonTrivial()
	}
	if n := zeroHashes.Swap(0); n > 0 {
		r.Count("known:account-code-hash-zero", n)
	}
	r.Note("%d operations, %d states at the end", done, len(hs))
}

func saving(s *st.State, name string) (crashed bool, err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(simos.Crash); !ok {
				panic(e)
			}
			crashed = true
		}
	}()
	return false, st.ExportStateJSON(s, name)
}

// shared: goroutines work on copies of the same states.
func shared(r *simrt.R) {
	n := r.Range(2, 4)
	vm := lfvm.NewConformanceTestingTarget()
	var base []*st.State
	for i := r.Range(1, 2); i > 0; i-- {
		base = append(base, freshState(r, r.U64()))
	}
	type step struct {
		base, kind int
		seed       uint64
	}
	plans := make([][]step, n)
	for i := range plans {
		for k := r.Range(1, 6); k > 0; k-- {
			plans[i] = append(plans[i], step{r.N(len(base)), r.N(mutations), r.U64()})
		}
	}
	execute := func(i int, from []*st.State, pass bool) []*st.State {
		var mine []*st.State
		for _, s := range from {
			if pass {
				simrt.Y()
			}
			mine = append(mine, s.Clone())
		}
		for _, p := range plans[i] {
			mine[p.base] = mutate(mine[p.base], p.kind, p.seed, vm)
			if p.seed%4 == 0 {
				old := mine[p.base]
				mine[p.base] = old.Clone()
				old.Release()
			}
		}
		return mine
	}
	want := make([][]string, n)
	for i := range want {
		for _, s := range execute(i, base, false) {
			want[i] = append(want[i], look(r, s))
			s.Release()
		}
	}
	var basis []string
	for _, s := range base {
		basis = append(basis, look(r, s))
	}
	got := make([][]*st.State, n)
	r.Threads(n, func(i int) { got[i] = execute(i, base, true) })
	for i := range got {
		for k, s := range got[i] {
			if l := look(r, s); l != want[i][k] {
				r.Fail("interference", "the work of a goroutine on its own copy gave another result than alone: %s", firstDiff(want[i][k], l))
			}
		}
	}
	for k, s := range base {
		if l := look(r, s); l != basis[k] {
			r.Fail("interference", "the work on copies changed the original: %s", firstDiff(basis[k], l))
		}
	}
	r.NonTrivial()
	r.Note("%d goroutines on copies of %d states", n, len(base))
}

func brief(s *st.State) string {
	op, _ := s.Code.GetOperation(int(s.Pc))
	return fmt.Sprintf("{%v %v pc %d %v gas %d refund %d stack %d}", s.Status, s.Revision, s.Pc, op, s.Gas, s.GasRefund, s.Stack.Size())
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%q and %q", p, q)
		}
	}
	return "none"
}
