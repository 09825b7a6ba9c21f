// Simulation of the registries through which implementations are found:
// goroutines register and look up under names in differing case while others
// list, create, and change the listings they got.
package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Fantom-foundation/Tosca/go/dst/simrt"
	"github.com/Fantom-foundation/Tosca/go/tosca"
)

func main() {
	simrt.Main(simrt.Harness{Name: "reg", Run: run, Cap: 3_000_000})
}

// An entry is an operation in the recorded history.
type entry struct {
	kind     byte // 'w' registration, 'r' lookup, 'l' listing
	key      int  // canonical name, for 'w' and 'r'
	failed   bool // registration refused
	value    int  // id of the factory found or registered, -1 if none
	list     []int
	inv, ret uint64
	client   int
	text     string
	outcome  int // of a creation: what create returned as id
}

type product struct {
	tosca.Interpreter
	id     int
	config any
	impl   bool // registered itself, without a factory
}

type processor struct {
	tosca.Processor
	id  int
	arg tosca.Interpreter
}

var errFactory = errors.New("injected: out of memory")

// The history is bookkeeping of the harness and must not order clients.
type book struct {
	clock   uint64
	running int
	ids     int
	log     []entry
	n       int
}

//go:norace
func (b *book) tick() uint64 { b.clock++; return b.clock }

//go:norace
func (b *book) id() int { b.ids++; return b.ids }

//go:norace
func (b *book) enter(r *simrt.R) {
	b.running++
	if b.running > 1 {
		r.NonTrivial()
	}
}

//go:norace
func (b *book) leave() { b.running-- }

//go:norace
func (b *book) add(e entry) {
	if b.n < len(b.log) {
		b.log[b.n] = e
		b.n++
	}
}

// spellings of the names: each row is one name of the registry.
var spellings = [][]string{
	{"evm", "EVM", "Evm"},
	{"lfvm-si", "LFVM-SI", "lfvm-Si"},
	{"geth", "Geth"},
	{"évm", "ÉVM"},
	{"", ""},
	{"evm ", "EVM "},
}

// A registry hides which of the two registries is used.
type registry struct {
	name     string
	register func(name string, id int, b behaviour) error
	find     func(name string) int              // id of the factory, -1 if none
	create   func(name string, arg int) outcome // through the convenience function
	list     func(touch bool) map[string]int
}

type behaviour struct {
	kind  byte // 'o' ok, 'e' error, 'p' panic, 'n' uses the registry itself, 's' slow
	other string
}

type outcome struct {
	id       int // -1 nothing found
	err      error
	panicked bool
	arg      int
}

// ids of factories are observed by calling them in inspection mode, in which
// they do nothing else.
type inspect struct{ id *int }

type state struct {
	r         *simrt.R
	b         *book
	behaviour [256]behaviour
	calls     [256]int
}

//go:norace
func (s *state) called(id int) { s.calls[id]++ }

//go:norace
func (s *state) timesCalled(id int) int { return s.calls[id] }

//go:norace
func (s *state) set(id int, b behaviour) { s.behaviour[id] = b }

//go:norace
func (s *state) get(id int) behaviour { return s.behaviour[id] }

// act is what a factory does when it is used.
func (s *state) act(id int, nested func(string)) error {
	s.called(id)
	simrt.Y()
	switch b := s.get(id); b.kind {
	case 'e':
		s.r.Count("fault:factory-error", 1)
		return errFactory
	case 'p':
		s.r.Count("fault:factory-panic", 1)
		panic(errFactory)
	case 'n':
		s.r.Count("fault:factory-reenters", 1)
		nested(b.other)
	case 's':
		s.r.Count("fault:factory-slow", 1)
		time.Sleep(time.Second)
	}
	return nil
}

func interpreters(s *state) registry {
	var g registry
	g.name = "interpreter"
	make1 := func(id int) tosca.InterpreterFactory {
		return func(c any) (tosca.Interpreter, error) {
			if i, ok := c.(inspect); ok {
				*i.id = id
				return nil, nil
			}
			if err := s.act(id, func(n string) {
				tosca.GetInterpreterFactory(n)
				tosca.GetAllRegisteredInterpreters()
			}); err != nil {
				// a careless factory: a value next to its error
				return product{id: id, config: c}, err
			}
			return product{id: id, config: c}, nil
		}
	}
	which := func(f tosca.InterpreterFactory) int {
		if f == nil {
			return -1
		}
		id := -2
		if i, _ := f(inspect{&id}); id == -2 {
			if p, ok := i.(product); ok && p.impl {
				return p.id
			}
		}
		return id
	}
	g.register = func(name string, id int, b behaviour) (err error) {
		s.set(id, b)
		switch s.r.N(5) {
		case 0:
			return tosca.RegisterInterpreterFactory(name, make1(id))
		case 3:
			s.set(id, behaviour{kind: 'o'})
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("%v", e)
				}
			}()
			tosca.RegisterInterpreter(name, product{id: id, impl: true})
			return nil
		case 2:
			refused := false
			func() {
				defer func() { refused = recover() != nil }()
				tosca.RegisterInterpreter(name, nil)
			}()
			if !refused {
				s.r.Fail("nil-accepted", "a nil interpreter was accepted for %q", name)
			}
			return tosca.RegisterInterpreterFactory(name, make1(id))
		case 1:
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("%v", e)
				}
			}()
			tosca.MustRegisterInterpreterFactory(name, make1(id))
			return nil
		default:
			if err := tosca.RegisterInterpreterFactory(name, nil); err == nil {
				s.r.Fail("nil-accepted", "a nil factory was accepted for %q", name)
			}
			return tosca.RegisterInterpreterFactory(name, make1(id))
		}
	}
	g.find = func(name string) int { return which(tosca.GetInterpreterFactory(name)) }
	g.create = func(name string, arg int) (o outcome) {
		defer func() {
			if e := recover(); e != nil {
				o = outcome{id: -3, panicked: true, arg: -1}
				if e != any(errFactory) {
					s.r.Fail("panic", "creating interpreter %q panicked: %v", name, e)
				}
			}
		}()
		var p tosca.Interpreter
		var err error
		switch form := s.r.N(4); form {
		case 0:
			p, err = tosca.NewInterpreter(name)
			arg = -1
		case 1:
			p = tosca.GetInterpreter(name)
			arg = -1
			if p == nil {
				return outcome{id: -4}
			}
		case 2:
			before := s.r.N(1)
			_, err2 := tosca.NewInterpreter(name, before, before)
			if err2 == nil {
				s.r.Fail("config-accepted", "two configurations were accepted for %q", name)
			}
			p, err = tosca.NewInterpreter(name, arg)
		default:
			p, err = tosca.NewInterpreter(name, arg)
		}
		if err != nil {
			if errors.Is(err, errFactory) {
				return outcome{id: -5, err: err}
			}
			if p != nil {
				s.r.Fail("result-with-error", "NewInterpreter(%q) returned %v and error %v", name, p, err)
			}
			return outcome{id: -1, err: err}
		}
		q, ok := p.(product)
		if !ok {
			s.r.Fail("wrong-product", "NewInterpreter(%q) returned %v", name, p)
		}
		if q.impl {
			return outcome{id: q.id}
		}
		got := -1
		if q.config != nil {
			got, _ = q.config.(int)
		}
		if got != arg {
			s.r.Fail("wrong-config", "NewInterpreter(%q, %d): the factory received %v", name, arg, q.config)
		}
		return outcome{id: q.id}
	}
	g.list = func(touch bool) map[string]int {
		m := tosca.GetAllRegisteredInterpreters()
		simrt.Y()
		out := map[string]int{}
		for _, row := range spellings {
			k := strings.ToLower(row[0])
			if f, ok := m[k]; ok {
				out[k] = which(f)
			}
		}
		if len(out) != len(m) {
			s.r.Fail("foreign-name", "the listing holds %d names, %d of them known: %v", len(m), len(out), m)
		}
		if touch && m != nil {
			if s.r.Chance(1, 2) {
				clear(m)
			}
			m["evm"] = make1(255)
			m["EVM"] = make1(255)
		}
		return out
	}
	return g
}

func processors(s *state) registry {
	var g registry
	g.name = "processor"
	make1 := func(id int) tosca.ProcessorFactory {
		return func(i tosca.Interpreter) tosca.Processor {
			if p, ok := i.(product); ok && p.id == 0 {
				*(p.config.(inspect).id) = id
				return nil
			}
			if err := s.act(id, func(n string) {
				tosca.GetProcessorFactory(n)
				tosca.GetAllRegisteredProcessorFactories()
			}); err != nil {
				return nil
			}
			return processor{id: id, arg: i}
		}
	}
	which := func(f tosca.ProcessorFactory) int {
		if f == nil {
			return -1
		}
		id := -2
		_ = f(product{config: inspect{&id}})
		return id
	}
	g.register = func(name string, id int, b behaviour) (err error) {
		s.set(id, b)
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("%v", e)
			}
		}()
		if s.r.Chance(1, 4) {
			func() {
				defer func() {
					if recover() == nil {
						s.r.Fail("nil-accepted", "a nil processor factory was accepted for %q", name)
					}
				}()
				tosca.RegisterProcessorFactory(name, nil)
			}()
		}
		tosca.RegisterProcessorFactory(name, make1(id))
		return nil
	}
	g.find = func(name string) int { return which(tosca.GetProcessorFactory(name)) }
	g.create = func(name string, arg int) (o outcome) {
		defer func() {
			if e := recover(); e != nil {
				o = outcome{id: -3, panicked: true}
				if e != any(errFactory) {
					s.r.Fail("panic", "creating processor %q panicked: %v", name, e)
				}
			}
		}()
		p := tosca.GetProcessor(name, product{id: 1, config: arg})
		if p == nil {
			return outcome{id: -4}
		}
		q, ok := p.(processor)
		if !ok {
			s.r.Fail("wrong-product", "GetProcessor(%q) returned %v", name, p)
		}
		if i, ok := q.arg.(product); !ok || i.config != arg {
			s.r.Fail("wrong-config", "GetProcessor(%q): the factory received interpreter %v", name, q.arg)
		}
		return outcome{id: q.id}
	}
	g.list = func(touch bool) map[string]int {
		m := tosca.GetAllRegisteredProcessorFactories()
		simrt.Y()
		out := map[string]int{}
		for _, row := range spellings {
			k := strings.ToLower(row[0])
			if f, ok := m[k]; ok {
				out[k] = which(f)
			}
		}
		if len(out) != len(m) {
			s.r.Fail("foreign-name", "the listing holds %d names, %d of them known: %v", len(m), len(out), m)
		}
		if touch && m != nil {
			if s.r.Chance(1, 2) {
				clear(m)
			}
			m["evm"] = make1(255)
			m["EVM"] = make1(255)
		}
		return out
	}
	return g
}

func run(r *simrt.R) {
	s := &state{r: r, b: &book{log: make([]entry, 256)}}
	both := []registry{interpreters(s), processors(s)}
	g := both[r.N(2)]
	names := r.Range(1, len(spellings))
	clients := r.Range(2, 4)
	kinds := "ooepns"
	r.Threads(clients, func(c int) {
		for k := r.Range(1, 5); k > 0; k-- {
			key := r.N(names)
			row := spellings[key]
			name := row[r.N(len(row))]
			e := entry{key: key, client: c, value: -1}
			s.b.enter(r)
			switch r.N(7) {
			case 0, 1, 2:
				e.kind = 'w'
				e.value = s.b.id()
				b := behaviour{kind: kinds[r.N(len(kinds))], other: name}
				e.inv = s.b.tick()
				e.failed = g.register(name, e.value, b) != nil
				e.ret = s.b.tick()
			case 3, 4:
				e.kind = 'r'
				e.inv = s.b.tick()
				e.value = g.find(name)
				e.ret = s.b.tick()
			case 5:
				e.kind = 'r'
				e.inv = s.b.tick()
				o := g.create(name, int(s.b.id())+1000)
				e.ret = s.b.tick()
				e.value = o.id
				if o.id < -2 {
					e.kind = 'x' // the factory failed
					if o.id == -4 {
						e.kind = 'y' // no factory or a failing one
					}
				}
				e.outcome = o.id
			default:
				e.kind = 'l'
				touch := r.Chance(1, 2)
				e.inv = s.b.tick()
				m := g.list(touch)
				e.ret = s.b.tick()
				for i := range spellings {
					v, ok := m[strings.ToLower(spellings[i][0])]
					if !ok {
						v = -1
					}
					e.list = append(e.list, v)
				}
			}
			s.b.leave()
			e.text = fmt.Sprintf("client %d: %c %q -> %d %v (failed: %v) [%d,%d]", c, e.kind, name, e.value, e.list, e.failed, e.inv, e.ret)
			r.Logf("%s", e.text)
			r.EventString(e.text)
			s.b.add(e)
		}
	})
	// a last look from the outside
	for i := range spellings {
		for _, n := range spellings[i] {
			e := entry{kind: 'r', key: i, client: -1, inv: s.b.tick()}
			e.value = g.find(n)
			e.ret = s.b.tick()
			e.text = fmt.Sprintf("afterwards: r %q -> %d", n, e.value)
			s.b.add(e)
		}
	}
	other := both[0]
	if g.name == both[0].name {
		other = both[1]
	}
	if m := other.list(false); len(m) != 0 {
		r.Fail("foreign-name", "registrations in the %s registry show up in the %s registry: %v", g.name, other.name, m)
	}
	check(r, s, g.name, s.b.log[:s.b.n])
}

// check decides linearizability: every name is a write-once register, so all
// that an operation observed is the order of its point and the point of the
// one successful registration; together with the real-time order these are
// precedences, and a history is linearizable iff they have no cycle.
func check(r *simrt.R, s *state, what string, h []entry) {
	winner := map[int]int{}
	for i, e := range h {
		if e.kind != 'w' || e.failed {
			continue
		}
		if j, ok := winner[e.key]; ok {
			r.Fail("registered-twice", "%s registry: both succeeded:\n%s\n%s", what, h[j].text, e.text)
		}
		winner[e.key] = i
	}
	n := len(h)
	before := make([][]bool, n)
	for i := range before {
		before[i] = make([]bool, n)
		for j := range h {
			before[i][j] = h[i].ret < h[j].inv
		}
	}
	saw := func(i, key, value int) {
		w, ok := winner[key]
		switch {
		case value == -1:
			if ok {
				before[i][w] = true
			}
		case !ok || h[w].value != value:
			r.Fail("wrong-factory", "%s registry: found factory %d, which was not registered under this name:\n%s", what, value, h[i].text)
		default:
			before[w][i] = true
		}
	}
	for i, e := range h {
		switch e.kind {
		case 'w':
			if e.failed {
				w, ok := winner[e.key]
				if !ok {
					r.Fail("refused", "%s registry: a registration was refused although the name was never taken:\n%s", what, e.text)
				}
				before[w][i] = true
			}
		case 'r':
			saw(i, e.key, e.value)
			if e.outcome > 0 {
				if k := s.get(e.outcome).kind; k == 'e' || k == 'p' {
					r.Fail("wrong-outcome", "%s registry: the registered factory fails, but was reported to succeed:\n%s", what, e.text)
				}
			}
		case 'x':
			w, ok := winner[e.key]
			if !ok {
				r.Fail("wrong-factory", "%s registry: a factory ran under a name never taken:\n%s", what, e.text)
			}
			if k := s.get(h[w].value).kind; k != map[int]byte{-3: 'p', -5: 'e'}[e.outcome] {
				r.Fail("wrong-outcome", "%s registry: the registered factory (behaviour %c) does not fail like this (%d):\n%s", what, k, e.outcome, e.text)
			}
			before[w][i] = true
		case 'y':
			if w, ok := winner[e.key]; !ok || s.get(h[w].value).kind != 'e' {
				saw(i, e.key, -1)
			}
		case 'l':
			for k, v := range e.list {
				saw(i, k, v)
			}
		}
	}
	for k := range h {
		for i := range h {
			if before[i][k] {
				for j := range h {
					if before[k][j] {
						before[i][j] = true
					}
				}
			}
		}
	}
	for i := range h {
		if before[i][i] {
			text := ""
			for j := range h {
				if before[i][j] && before[j][i] {
					text += "\n" + h[j].text
				}
			}
			r.Fail("not-linearizable", "%s registry: no order explains%s", what, text)
		}
	}
	r.Count("probe:operations", uint64(n))
	r.Count("probe:names-registered", uint64(len(winner)))
	r.Note("%s registry, %d operations, %d names registered", what, n, len(winner))
}
