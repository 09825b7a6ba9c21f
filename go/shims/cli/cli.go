// Package cli is a stand-in for github.com/urfave/cli/v2, which is not
// available offline.  Flag values are set by the simulation through Values.
package cli

import "fmt"

type Flag interface{ Names() []string }

type StringFlag struct {
	Name, Usage, Value string
	Aliases            []string
	TakesFile          bool
}
type IntFlag struct {
	Name, Usage string
	Value       int
	Aliases     []string
}
type Uint64Flag struct {
	Name, Usage string
	Value       uint64
	Aliases     []string
}
type BoolFlag struct {
	Name, Usage string
	Value       bool
	Aliases     []string
}
type StringSlice struct{ v []string }
type StringSliceFlag struct {
	Name, Usage string
	Value       *StringSlice
	Aliases     []string
}

func NewStringSlice(v ...string) *StringSlice { return &StringSlice{v} }

func (f *StringFlag) Names() []string      { return append([]string{f.Name}, f.Aliases...) }
func (f *IntFlag) Names() []string         { return append([]string{f.Name}, f.Aliases...) }
func (f *Uint64Flag) Names() []string      { return append([]string{f.Name}, f.Aliases...) }
func (f *BoolFlag) Names() []string        { return append([]string{f.Name}, f.Aliases...) }
func (f *StringSliceFlag) Names() []string { return append([]string{f.Name}, f.Aliases...) }

type ActionFunc = func(*Context) error

type Command struct {
	Action                 ActionFunc
	Name, Usage, ArgsUsage string
	Aliases                []string
	Flags                  []Flag
	Description            string
	Subcommands            []*Command
}

type App struct {
	Name, Usage, Copyright string
	Flags                  []Flag
	Commands               []*Command
	Action                 ActionFunc
}

func (a *App) Run([]string) error { return fmt.Errorf("not part of the simulation") }

type Args interface {
	Len() int
	Get(int) string
	First() string
	Slice() []string
	Present() bool
}
type args []string

func (a args) Len() int { return len(a) }
func (a args) Get(i int) string {
	if i < len(a) {
		return a[i]
	}
	return ""
}
func (a args) First() string   { return a.Get(0) }
func (a args) Slice() []string { return a }
func (a args) Present() bool   { return len(a) > 0 }

// Context holds the values of one invocation.
type Context struct {
	Command *Command
	Values  map[string]any
	Params  []string
}

func (c *Context) Args() Args { return args(c.Params) }

func (c *Context) flag(name string) Flag {
	if c.Command != nil {
		for _, f := range c.Command.Flags {
			for _, n := range f.Names() {
				if n == name {
					return f
				}
			}
		}
	}
	return nil
}
func (c *Context) IsSet(name string) bool { _, ok := c.Values[name]; return ok }
func (c *Context) value(name string) any {
	if v, ok := c.Values[name]; ok {
		return v
	}
	switch f := c.flag(name).(type) {
	case *StringFlag:
		return f.Value
	case *IntFlag:
		return f.Value
	case *Uint64Flag:
		return f.Value
	case *BoolFlag:
		return f.Value
	case *StringSliceFlag:
		return f.Value.v
	}
	if f := c.flag(name); f != nil { // a type embedding one of the flags
		if v, ok := embedded(f); ok {
			return v
		}
	}
	return nil
}
func (c *Context) String(name string) string        { v, _ := c.value(name).(string); return v }
func (c *Context) Int(name string) int              { v, _ := c.value(name).(int); return v }
func (c *Context) Uint64(name string) uint64        { v, _ := c.value(name).(uint64); return v }
func (c *Context) Bool(name string) bool            { v, _ := c.value(name).(bool); return v }
func (c *Context) StringSlice(name string) []string { v, _ := c.value(name).([]string); return v }
