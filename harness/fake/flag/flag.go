// Package flag stands in for the real one.
package flag

import (
	"errors"
	"io"
	"strconv"

	"github.com/zeldovich/go-rpcgen/zz_verif/f/os"
)

type ErrorHandling int

const (
	ContinueOnError ErrorHandling = iota
	ExitOnError
	PanicOnError
)

var ErrHelp = errors.New("flag: help requested")

type opt struct {
	name string
	s    *string
	b    *bool
	i    *int
	set  bool
}

type FlagSet struct {
	Usage func()
	opts  []*opt
	args  []string
	done  bool
}

type Flag struct{ Name, Usage, DefValue string }

var CommandLine = &FlagSet{}
var Usage = func() {}

func NewFlagSet(name string, e ErrorHandling) *FlagSet { return &FlagSet{} }

func (f *FlagSet) SetOutput(w io.Writer) {}
func (f *FlagSet) Output() io.Writer     { return os.Stderr }
func (f *FlagSet) PrintDefaults()        {}

func (f *FlagSet) StringVar(p *string, name, def, usage string) {
	*p = def
	f.opts = append(f.opts, &opt{name: name, s: p})
}
func (f *FlagSet) BoolVar(p *bool, name string, def bool, usage string) {
	*p = def
	f.opts = append(f.opts, &opt{name: name, b: p})
}
func (f *FlagSet) IntVar(p *int, name string, def int, usage string) {
	*p = def
	f.opts = append(f.opts, &opt{name: name, i: p})
}
func (f *FlagSet) String(name, def, usage string) *string {
	p := new(string)
	f.StringVar(p, name, def, usage)
	return p
}
func (f *FlagSet) Bool(name string, def bool, usage string) *bool {
	p := new(bool)
	f.BoolVar(p, name, def, usage)
	return p
}
func (f *FlagSet) Int(name string, def int, usage string) *int {
	p := new(int)
	f.IntVar(p, name, def, usage)
	return p
}

func (f *FlagSet) find(n string) *opt {
	for _, o := range f.opts {
		if o.name == n {
			return o
		}
	}
	return nil
}

func (f *FlagSet) Parse(args []string) error {
	f.done = true
	for len(args) > 0 {
		a := args[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		args = args[1:]
		if a == "--" {
			break
		}
		a = a[1:]
		if a[0] == '-' {
			a = a[1:]
		}
		val, has := "", false
		for i := 0; i < len(a); i++ {
			if a[i] == '=' {
				val, has, a = a[i+1:], true, a[:i]
				break
			}
		}
		o := f.find(a)
		if o == nil {
			os.Exit(2)
		}
		o.set = true
		if o.b != nil {
			*o.b = !has || val == "true" || val == "1"
			continue
		}
		if !has {
			if len(args) == 0 {
				os.Exit(2)
			}
			val, args = args[0], args[1:]
		}
		if o.s != nil {
			*o.s = val
		} else if v, err := strconv.Atoi(val); err == nil {
			*o.i = v
		} else {
			os.Exit(2)
		}
	}
	f.args = args
	return nil
}

func (f *FlagSet) Parsed() bool   { return f.done }
func (f *FlagSet) NFlag() int     { return 0 }
func (f *FlagSet) NArg() int      { return len(f.args) }
func (f *FlagSet) Args() []string { return f.args }
func (f *FlagSet) Arg(i int) string {
	if i < 0 || i >= len(f.args) {
		return ""
	}
	return f.args[i]
}
func (f *FlagSet) Visit(fn func(*Flag)) {
	for _, o := range f.opts {
		if o.set {
			fn(&Flag{Name: o.name})
		}
	}
}

func StringVar(p *string, name, def, usage string)         { CommandLine.StringVar(p, name, def, usage) }
func BoolVar(p *bool, name string, def bool, usage string) { CommandLine.BoolVar(p, name, def, usage) }
func IntVar(p *int, name string, def int, usage string)    { CommandLine.IntVar(p, name, def, usage) }
func String(name, def, usage string) *string               { return CommandLine.String(name, def, usage) }
func Bool(name string, def bool, usage string) *bool       { return CommandLine.Bool(name, def, usage) }
func Int(name string, def int, usage string) *int          { return CommandLine.Int(name, def, usage) }
func Parse()                                               { CommandLine.Parse(os.Args[1:]) }
func Parsed() bool                                         { return CommandLine.done }
func NArg() int                                            { return CommandLine.NArg() }
func NFlag() int                                           { return CommandLine.NFlag() }
func Args() []string                                       { return CommandLine.Args() }
func Arg(i int) string                                     { return CommandLine.Arg(i) }
func PrintDefaults()                                       {}
func Visit(fn func(*Flag))                                 { CommandLine.Visit(fn) }
