// Package ffs is the file system the generator sees: a few named files, any
// operation on which may fail.
package ffs

import (
	"errors"

	"github.com/zeldovich/go-rpcgen/zz_verif/sym"
)

type Node struct {
	Name   string
	Data   []byte
	Exists bool
	Mine   bool // made by this run
	Output bool // named by -o or -t
	Input  bool
}

// ExitPanic is how os.Exit ends a run.
type ExitPanic struct{ Code int }

var (
	Nodes        []*Node
	Faults       int  // how many more operations may fail
	Strangers    bool // another process may own a name first
	Frozen       bool // after os.Exit nothing has an effect
	Failed       int  // operations that failed
	RemoveFailed bool
	OnChange     func(n *Node)
	Args         []string
	Vary         bool // clock, process number, environment and the like may differ
	seq          int
)

// Any is a value that differs from run to run.
func Any(n int) int {
	if !Vary {
		return 0
	}
	return sym.Choose("environment", n)
}

var ErrIO = errors.New("input/output error")

// Fail decides whether an operation fails.
func Fail(op string) bool {
	if Frozen || Faults == 0 {
		return false
	}
	if sym.Choose("fault."+op, 2) == 0 {
		return false
	}
	Faults--
	Failed++
	return true
}

func Lookup(name string) *Node {
	for len(name) > 2 && name[:2] == "./" {
		name = name[2:]
	}
	for _, n := range Nodes {
		if n.Name == name {
			return n
		}
	}
	n := &Node{Name: name}
	Nodes = append(Nodes, n)
	return n
}

func Put(name string, data []byte) *Node {
	n := Lookup(name)
	n.Data, n.Exists = data, true
	return n
}

// Temp is a name nobody uses.
func Temp(dir, pat string) string {
	seq++
	s := "tmp" + string(rune('a'+seq))
	for i := len(pat) - 1; i >= 0; i-- {
		if pat[i] == '*' {
			s = pat[:i] + s + pat[i+1:]
			break
		}
		if i == 0 {
			s = pat + s
		}
	}
	if dir == "" {
		return "/tmp/" + s
	}
	return dir + "/" + s
}

// Stranger lets another process create the file first.
func Stranger(n *Node) {
	if Strangers && !Frozen && !n.Exists && !n.Output && !n.Mine && sym.Choose("stranger", 2) == 1 {
		Strangers = false
		n.Exists = true
		n.Data = []byte("somebody else's")
	}
}

// Change is called before a file is created, changed or removed.
func Change(n *Node) {
	if OnChange != nil {
		OnChange(n)
	}
}

func Create(n *Node) {
	Change(n)
	if !n.Exists {
		n.Exists = true
		if !n.Output {
			n.Mine = true
		}
	}
	n.Data = nil
}

func Remove(n *Node) {
	Change(n)
	n.Exists = false
	n.Data = nil
}
