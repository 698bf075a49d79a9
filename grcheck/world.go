package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flag is a command line flag bound to a memory cell.
type Flag struct {
	Name    string
	Short   string
	Cell    *Term // reading the flag gives this term
	Default *Term
	Kind    string
	Owner   *Command
	Ev      *Event
}

// Command is one cobra command.
type Command struct {
	Obj      *Term
	Use      string
	Path     string
	Parent   *Command
	Kids     []*Command
	RunFn    *ssa.Function
	Run      *Frame
	Flags    map[string]*Flag
	events   []*Event
	lo, hi   int // event range
	ops      []*Op
	required map[string]bool
}

// World is the analysed application: every command with everything it can reach.
type World struct {
	P     *Program
	A     *Analysis
	Cmds  map[string]*Command
	Order []*Command // commands having an action
	Main  *Frame
	flags []*Flag
}

const cobraCmd = "github.com/spf13/cobra.Command"
const pflagSet = "(*github.com/spf13/pflag.FlagSet)."

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

func buildWorld(p *Program) (*World, error) {
	a := newAnalysis(p)
	w := &World{P: p, A: a, Cmds: map[string]*Command{}}
	// initialisers, dependencies first
	var inits []*ssa.Function
	done := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if done[path] || !isRepoPkg(path) {
			return
		}
		done[path] = true
		pk := p.byPkg[path]
		if pk == nil {
			return
		}
		var imps []string
		for i := range pk.Imports {
			imps = append(imps, i)
		}
		sort.Strings(imps)
		for _, i := range imps {
			visit(i)
		}
		if sp := p.SSA.Package(pk.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				inits = append(inits, f)
			}
		}
	}
	var paths []string
	for pp := range p.byPkg {
		paths = append(paths, pp)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		visit(pp)
	}
	for _, f := range inits {
		a.root(f)
	}
	// commands
	cmds := map[*Term]*Command{}
	get := func(t *Term) *Command {
		if c := cmds[t]; c != nil {
			return c
		}
		c := &Command{Obj: t, Flags: map[string]*Flag{}, required: map[string]bool{}}
		cmds[t] = c
		return c
	}
	var objs []*Term
	for t := range a.heap {
		if t.Op == "obj" && isPtrTo(t.T, cobraCmd) {
			objs = append(objs, t)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	for _, t := range objs {
		c := get(t)
		for _, r := range a.heap[t]["Use"] {
			if s, ok := r.Val.isConstString(); ok {
				c.Use = strings.Fields(s + " ?")[0]
			}
		}
	}
	if len(objs) == 0 {
		return nil, fmt.Errorf("no cobra command found")
	}
	for _, e := range a.Events {
		switch e.Callee {
		case "(*" + cobraCmd + ").AddCommand":
			for _, par := range a.resolve(e.Args[0]) {
				els, ok := a.elements(e.Args[1])
				if !ok {
					continue
				}
				for _, el := range els {
					for _, k := range a.resolve(el) {
						if cmds[k] != nil && cmds[par] != nil {
							cmds[k].Parent = cmds[par]
							cmds[par].Kids = append(cmds[par].Kids, cmds[k])
						}
					}
				}
			}
		}
		if strings.HasPrefix(e.Callee, pflagSet) && len(e.Args) > 2 {
			m := strings.TrimPrefix(e.Callee, pflagSet)
			owner := w.flagOwner(e.Args[0], cmds)
			var f *Flag
			base := strings.TrimSuffix(m, "P")
			if kind := strings.TrimSuffix(base, "Var"); kind != base {
				k := 3
				if strings.HasSuffix(m, "P") {
					k = 4
				}
				if len(e.Args) > k {
					if name, ok := e.Args[2].isConstString(); ok {
						f = &Flag{Name: name, Cell: a.deref(e.Args[1]), Default: e.Args[k], Kind: kind, Owner: owner, Ev: e}
						if k == 4 {
							f.Short, _ = e.Args[3].isConstString()
						}
					}
				}
			} else if e.Call.Val != nil {
				k := 2
				if strings.HasSuffix(m, "P") {
					k = 3
				}
				if _, isP := e.Call.Val.Type().Underlying().(*types.Pointer); isP && len(e.Args) > k {
					if name, ok := e.Args[1].isConstString(); ok {
						f = &Flag{Name: name, Cell: a.deref(e.Call), Default: e.Args[k], Kind: base, Owner: owner, Ev: e}
						if k == 3 {
							f.Short, _ = e.Args[2].isConstString()
						}
					}
				}
			}
			if f != nil {
				if owner != nil {
					owner.Flags[f.Name] = f
				}
				w.flags = append(w.flags, f)
			}
		}
		if e.Callee == "github.com/spf13/cobra.MarkFlagRequired" || strings.HasSuffix(e.Callee, "cobra.Command).MarkFlagRequired") || strings.HasSuffix(e.Callee, "cobra.Command).MarkPersistentFlagRequired") {
			var owner *Command
			if strings.HasPrefix(e.Callee, "(") {
				for _, x := range a.resolve(e.Args[0]) {
					owner = cmds[x]
				}
			} else {
				owner = w.flagOwner(e.Args[0], cmds)
			}
			if s, ok := e.Args[1].isConstString(); ok && owner != nil {
				owner.required[s] = true
			}
		}
	}
	for _, f := range w.flags {
		w.opaque(f)
	}
	for _, t := range objs {
		c := cmds[t]
		c.Path = c.path()
		var fns []*Term
		for _, name := range []string{"RunE", "Run"} {
			for _, r := range a.heap[t][name] {
				fns = append(fns, a.resolve(r.Val)...)
			}
		}
		for _, f := range fns {
			if f.Op == "fn" || f.Op == "closure" {
				c.RunFn = f.Fn
			}
		}
		w.Cmds[c.Path] = c
	}
	var names []string
	for n := range w.Cmds {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := w.Cmds[n]
		if c.RunFn == nil {
			continue
		}
		c.lo = len(a.Events)
		// flags of this command only: a run sets the cells of one command
		c.Run = a.root(c.RunFn)
		c.hi = len(a.Events)
		c.events = a.Events[c.lo:c.hi]
		w.Order = append(w.Order, c)
	}
	// main
	for _, f := range p.Funcs {
		if f.String() == modPath+".main" {
			w.Main = a.root(f)
		}
	}
	if a.nframe >= a.limit {
		return nil, fmt.Errorf("context limit reached (%d frames)", a.nframe)
	}
	return w, nil
}

func (c *Command) path() string {
	var parts []string
	for x := c; x != nil && x.Parent != nil; x = x.Parent {
		parts = append([]string{x.Use}, parts...)
		if len(parts) > 10 {
			break
		}
	}
	return strings.Join(parts, " ")
}

func (w *World) flagOwner(fs *Term, cmds map[*Term]*Command) *Command {
	for _, t := range w.A.resolve(fs) {
		if t.Op == "call" && (strings.HasSuffix(t.Callee, "cobra.Command).Flags") || strings.HasSuffix(t.Callee, "cobra.Command).PersistentFlags") || strings.HasSuffix(t.Callee, "cobra.Command).LocalFlags")) {
			for _, o := range w.A.resolve(t.Args[0]) {
				if c := cmds[o]; c != nil {
					return c
				}
			}
		}
	}
	return nil
}

func (w *World) opaque(f *Flag) {
	a := w.A
	switch f.Cell.Op {
	case "field":
		for _, b := range a.resolve(f.Cell.Args[0]) {
			a.opaque[a.field(b, f.Cell.S)] = f
		}
		a.opaque[f.Cell] = f
	default:
		a.opaque[f.Cell] = f
	}
}

// flag looks a flag up on the command and its ancestors.
func (c *Command) flag(name string) *Flag {
	for x := c; x != nil; x = x.Parent {
		if f := x.Flags[name]; f != nil {
			return f
		}
	}
	return nil
}

// byShort looks a flag up by its one-letter name.
func (c *Command) byShort(s string) *Flag {
	for x := c; x != nil; x = x.Parent {
		for _, f := range x.Flags {
			if f.Short == s && s != "" {
				return f
			}
		}
	}
	return nil
}

// isFlag: the term is exactly the value of the flag.
func (w *World) isFlag(t *Term, f *Flag) bool {
	if f == nil {
		return false
	}
	rs := w.A.resolve(t)
	return len(rs) == 1 && w.A.opaque[rs[0]] == f
}

// env returns the name of the environment variable a term is read from.
func envName(t *Term) (string, bool) {
	if t.Op == "res" && t.Idx == 0 {
		t = t.Args[0]
	}
	if t.Op == "call" && (t.Callee == "os.Getenv" || t.Callee == "os.LookupEnv") && len(t.Args) > 0 {
		return t.Args[0].isConstString()
	}
	return "", false
}
