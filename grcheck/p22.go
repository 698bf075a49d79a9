package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P22", "Typestate of every resource a command acquires (database handles, gRPC connections, HTTP response bodies, result rows, files, cancellable contexts), in every calling context: on every way from the successful acquisition to the end of the function which keeps it (followed through the functions that hand it on to their callers) it is closed or its closing is deferred; no function hands on a resource whose closing it has deferred, and none is used after it was closed.", checkP22)
}

// acquires: the library calls that hand out something to be closed; what it is and how the closing call looks.
func acquires(e *Event) (what, closer string) {
	c := e.Call
	if c == nil || len(c.Inls) > 0 {
		return "", ""
	}
	v, ok := e.In.(*ssa.Call)
	if !ok {
		return "", ""
	}
	res := v.Type()
	if tu, ok := res.(*types.Tuple); ok {
		if tu.Len() == 0 {
			return "", ""
		}
		res = tu.At(0).Type()
	}
	pkg, name := pkgOfCallee(e.Callee), shortName(e.Callee)
	switch res.String() {
	case "*github.com/jmoiron/sqlx.DB", "*database/sql.DB":
		if strings.HasPrefix(name, "Open") || strings.HasPrefix(name, "Connect") || strings.HasPrefix(name, "MustConnect") || strings.HasPrefix(name, "MustOpen") {
			return "the database handle", "Close"
		}
	case "*google.golang.org/grpc.ClientConn":
		if pkg == "google.golang.org/grpc" {
			return "the gRPC connection", "Close"
		}
	case "*net/http.Response":
		if pkg == "net/http" && name != "RoundTrip" {
			return "the body of the response", "Body"
		}
	case "*os.File":
		if pkg == "os" {
			return "the file", "Close"
		}
	case "*database/sql.Rows", "*github.com/jmoiron/sqlx.Rows":
		if pkg == "database/sql" || pkg == "github.com/jmoiron/sqlx" {
			return "the result rows", "Close"
		}
	case "context.Context":
		if pkg == "context" && (name == "WithTimeout" || name == "WithCancel" || name == "WithDeadline") {
			return "the context", "cancel"
		}
	}
	return "", ""
}

type resource struct {
	w       *World
	e       *Event
	what    string
	how     string
	closers []*Event
	uses    []*Event
}

// is: the term is the resource.
func (q *resource) is(t *Term) bool {
	a := q.w.A
	for _, x := range append(a.resolve(t), t) {
		if q.how == "cancel" {
			if x.Op == "res" && x.Idx == 1 && x.Args[0] == q.e.Call {
				return true
			}
			continue
		}
		if q.how == "Body" && (x.Op == "field" || x.Op == "addr") && x.S == "Body" {
			for _, b := range append(a.resolve(x.Args[0]), x.Args[0]) {
				if b == q.e.Call || b.Op == "res" && b.Idx == 0 && b.Args[0] == q.e.Call {
					return true
				}
			}
			continue
		}
		for x.Op == "field" || x.Op == "addr" || x.Op == "load" || x.Op == "deref" {
			x = x.Args[0] // promoted methods of an embedded member
		}
		if x == q.e.Call || x.Op == "res" && x.Idx == 0 && x.Args[0] == q.e.Call {
			return true
		}
	}
	return false
}

func (q *resource) find(c *Command) {
	for _, e := range c.events {
		if q.how == "cancel" {
			cc := e.In.Common()
			if !cc.IsInvoke() && q.is(e.Fr.eval(cc.Value)) {
				q.closers = append(q.closers, e)
			}
			continue
		}
		if len(e.Args) == 0 || len(e.Call.Inls) > 0 {
			if cl := boundClose(e); cl != nil && q.is(cl) {
				q.closers = append(q.closers, e)
			}
			continue
		}
		if shortName(e.Callee) == "Close" && q.is(e.Args[0]) {
			q.closers = append(q.closers, e)
			continue
		}
		for _, x := range e.Args {
			if q.is(x) {
				q.uses = append(q.uses, e)
				break
			}
		}
	}
}

// boundClose: the receiver of a method value (x.Close) that is called.
func boundClose(e *Event) *Term {
	cc := e.In.Common()
	if cc.IsInvoke() || cc.StaticCallee() != nil {
		return nil
	}
	for _, x := range e.Fr.an.resolve(e.Fr.eval(cc.Value)) {
		if x.Op == "closure" && x.Fn != nil && strings.HasSuffix(x.Fn.Name(), "Close$bound") && len(x.Args) == 1 {
			return x.Args[0]
		}
	}
	return nil
}

// holds: a value is or contains the resource.
func (q *resource) holds(t *Term) bool {
	found := false
	q.w.A.reach(t, func(x *Term) bool {
		if found {
			return false
		}
		if x.Op == "res" && x.Args[0] == q.e.Call && (q.how == "cancel") == (x.Idx == 1) || x == q.e.Call {
			if q.how != "cancel" || x.Op == "res" {
				found = true
			}
			return false
		}
		return x.Op != "call" || len(x.Inls) > 0 || wrapsResource(x)
	})
	return found
}

// wrapsResource: library calls whose result lives on what they were given.
func wrapsResource(x *Term) bool {
	return !errorMaker(x.Callee) && x.T != nil && !isErrorType(x.T)
}

// at: the instructions of a frame that close the resource: always, or only when the function fails.
func (q *resource) at(f *Frame) (always, onError map[ssa.Instruction]bool) {
	always, onError = map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	for _, d := range q.closers {
		if !isAncestor(f, d.Fr) {
			continue
		}
		steps := pathTo(f, d.Fr, d.In)
		if len(steps) == 0 {
			continue
		}
		if _, ok := steps[0].In.(*ssa.Go); ok {
			continue
		}
		sure, failing := true, false
		for _, s := range steps[1:] {
			ok, onErr := q.unconditional(s, f)
			if onErr {
				failing = true
			} else if !ok {
				sure = false
			}
		}
		switch {
		case !sure:
		case failing:
			onError[steps[0].In] = true
		default:
			always[steps[0].In] = true
		}
	}
	return
}

// unconditional: the step is done whenever its function is entered, apart from tests whether there is something to close;
// or whenever the surrounding function f fails.
func (q *resource) unconditional(s step, f *Frame) (ok, onErr bool) {
	b := s.In.Block()
	if avoidStrict(s.Fr.Fn, b) == nil {
		return true, false
	}
	ok = true
	for _, g := range guardsOf(b) {
		st := stripNot(g.Cond, g.True)
		v, nonNil, isNil := nilTest(st.v)
		if !isNil {
			if flagOf(st.v) {
				continue // a note of what was done already: not followed
			}
			return false, false
		}
		if nonNil != st.t {
			return false, false
		}
		if isErrorSlot(v.Type()) {
			onErr = true
			continue
		}
	}
	return ok, onErr
}

// flagOf: a truth value kept in a variable of the surrounding function.
func flagOf(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	_, ok = ld.X.(*ssa.FreeVar)
	return ok
}

type leakWalk struct {
	q       *resource
	f       *Frame
	call    ssa.CallInstruction
	always  map[ssa.Instruction]bool
	onError map[ssa.Instruction]bool
	leaks   []ssa.Instruction
	handed  []ssa.Instruction
	early   []ssa.Instruction // handed on although closing is deferred
}

// walk follows every way from the acquisition: def tells what was deferred before.
func (l *leakWalk) walk(b *ssa.BasicBlock, from int, closed, deferred, errDeferred bool, seen map[string]bool) {
	k := ""
	for _, x := range []bool{closed, deferred, errDeferred} {
		if x {
			k += "1"
		} else {
			k += "0"
		}
	}
	if from == 0 {
		key := k + "@" + b.String() + "#" + strconv.Itoa(b.Index)
		if seen[key] {
			return
		}
		seen[key] = true
	}
	ci := cfgOf(l.f.Fn)
	for _, in := range b.Instrs[from:] {
		if in == ssa.Instruction(l.call) && from == 0 {
			// acquired again (next turn of a loop)
			if !closed {
				l.leaks = append(l.leaks, in)
			}
			return
		}
		if l.always[in] {
			if _, ok := in.(*ssa.Defer); ok {
				deferred = true
			} else {
				closed = true
			}
			continue
		}
		if l.onError[in] {
			if _, ok := in.(*ssa.Defer); ok {
				errDeferred = true
			}
			continue
		}
		switch x := in.(type) {
		case *ssa.Panic:
			return
		case *ssa.Return:
			kind := ci.retKind(x)
			hands := false
			for i, r := range x.Results {
				if i == errSlot(l.f.Fn.Signature) || kind == retErr {
					continue
				}
				if isBasic(r.Type()) {
					continue
				}
				if l.q.holds(l.f.eval(r)) {
					hands = true
				}
			}
			switch {
			case hands && (deferred || closed):
				l.early = append(l.early, x)
			case hands:
				l.handed = append(l.handed, x)
			case closed || deferred:
			case errDeferred && kind != retOK:
			default:
				l.leaks = append(l.leaks, x)
			}
			return
		case *ssa.If:
			s := stripNot(x.Cond, true)
			if v, nonNil, ok := nilTest(s.v); ok && l.call != nil && errDerives(v, l.call) {
				good := 0
				if nonNil == s.t {
					good = 1
				}
				l.walk(b.Succs[good], 0, closed, deferred, errDeferred, seen)
				return
			}
		}
	}
	if callsNoReturn(b) {
		return
	}
	for _, s := range b.Succs {
		l.walk(s, 0, closed, deferred, errDeferred, seen)
	}
}

func isBasic(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	return false
}

func (q *resource) check(r *Report, name string) {
	w := q.w
	f, in := q.e.Fr, ssa.Instruction(q.e.In)
	pos := w.P.pos(q.e.In.Pos())
	if len(q.closers) == 0 {
		if q.stored() {
			r.count("resources kept elsewhere (not followed)", 1)
			return
		}
		r.failAt(pos, q.e.Fr.String(), "%s is never closed (%q)", q.what, name)
		return
	}
	for f != nil {
		l := &leakWalk{q: q, f: f}
		l.call, _ = in.(ssa.CallInstruction)
		l.always, l.onError = q.at(f)
		r.count("functions holding a resource", 1)
		// closing deferred before the acquisition
		before, beforeErr := false, false
		for d := range l.always {
			if _, ok := d.(*ssa.Defer); ok && instrDominates(d, in) {
				before = true
			}
		}
		for d := range l.onError {
			if _, ok := d.(*ssa.Defer); ok && instrDominates(d, in) {
				beforeErr = true
			}
		}
		if _, ok := in.(*ssa.Call); !ok {
			return
		}
		l.walk(in.Block(), instrIndex(in)+1, false, before, beforeErr, map[string]bool{})
		for _, x := range l.leaks {
			r.failAt(w.P.pos(posOf(x, q.e.In)), f.String(), "%s acquired at %s is not closed on this way (%q)", q.what, pos, name)
		}
		for _, x := range l.early {
			r.failAt(w.P.pos(posOf(x, q.e.In)), f.String(), "%s acquired at %s is closed when it is handed on here (%q)", q.what, pos, name)
		}
		if len(l.handed) == 0 || len(l.leaks)+len(l.early) > 0 {
			break
		}
		if f.Parent == nil || f.Site == nil {
			break
		}
		in, f = ssa.Instruction(f.Site), f.Parent
	}
	q.usedAfter(r, name, pos)
}

func posOf(x, def ssa.Instruction) token.Pos {
	if x.Pos().IsValid() {
		return x.Pos()
	}
	return def.Pos()
}

// stored: the resource lives on in something that outlasts the functions that acquire it.
func (q *resource) stored() bool {
	for base, m := range q.w.A.heap {
		if base.Op == "obj" || base.Op == "makemap" || base.Op == "makeslice" {
			continue
		}
		for _, recs := range m {
			for _, rec := range recs {
				if q.is(rec.Val) {
					return true
				}
			}
		}
	}
	return false
}

// usedAfter: something is done with the resource after it was closed for certain.
func (q *resource) usedAfter(r *Report, name, pos string) {
	for _, d := range q.closers {
		for _, u := range q.uses {
			f := lca(d.Fr, u.Fr)
			if f == nil {
				continue
			}
			ds, us := pathTo(f, d.Fr, d.In), pathTo(f, u.Fr, u.In)
			if len(ds) == 0 || len(us) == 0 || ds[0].In == us[0].In {
				continue
			}
			if deferredStep(ds) || deferredStep(us) {
				continue
			}
			sure := true
			for _, st := range ds[1:] {
				if ok, onErr := q.unconditional(st, f); !ok || onErr {
					sure = false
				}
			}
			if !sure {
				continue
			}
			acq := pathTo(f, q.e.Fr, q.e.In)
			var again ssa.Instruction
			if len(acq) > 0 {
				again = acq[0].In
			}
			if reachesWithout(ds[0].In, us[0].In, again) {
				r.failAt(q.w.P.pos(u.In.Pos()), u.Fr.String(), "%s acquired at %s is used after it was closed (%q)", q.what, pos, name)
			}
		}
	}
}

func deferredStep(ss []step) bool {
	_, ok := ss[0].In.(*ssa.Defer)
	return ok
}

// reachesWithout: control can get from x to y without passing z.
func reachesWithout(x, y, z ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, from int) bool
	visit = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if in == y {
				return true
			}
			if z != nil && in == z {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if visit(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return visit(x.Block(), instrIndex(x)+1)
}

func checkP22(w *World, r *Report) {
	kinds := map[string]int{}
	for _, name := range sortedCmdNames(w) {
		c := w.Cmds[name]
		if c.Run == nil {
			continue
		}
		for _, e := range c.events {
			what, how := acquires(e)
			if what == "" {
				continue
			}
			q := &resource{w: w, e: e, what: what, how: how}
			q.find(c)
			kinds[what]++
			r.count("resources acquired", 1)
			r.count("closings", len(q.closers))
			r.count("uses", len(q.uses))
			q.check(r, name)
		}
	}
	for _, k := range []string{"the database handle", "the gRPC connection"} {
		if kinds[k] == 0 {
			r.missing("the acquisition of %s", k)
		}
	}
}

func sortedCmdNames(w *World) []string {
	var names []string
	for n := range w.Cmds {
		names = append(names, n)
	}
	sortStrings(names)
	return names
}
