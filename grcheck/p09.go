package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P09", "Every call of the application that can fail is followed along all control-flow paths on which its error is not nil (branches testing it are pruned, phis, wrapping, variables and error lists are tracked). Each such path must end by returning a non-nil error (or by ending the process with a non-zero status), never in a normal return or the next turn of a loop. The top level must log the error and exit with a non-zero status.", checkP09)
}

// mayFail lists calls whose error cannot matter to the result.
func harmless(callee string) bool {
	for _, p := range []string{"fmt.Print", "(*strings.Builder).", "(*bytes.Buffer).Write", "fmt.Fprint"} {
		if strings.HasPrefix(callee, p) {
			return true
		}
	}
	switch callee {
	case "os.Getwd", "(hash.Hash).Write", "(hash.Hash32).Write", "(hash.Hash64).Write",
		"(*github.com/spf13/cobra.Command).MarkFlagRequired", "github.com/spf13/cobra.MarkFlagRequired", "(*github.com/spf13/cobra.Command).MarkPersistentFlagRequired",
		"(*github.com/spf13/cobra.Command).Help", "(*github.com/spf13/cobra.Command).Usage":
		return true
	}
	return false
}

// appPkgs: packages linked into the program.
func (w *World) appPkgs() map[string]bool {
	res := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if res[path] || !isRepoPkg(path) {
			return
		}
		pk := w.P.byPkg[path]
		if pk == nil {
			return
		}
		res[path] = true
		for i := range pk.Imports {
			visit(i)
		}
	}
	visit(modPath)
	return res
}

// appFuncs: every function of the application (closures included), in a stable order.
func (w *World) appFuncs() []*ssa.Function {
	pk := w.appPkgs()
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		res = append(res, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	for _, f := range w.P.Funcs {
		if pk[pkgPathOf(f)] && f.Blocks != nil && f.Synthetic == "" {
			add(f)
		}
	}
	sort.SliceStable(res, func(i, j int) bool { return res[i].Pos() < res[j].Pos() })
	return res
}

// errPath explores what happens after a call failed.
type errPath struct {
	fn    *ssa.Function
	call  *ssa.Call
	left  int
	found ssa.Instruction
	what  string
	// exits: ways that end the process, to be judged by the caller
	exits []*ssa.Call
	// logged: calls that received the error
	logged []*ssa.Call
}

type taint map[ssa.Value]bool

func (t taint) clone() taint {
	n := taint{}
	for k := range t {
		n[k] = true
	}
	return n
}

func (t taint) key() string {
	var ks []string
	for k := range t {
		ks = append(ks, fmt.Sprintf("%p", k))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// failure follows the error of a call; returns the instruction where it is lost.
func failure(fn *ssa.Function, call *ssa.Call) (*errPath, ssa.Instruction, string) {
	p := &errPath{fn: fn, call: call, left: 20000}
	t := taint{}
	if isErrorSlot(call.Type()) {
		t[call] = true
	} else {
		for _, u := range *call.Referrers() {
			if x, ok := u.(*ssa.Extract); ok && isErrorSlot(x.Type()) {
				t[x] = true
			}
		}
	}
	seen := map[string]bool{}
	p.walk(call.Block(), instrIndex(call)+1, t, seen)
	if p.left <= 0 && p.found == nil {
		return p, call, "the handling of its failure is too complex to decide"
	}
	return p, p.found, p.what
}

func (p *errPath) lose(in ssa.Instruction, what string) {
	if p.found == nil {
		p.found, p.what = in, what
	}
}

// isEOF: the value is io.EOF.
func isEOF(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
}

// eofTest: the condition compares a tainted error with the end of a stream.
func eofTest(v ssa.Value, t taint) (trueMeansEOF, ok bool) {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			if isEOF(x.Y) && t[x.X] || isEOF(x.X) && t[x.Y] {
				return x.Op == token.EQL, true
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && (f.String() == "errors.Is" || f.String() == "github.com/pkg/errors.Is") && len(x.Call.Args) == 2 {
			if t[x.Call.Args[0]] && isEOF(x.Call.Args[1]) {
				return true, true
			}
		}
	}
	return false, false
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (p *errPath) walk(b *ssa.BasicBlock, from int, t taint, seen map[string]bool) {
	if p.left--; p.left <= 0 || p.found != nil {
		return
	}
	t = t.clone()
	for _, in := range b.Instrs[from:] {
		switch x := in.(type) {
		case *ssa.Call:
			if x == p.call {
				if recorded(t) {
					return
				}
				p.lose(x, "is tried again without reporting the failure")
				return
			}
			f := x.Call.StaticCallee()
			name := calleeName(&x.Call)
			if f != nil && f.String() == "os.Exit" {
				p.exits = append(p.exits, x)
				if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
					p.lose(x, "ends the process with status 0")
				}
				return
			}
			if exitsProcess(name) {
				return
			}
			for _, a := range x.Call.Args {
				if t[a] {
					p.logged = append(p.logged, x)
					if f != nil && (wrapErr[f.String()] || f.String() == "github.com/pkg/errors.Cause" || f.String() == "github.com/pkg/errors.Unwrap") {
						t[x] = true
					}
					if name == "append" || strings.HasSuffix(name, "multierror.Append") || name == "errors.Join" || strings.HasSuffix(name, "multierr.Append") || strings.HasSuffix(name, "multierr.Combine") {
						t[x] = true
					}
				}
			}
			if f != nil && (f.String() == "fmt.Errorf" || alwaysErr[f.String()]) && isErrorSlot(x.Type()) {
				t[x] = true
			}
			if f != nil && isErrorSlot(x.Type()) && alwaysNonNilErr(f) {
				t[x] = true
			}
			if f != nil && f.Blocks != nil && errSlot(f.Signature) < 0 && isRepoPkg(pkgPathOf(f)) && recordsParam(f, x, t) {
				t[keptMark] = true
			}
			// a helper of the application that wraps the error it is given
			if f != nil && f.Blocks != nil && errSlot(f.Signature) >= 0 && wrapsParam(f, x, t) {
				t[x] = true
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && t[c] && isErrorSlot(x.Type()) {
				t[x] = true
			}
		case *ssa.MakeInterface:
			if isErrorSlot(x.Type()) {
				t[x] = true
			}
			if t[x.X] {
				t[x] = true
			}
		case *ssa.ChangeInterface:
			if t[x.X] {
				t[x] = true
			}
		case *ssa.Store:
			if t[x.Val] {
				t[x.Addr] = true
				t[addrRoot(x.Addr)] = true
			} else if t[x.Addr] {
				if _, isCell := x.Addr.(*ssa.Alloc); isCell {
					delete(t, x.Addr)
				}
				if _, isCell := x.Addr.(*ssa.FreeVar); isCell {
					delete(t, x.Addr)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if t[x.X] && (isErrorSlot(x.Type())) {
					t[x] = true
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok && t[ia.X] {
					t[x] = true
				}
			}
		case *ssa.Slice:
			if t[x.X] {
				t[x] = true
			}
		case *ssa.Return:
			if b == p.fn.Recover {
				return
			}
			slot := errSlot(p.fn.Signature)
			if slot >= 0 {
				v := x.Results[slot]
				if t[v] || errValueKind(v, b, map[ssa.Value]bool{}) == retErr {
					return
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && t[u.X] {
					return
				}
				if recorded(t) {
					return
				}
				p.lose(x, "returns without reporting the failure")
				return
			}
			// a function without an error result: stored where the caller sees it
			if recorded(t) {
				return
			}
			p.lose(x, "returns without reporting the failure")
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			s := stripNot(x.Cond, true)
			if eof, ok := eofTest(s.v, t); ok {
				// the end of a stream is not a failure
				k := 1
				if eof != s.t {
					k = 0
				}
				p.enter(b, b.Succs[k], t, seen)
				return
			}
			if v, nonNil, ok := nilTest(s.v); ok {
				known := t[v]
				if !known {
					if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL && t[u.X] {
						known = true
					}
				}
				if known {
					k := 0
					if nonNil != s.t {
						k = 1
					}
					p.enter(b, b.Succs[k], t, seen)
					return
				}
				if isErrorSlot(v.Type()) {
					// another error may be set already: on that branch a failure is being reported
					for k, sb := range b.Succs {
						n := t
						if (k == 0) == (nonNil == s.t) {
							n = t.clone()
							n[v] = true
							if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL {
								n[u.X] = true
							}
						}
						p.enter(b, sb, n, seen)
					}
					return
				}
			}
		}
	}
	for _, s := range b.Succs {
		p.enter(b, s, t, seen)
	}
}

func (p *errPath) enter(prev, b *ssa.BasicBlock, t taint, seen map[string]bool) {
	n := t.clone()
	idx := -1
	for i, x := range b.Preds {
		if x == prev {
			idx = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx >= 0 && t[ph.Edges[idx]] {
			n[ph] = true
		} else {
			delete(n, ph)
		}
	}
	k := fmt.Sprintf("%d|%s", b.Index, n.key())
	if seen[k] {
		return
	}
	seen[k] = true
	// the next turn of a loop around the call, with the error in nothing that survives
	p.walk(b, 0, n, seen)
}

// keptMark: a helper has kept the error in a member of an error type.
var keptMark ssa.Value = ssa.NewConst(constant.MakeString("kept"), types.Typ[types.String])

// recordsParam: given a tainted error, the function keeps it whatever way it goes.
func recordsParam(f *ssa.Function, call *ssa.Call, t taint) bool {
	for i, a := range call.Call.Args {
		if !t[a] || i >= len(f.Params) || !isErrorSlot(a.Type()) {
			continue
		}
		p := &errPath{fn: f, call: &ssa.Call{}, left: 2000}
		p.walk(f.Blocks[0], 0, taint{f.Params[i]: true}, map[string]bool{})
		if p.found == nil && p.left > 0 && len(p.exits) == 0 {
			return true
		}
	}
	return false
}

// recorded: the error is kept in a variable or member (of an error type) the caller sees.
func recorded(t taint) bool {
	if t[keptMark] {
		return true
	}
	for v := range t {
		switch x := v.(type) {
		case *ssa.FreeVar:
			if p, ok := x.Type().Underlying().(*types.Pointer); ok && isErrorSlot(p.Elem()) {
				return true
			}
		case *ssa.FieldAddr:
			if p, ok := x.Type().Underlying().(*types.Pointer); ok && isErrorSlot(p.Elem()) {
				switch addrRoot(x).(type) {
				case *ssa.Parameter, *ssa.FreeVar:
					return true
				case *ssa.UnOp:
					return true
				}
			}
		}
	}
	return false
}

// wrapsParam: whenever the given (non-nil) argument is tainted the function returns a non-nil error.
var wrapping = map[*ssa.Function]bool{}

func wrapsParam(f *ssa.Function, call *ssa.Call, t taint) bool {
	if errSlot(f.Signature) < 0 || !isRepoPkg(pkgPathOf(f)) || wrapping[f] {
		return false
	}
	wrapping[f] = true
	defer delete(wrapping, f)
	for i, a := range call.Call.Args {
		if !t[a] || i >= len(f.Params) {
			continue
		}
		p := &errPath{fn: f, call: &ssa.Call{}, left: 2000}
		p.walk(f.Blocks[0], 0, taint{f.Params[i]: true}, map[string]bool{})
		if p.found == nil && p.left > 0 {
			return true
		}
	}
	return false
}

func errResult(c *ssa.CallCommon) bool {
	return errSlot(c.Signature()) >= 0
}

func isCloseCall(c *ssa.CallCommon) bool {
	n := calleeName(c)
	switch n[strings.LastIndex(n, ".")+1:] {
	case "Close", "CloseIdleConnections", "Rollback", "CloseSend", "Sync":
		return true
	}
	return false
}

func checkP09(w *World, r *Report) {
	fns := w.appFuncs()
	for _, fn := range fns {
		r.count("functions", 1)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if !errResult(&x.Call) || b == fn.Recover {
						continue
					}
					name := calleeName(&x.Call)
					if harmless(name) || isErrConstructor(x) {
						continue
					}
					r.count("calls that can fail", 1)
					_, at, what := failure(fn, x)
					if at == nil {
						continue
					}
					if isCloseCall(&x.Call) && !w.closesReport(fn, x) {
						continue
					}
					r.failAt(w.P.pos(x.Pos()), fn.String(), "failure of %s: %s %s", shortCallee(name), w.P.pos(at.Pos()), what)
				case *ssa.Defer:
					if errResult(&x.Call) && !isCloseCall(&x.Call) && !harmless(calleeName(&x.Call)) {
						r.failAt(w.P.pos(x.Pos()), fn.String(), "failure of the deferred %s is ignored", shortCallee(calleeName(&x.Call)))
					}
				case *ssa.Go:
					if errResult(&x.Call) {
						r.failAt(w.P.pos(x.Pos()), fn.String(), "failure of %s, run in the background, is ignored", shortCallee(calleeName(&x.Call)))
					}
				case *ssa.Store:
					// members of error lists are errors
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isErrList(ia.X.Type()) {
						r.count("members of error lists", 1)
						if !w.surelyError(fns, x.Val, b, 0) {
							r.failAt(w.P.pos(x.Pos()), fn.String(), "something that may be no error is put into a list of errors")
						}
					}
				}
			}
		}
		w.checkIterErr(r, fn)
	}
	w.checkErrFields(r, fns)
	w.checkTopLevel(r)
}

// errField: the address is a member of an error type; list tells a list of errors.
func errField(v ssa.Value) (fa *ssa.FieldAddr, obj *types.Var, list bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, nil, false
	}
	p, ok := fa.Type().Underlying().(*types.Pointer)
	if !ok || !isErrorSlot(p.Elem()) {
		return nil, nil, false
	}
	st := structOf(fa.X.Type())
	if st == nil {
		return nil, nil, false
	}
	return fa, st.Field(fa.Field), !isErrorType(p.Elem())
}

func loadOf(v ssa.Value, f *types.Var) *ssa.FieldAddr {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	if fa, o, _ := errField(u.X); fa != nil && o == f {
		return fa
	}
	return nil
}

// checkErrFields: errors kept in members of objects are asked for before success is reported.
func (w *World) checkErrFields(r *Report, fns []*ssa.Function) {
	type site struct {
		fn *ssa.Function
		st *ssa.Store
	}
	sets := map[*types.Var][]site{}
	lists := map[*types.Var]bool{}
	var order []*types.Var
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, f, list := errField(st.Addr)
				if fa == nil {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
					continue
				}
				if sets[f] == nil {
					order = append(order, f)
				}
				sets[f] = append(sets[f], site{fn, st})
				lists[f] = list
			}
		}
	}
	for _, f := range order {
		r.count("members holding errors", 1)
		if lists[f] {
			for _, s := range sets[f] {
				// only ever grows
				ap, ok := s.st.Val.(*ssa.Call)
				if ok && calleeName(&ap.Call) == "append" && loadOf(ap.Call.Args[0], f) != nil {
					continue
				}
				if errSlot(s.fn.Signature) >= 0 && !ok {
					continue
				}
				r.failAt(w.P.pos(s.st.Pos()), s.fn.String(), "errors recorded earlier are thrown away")
			}
			w.checkErrOwners(r, fns, f)
			continue
		}
		// a single error: after everything that may set it, it is read
		setter := map[*ssa.Function]bool{}
		for _, s := range sets[f] {
			setter[s.fn] = true
		}
		reader := map[*ssa.Function]bool{}
		for _, fn := range fns {
			slot := errSlot(fn.Signature)
			if slot < 0 {
				continue
			}
			for _, b := range fn.Blocks {
				if ret, ok := lastInstr(b).(*ssa.Return); ok && loadOf(ret.Results[slot], f) != nil {
					reader[fn] = true
				}
			}
		}
		// or hands on what a reader gives
		for again := true; again; {
			again = false
			for _, fn := range fns {
				slot := errSlot(fn.Signature)
				if slot < 0 || reader[fn] {
					continue
				}
				all := true
				for _, b := range fn.Blocks {
					ret, ok := lastInstr(b).(*ssa.Return)
					if !ok {
						continue
					}
					v, idx := ret.Results[slot], 0
					if x, ok := v.(*ssa.Extract); ok {
						v, idx = x.Tuple, x.Index
					}
					x, ok := v.(*ssa.Call)
					if !ok {
						all = false
						continue
					}
					g := x.Call.StaticCallee()
					all = all && g != nil && reader[g] && idx == errSlot(g.Signature)
				}
				if all {
					reader[fn], again = true, true
				}
			}
		}
		calls := map[*ssa.Function][]*ssa.Call{} // callee -> sites
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Call); ok {
						if g := x.Call.StaticCallee(); g != nil {
							calls[g] = append(calls[g], x)
						}
					}
				}
			}
		}
		reads := func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Call:
				g := x.Call.StaticCallee()
				return g != nil && reader[g]
			case *ssa.UnOp:
				return loadOf(x, f) != nil
			}
			return false
		}
		// every way from in to the end of its function passes a read
		checked := func(in ssa.Instruction) bool {
			seen := map[*ssa.BasicBlock]bool{}
			var ok func(b *ssa.BasicBlock, from int) bool
			ok = func(b *ssa.BasicBlock, from int) bool {
				for _, x := range b.Instrs[from:] {
					if reads(x) {
						return true
					}
					if _, ret := x.(*ssa.Return); ret {
						return false
					}
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						if !ok(s, 0) {
							return false
						}
					}
				}
				return true
			}
			return ok(in.Block(), instrIndex(in)+1)
		}
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			if len(calls[g]) == 0 && g.Parent() == nil {
				r.failAt(w.P.pos(g.Pos()), g.String(), "an error recorded in %q may never be asked for", f.Name())
				return
			}
			if g.Parent() != nil && len(calls[g]) == 0 {
				visit(g.Parent())
				return
			}
			for _, x := range calls[g] {
				r.count("uses of functions recording errors", 1)
				if !checked(x) {
					visit(x.Parent())
				}
			}
		}
		for _, s := range sets[f] {
			if !checked(s.st) {
				visit(s.fn)
			}
		}
	}
}

// checkErrOwners: whoever makes an object with a list of errors reports success only after finding the list empty.
// looksAt: the function returns the errors recorded in the member of v, or returns where there are none, itself or by
// a function it hands v to.
func (w *World) looksAt(fn *ssa.Function, v ssa.Value, ret *ssa.Return, f *types.Var, slot, depth int) bool {
	if depth > 4 || cfgOf(fn).retKind(ret) == retErr {
		return depth <= 4
	}
	handed := func(c *ssa.Call, idx int, ok func(g *ssa.Function, p ssa.Value, r *ssa.Return) bool) bool {
		g := c.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !isRepoPkg(pkgPathOf(g)) || errSlot(g.Signature) != idx || idx < 0 {
			return false
		}
		for i, a := range c.Call.Args {
			if a != v || i >= len(g.Params) {
				continue
			}
			all, n := true, 0
			for _, b := range g.Blocks {
				if x, isR := lastInstr(b).(*ssa.Return); isR && b != g.Recover {
					n++
					all = all && ok(g, g.Params[i], x)
				}
			}
			return all && n > 0
		}
		return false
	}
	callOf := func(x ssa.Value) (*ssa.Call, int) {
		if e, ok := x.(*ssa.Extract); ok {
			c, _ := e.Tuple.(*ssa.Call)
			return c, e.Index
		}
		c, _ := x.(*ssa.Call)
		return c, 0
	}
	// the errors themselves, read here or by a function
	is := func(x ssa.Value) bool {
		if fa := loadOf(x, f); fa != nil && fa.X == v {
			return true
		}
		c, idx := callOf(x)
		return c != nil && handed(c, idx, func(g *ssa.Function, p ssa.Value, r *ssa.Return) bool {
			return w.looksAt(g, p, r, f, idx, depth+1)
		})
	}
	if is(ret.Results[slot]) {
		return true
	}
	for _, g := range guardsOf(ret.Block()) {
		if tv, nonNil, ok := nilTest(g.Cond); ok && nonNil != g.True && is(tv) {
			return true
		}
	}
	return false
}

func (w *World) checkErrOwners(r *Report, fns []*ssa.Function, f *types.Var) {
	holds := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == f {
				return true
			}
		}
		return false
	}
	owners := 0
	for _, fn := range fns {
		if errSlot(fn.Signature) < 0 {
			// constructors and helpers
			continue
		}
		slot := errSlot(fn.Signature)
		var owned []ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || !holds(v.Type()) {
					continue
				}
				switch v.(type) {
				case *ssa.Alloc, *ssa.Call:
					owned = append(owned, v)
				}
			}
		}
		for _, v := range owned {
			// handed to the caller: the caller owns it
			given := false
			for _, u := range *v.Referrers() {
				if _, ok := u.(*ssa.Return); ok {
					given = true
				}
			}
			if given {
				continue
			}
			owners++
			for _, b := range fn.Blocks {
				ret, ok := lastInstr(b).(*ssa.Return)
				if !ok || b == fn.Recover || cfgOf(fn).retKind(ret) == retErr {
					continue
				}
				r.count("returns of owners of error lists", 1)
				if in, isIn := v.(ssa.Instruction); isIn && !reaches(in, ret) {
					continue
				}
				okr := w.looksAt(fn, v, ret, f, slot, 0)
				if !okr {
					r.failAt(w.P.pos(ret.Pos()), fn.String(), "returns normally without looking at the errors recorded in %q", f.Name())
				}
			}
		}
	}
	if owners == 0 {
		r.failAt(w.P.pos(f.Pos()), "", "errors recorded in %q are never looked at", f.Name())
	}
}

func shortCallee(n string) string { return strings.ReplaceAll(n, modPath+"/", "") }

func isErrList(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return isErrorType(x.Elem())
	case *types.Array:
		return isErrorType(x.Elem())
	}
	return false
}

// surelyError: the value is never nil here, looking at the callers for parameters.
func (w *World) surelyError(fns []*ssa.Function, v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if errValueKind(v, b, map[ssa.Value]bool{}) == retErr {
		return true
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || depth > 4 {
		return false
	}
	f := p.Parent()
	k := -1
	for i, x := range f.Params {
		if x == p {
			k = i
		}
	}
	n := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(ssa.CallInstruction)
				if !ok || x.Common().StaticCallee() != f || k >= len(x.Common().Args) {
					continue
				}
				n++
				if !w.surelyError(fns, x.Common().Args[k], b, depth+1) {
					return false
				}
			}
		}
	}
	return n > 0
}

// isErrConstructor: makes an error rather than doing something that can fail.
func isErrConstructor(x *ssa.Call) bool {
	f := x.Call.StaticCallee()
	if f == nil {
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			_ = b
			return true
		}
		return calleeName(&x.Call) == "(error).Unwrap"
	}
	n := f.String()
	if alwaysErr[n] || wrapErr[n] || n == "github.com/pkg/errors.Cause" || n == "errors.Unwrap" || n == "github.com/pkg/errors.Unwrap" || n == "errors.Join" {
		return true
	}
	return alwaysNonNilErr(f)
}

// closesReport: closing a file that is written.
func (w *World) closesReport(fn *ssa.Function, x *ssa.Call) bool {
	return calleeName(&x.Call) == "(*os.File).Close"
}

// checkIterErr: a loop over rows or lines must ask for the failure that may have ended it.
func (w *World) checkIterErr(r *Report, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(&x.Call)
			if !strings.HasSuffix(n, "Rows).Next") && n != "(*bufio.Scanner).Scan" {
				continue
			}
			r.count("iterators", 1)
			okc := false
			for _, b2 := range fn.Blocks {
				for _, in2 := range b2.Instrs {
					if y, ok := in2.(*ssa.Call); ok && strings.HasSuffix(calleeName(&y.Call), ").Err") && len(y.Call.Args) > 0 && len(x.Call.Args) > 0 {
						if y.Call.Args[0] == x.Call.Args[0] || strings.HasSuffix(n, "Rows).Next") || n == "(*bufio.Scanner).Scan" {
							if reaches(x, y) {
								okc = true
							}
						}
					}
				}
			}
			if !okc {
				r.failAt(w.P.pos(x.Pos()), fn.String(), "the loop may end because of a failure that is never asked for (%s)", shortCallee(n))
			}
		}
	}
}

// checkTopLevel: the error of a command is logged and becomes a non-zero status.
func (w *World) checkTopLevel(r *Report) {
	if w.Main == nil {
		r.missing("func main")
		return
	}
	n := 0
	for _, fr := range w.A.Frames {
		if rootOf(fr) != w.Main {
			continue
		}
		for _, b := range fr.Fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				nm := calleeName(&x.Call)
				if nm != "(*"+cobraCmd+").Execute" && nm != "(*"+cobraCmd+").ExecuteContext" && nm != "(*"+cobraCmd+").ExecuteC" {
					continue
				}
				n++
				p, at, what := failure(fr.Fn, x)
				if at != nil {
					continue // reported above
				}
				_ = what
				if len(p.exits) == 0 && errSlot(fr.Fn.Signature) < 0 {
					r.failAt(w.P.pos(x.Pos()), fr.String(), "a failed command does not end the process with a non-zero status")
				}
				logged := false
				for _, l := range p.logged {
					for _, e := range w.A.Events {
						if e.In == ssa.CallInstruction(l) && rootOf(e.Fr) == w.Main {
							if w.logsError(e) {
								logged = true
							}
						}
					}
				}
				if !logged {
					r.failAt(w.P.pos(x.Pos()), fr.String(), "the failure of a command is not shown to the user")
				}
			}
		}
	}
	if n == 0 {
		r.missing("the execution of the root command")
	}
	// commands report errors
	for _, c := range w.Order {
		fails := false
		for _, e := range c.events {
			if errResult(e.In.Common()) && !harmless(e.Callee) {
				fails = true
			}
		}
		if fails {
			r.count("commands", 1)
			if errSlot(c.RunFn.Signature) < 0 {
				r.failAt(w.P.pos(c.RunFn.Pos()), c.Path, "the command has no way to report failures")
			}
		}
	}
	// errors are never filtered out by level
	for _, fn := range w.appFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok || calleeName(&x.Call) != "github.com/rs/zerolog.SetGlobalLevel" {
					continue
				}
				r.count("log levels", 1)
				c, ok := x.Call.Args[0].(*ssa.Const)
				if !ok || c.Value == nil || !constant.Compare(c.Value, token.LEQ, constant.MakeInt64(3)) {
					r.failAt(w.P.pos(x.Pos()), fn.String(), "the log level may hide errors")
				}
			}
		}
	}
}

// logsError: whatever way the call goes, the error is written by the error logger (or to standard error).
func (w *World) logsError(e *Event) bool {
	isOut := func(name string) bool {
		return strings.HasPrefix(name, "(*github.com/rs/zerolog.Event).Msg") || name == "(*github.com/rs/zerolog.Event).Send" || strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "fmt.Print")
	}
	if isOut(e.Callee) {
		return true
	}
	for _, fr := range e.Call.Inls {
		var outs []*ssa.BasicBlock
		for _, x := range w.A.Events {
			if x.Fr == fr && (isOut(x.Callee) && w.errorLevel(x) || x.Callee != e.Callee && w.logsError(x)) {
				outs = append(outs, x.In.Block())
			}
		}
		// every way through the function passes one of them
		seen := map[*ssa.BasicBlock]bool{}
		for _, o := range outs {
			seen[o] = true
		}
		st := []*ssa.BasicBlock{fr.Fn.Blocks[0]}
		ok := len(outs) > 0
		for len(st) > 0 && ok {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			if _, ret := lastInstr(x).(*ssa.Return); ret {
				ok = false
			}
			st = append(st, x.Succs...)
		}
		if !ok {
			return false
		}
	}
	return len(e.Call.Inls) > 0
}

// errorLevel: the log event is made at a level that is always shown and carries an error or a text computed from one.
func (w *World) errorLevel(e *Event) bool {
	if strings.HasPrefix(e.Callee, "fmt.") {
		return true
	}
	ok := false
	w.A.reach(e.Args[0], func(x *Term) bool {
		if x.Op == "call" {
			switch x.Callee[strings.LastIndex(x.Callee, ".")+1:] {
			case "Error", "Err", "Warn", "Info":
				ok = true
			}
		}
		return true
	})
	return ok
}
