package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 40

// callTerm is the (lazily completed) result of a call instruction in a frame.
func (f *Frame) callTerm(x ssa.Value) *Term {
	t := f.an.ident("call", x, f)
	if t.Callee == "" {
		if ci, ok := x.(ssa.CallInstruction); ok {
			t.Callee = calleeName(ci.Common())
		}
	}
	return t
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return fnName(v)
	case *ssa.Builtin:
		return v.Name()
	case *ssa.MakeClosure:
		return fnName(v.Fn.(*ssa.Function))
	}
	return "dynamic"
}

func (a *Analysis) newFrame(fn *ssa.Function, parent *Frame, site ssa.CallInstruction) *Frame {
	a.nframe++
	fr := &Frame{ID: a.nframe, Fn: fn, Parent: parent, Site: site, env: map[ssa.Value]*Term{}, loops: map[*Loop]*LoopCtx{}, an: a}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	a.Frames = append(a.Frames, fr)
	a.ByFn[fn] = append(a.ByFn[fn], fr)
	return fr
}

// root analyses a function as an entry point.
func (a *Analysis) root(fn *ssa.Function) *Frame {
	fr := a.newFrame(fn, nil, nil)
	fr.walk()
	return fr
}

// topological: the blocks in an order in which a block comes after those leading to it (other than by going back).
func topological(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				visit(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	visit(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		post = append([]*ssa.BasicBlock{fn.Recover}, post...)
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (f *Frame) walk() {
	a := f.an
	for _, b := range topological(f.Fn) {
		for _, in := range b.Instrs {
			a.seq++
			switch x := in.(type) {
			case *ssa.Call:
				f.call(x, x)
			case *ssa.Defer:
				f.call(x, nil)
			case *ssa.Go:
				f.call(x, nil)
			case *ssa.Store:
				f.store(x)
			case *ssa.MapUpdate:
				m := f.eval(x.Map)
				for _, alt := range a.resolve(m) {
					a.record(alt, "[]", &StoreRec{Val: f.eval(x.Value), Key: f.eval(x.Key), In: x, Fr: f, Seq: a.seq})
				}
			case *ssa.Return:
				if b == f.Fn.Recover {
					continue
				}
				f.rets = append(f.rets, x)
				for _, r := range x.Results {
					f.eval(r)
				}
			case ssa.Value:
				f.eval(x)
			}
		}
	}
}

func (a *Analysis) record(base *Term, field string, s *StoreRec) {
	m := a.heap[base]
	if m == nil {
		m = map[string][]*StoreRec{}
		a.heap[base] = m
	}
	m[field] = append(m[field], s)
}

func (f *Frame) store(x *ssa.Store) {
	a := f.an
	val := f.eval(x.Val)
	rec := func() *StoreRec { return &StoreRec{Val: val, In: x, Fr: f, Seq: a.seq} }
	switch ad := x.Addr.(type) {
	case *ssa.FieldAddr:
		name := fieldNameOf(ad.X.Type(), ad.Field)
		for _, alt := range a.resolvePtr(f.eval(ad.X)) {
			a.record(alt, name, rec())
		}
	case *ssa.IndexAddr:
		for _, alt := range a.resolvePtr(f.eval(ad.X)) {
			r := rec()
			r.Key = f.eval(ad.Index)
			a.record(alt, "[]", r)
		}
	default:
		for _, alt := range a.resolvePtr(f.eval(x.Addr)) {
			switch alt.Op {
			case "addr":
				for _, b := range a.resolvePtr(alt.Args[0]) {
					a.record(b, alt.S, rec())
				}
			case "iaddr":
				for _, b := range a.resolvePtr(alt.Args[0]) {
					r := rec()
					r.Key = alt.Args[1]
					a.record(b, "[]", r)
				}
			default:
				a.record(alt, "*", rec())
			}
		}
	}
}

// onStack counts how often fn is being analysed on the current call path.
func (f *Frame) onStack(fn *ssa.Function) bool {
	for x := f; x != nil; x = x.Parent {
		if x.Fn == fn {
			return true
		}
	}
	return false
}

func analysable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	p := pkgPathOf(fn)
	return isRepoPkg(p) || p == "" && fn.Synthetic != "" || p == "github.com/samber/lo"
}

func (f *Frame) call(ci ssa.CallInstruction, val *ssa.Call) {
	a := f.an
	c := ci.Common()
	var args []*Term
	if c.IsInvoke() {
		args = append(args, f.eval(c.Value))
	}
	for _, x := range c.Args {
		args = append(args, f.eval(x))
	}
	var ct *Term
	if val != nil {
		ct = f.callTerm(val)
	} else {
		// defer/go statements have no value: identify by the instruction
		k := fmt.Sprintf("call@%p@%d", ci, f.ID)
		if a.terms[k] == nil {
			a.nterm++
			a.terms[k] = &Term{ID: a.nterm, Op: "call", Fr: f, Callee: calleeName(c)}
		}
		ct = a.terms[k]
	}
	ct.Args = args
	_, deferred := ci.(*ssa.Defer)
	ev := &Event{Fr: f, In: ci, Callee: ct.Callee, Args: args, Call: ct, Deferred: deferred, Seq: a.seq}
	a.Events = append(a.Events, ev)

	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		_ = b
		return
	}
	if f.intrinsic(ci, ct, args) {
		return
	}
	f.outParams(ci, ct, args)
	var targets []target
	if c.IsInvoke() {
		targets = a.dispatch(args[0], c)
	} else if fn := c.StaticCallee(); fn != nil {
		var binds []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = f.eval(mc).Args
		}
		targets = []target{{fn, binds, nil}}
	} else {
		for _, alt := range a.resolve(f.eval(c.Value)) {
			switch alt.Op {
			case "fn":
				targets = append(targets, target{alt.Fn, nil, nil})
			case "closure":
				targets = append(targets, target{alt.Fn, alt.Args, nil})
			}
		}
		if len(targets) == 1 {
			ct.Callee = fnName(targets[0].fn)
			ev.Callee = ct.Callee
		}
	}
	inlined := false
	for _, t := range targets {
		if t.fn.Name() == "init" && f.Fn.Name() == "init" {
			continue // initialisers of imported packages are roots of their own
		}
		if !analysable(t.fn) || f.depth > maxDepth || a.nframe > a.limit {
			if analysable(t.fn) {
				a.cut[fnName(t.fn)]++
			}
			continue
		}
		if f.onStack(t.fn) {
			a.cut[fnName(t.fn)]++
			continue
		}
		as := args
		if t.recv != nil {
			as = append([]*Term{t.recv}, args[1:]...)
		}
		ct.Inls = append(ct.Inls, f.enter(t.fn, ci, as, t.binds))
		inlined = true
	}
	if !inlined {
		// callbacks handed to code that is not analysed
		for _, x := range args {
			for _, alt := range a.resolve(x) {
				if alt.Op == "fn" || alt.Op == "closure" {
					if analysable(alt.Fn) && !f.onStack(alt.Fn) && a.nframe < a.limit && f.depth < maxDepth {
						fr := f.enterCB(alt.Fn, ci, alt.Args, nil, nil)
						ct.CB = append(ct.CB, fr)
					}
				}
			}
		}
	}
}

// outParams models library functions that fill what an argument points to.
func (f *Frame) outParams(ci ssa.CallInstruction, ct *Term, args []*Term) {
	a := f.an
	out := func(dst *Term, kind string, src *Term) {
		for _, alt := range a.resolve(dst) {
			v := a.mk("out", kind, 0, nil, src)
			if v.T == nil && alt.T != nil {
				if p, ok := alt.T.Underlying().(*types.Pointer); ok {
					v.T = p.Elem()
				}
			}
			a.record(alt, "*", &StoreRec{Val: v, In: ci.(ssa.Instruction), Fr: f, Seq: a.seq})
		}
	}
	switch ct.Callee {
	case "encoding/json.Unmarshal":
		out(args[1], "json", args[0])
	case "(*encoding/json.Decoder).Decode":
		out(args[1], "json", args[0])
	case "(*github.com/lib/pq.StringArray).Scan":
		out(args[0], "pqarray", args[1])
	}
	if strings.HasPrefix(ct.Callee, "(*github.com/jmoiron/sqlx.") {
		switch ct.Callee[strings.LastIndex(ct.Callee, ".")+1:] {
		case "Select", "Get":
			out(args[1], "rows", ct)
		case "SelectContext", "GetContext":
			out(args[2], "rows", ct)
		}
	}
}

type target struct {
	fn    *ssa.Function
	binds []*Term
	recv  *Term
}

func (f *Frame) enter(fn *ssa.Function, site ssa.CallInstruction, args, binds []*Term) *Frame {
	fr := f.an.newFrame(fn, f, site)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	fr.walk()
	return fr
}

func (f *Frame) enterCB(fn *ssa.Function, site ssa.CallInstruction, binds []*Term, loop *LoopCtx, args []*Term) *Frame {
	fr := f.an.newFrame(fn, f, site)
	fr.CBLoop = loop
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	fr.walk()
	return fr
}

// dispatch resolves an interface method call: concrete types flowing to the
// receiver when known, otherwise every analysed type implementing it.
func (a *Analysis) dispatch(recv *Term, c *ssa.CallCommon) []target {
	var res []target
	seen := map[*ssa.Function]bool{}
	unknown := false
	for _, alt := range a.resolve(recv) {
		if alt.Op == "nil" || alt.Op == "zero" {
			continue
		}
		if alt.T == nil || types.IsInterface(alt.T) {
			unknown = true
			continue
		}
		if m := a.P.SSA.LookupMethod(alt.T, c.Method.Pkg(), c.Method.Name()); m != nil {
			if !seen[m] {
				seen[m] = true
				res = append(res, target{m, nil, alt})
			}
		}
	}
	if unknown || len(res) == 0 {
		iface, ok := c.Value.Type().Underlying().(*types.Interface)
		if ok && c.Method.Pkg() != nil && isRepoPkg(c.Method.Pkg().Path()) {
			for _, t := range a.P.concreteTypes() {
				if types.Implements(t, iface) {
					if m := a.P.SSA.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil && !seen[m] {
						seen[m] = true
						res = append(res, target{m, nil, nil})
					}
				}
			}
		}
	}
	return res
}

var concreteCache []types.Type

func (p *Program) concreteTypes() []types.Type {
	if concreteCache != nil {
		return concreteCache
	}
	for _, pk := range p.Pkgs {
		if !isRepoPkg(pk.PkgPath) {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || nm.TypeParams().Len() > 0 || types.IsInterface(nm) {
				continue
			}
			concreteCache = append(concreteCache, nm, types.NewPointer(nm))
		}
	}
	return concreteCache
}

// intrinsic models the collection helpers of samber/lo.
func (f *Frame) intrinsic(ci ssa.CallInstruction, ct *Term, args []*Term) bool {
	const lo = "github.com/samber/lo."
	if !strings.HasPrefix(ct.Callee, lo) {
		return false
	}
	name := strings.TrimPrefix(ct.Callee, lo)
	withCB := map[string]bool{"Map": true, "Filter": true, "Reject": true, "ForEach": true, "FlatMap": true, "SliceToMap": true, "Associate": true, "GroupBy": true, "KeyBy": true, "UniqBy": true, "FilterMap": true}
	plain := map[string]bool{"Uniq": true, "Keys": true, "Values": true, "Reverse": true, "Max": true, "Min": true, "Assign": true, "Contains": true, "Compact": true, "Flatten": true}
	if plain[name] {
		return true
	}
	if !withCB[name] {
		return false
	}
	a := f.an
	a.nloop++
	lc := &LoopCtx{ID: a.nloop, Fr: f, Site: ci, Coll: args[0]}
	el := a.mk("elem", "", 0, lc, args[0])
	cargs := []*Term{el, a.mk("rangeidx", "", 0, lc)}
	for _, alt := range a.resolve(args[1]) {
		if alt.Op != "fn" && alt.Op != "closure" {
			continue
		}
		if analysable(alt.Fn) && !f.onStack(alt.Fn) {
			ct.CB = append(ct.CB, f.enterCB(alt.Fn, ci, alt.Args, lc, cargs))
		}
	}
	ct.Loop = lc
	return true
}

// ---------------------------------------------------------------- resolution

// resolve expands a term into the alternatives it may stand for: phis,
// results of analysed calls, loads of known cells and fields.
func (a *Analysis) resolve(t *Term) []*Term {
	out := map[*Term]bool{}
	a.expand(t, map[*Term]bool{}, out)
	return sortedTerms(out)
}

// resolvePtr is resolve for addresses.
func (a *Analysis) resolvePtr(t *Term) []*Term { return a.resolve(t) }

func (a *Analysis) expand(t *Term, seen, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if a.opaque[t] != nil {
		out[t] = true
		return
	}
	switch t.Op {
	case "phi", "alts":
		for _, x := range t.Args {
			a.expand(x, seen, out)
		}
		return
	case "res":
		c := t.Args[0]
		switch c.Op {
		case "call":
			if len(c.Inls) > 0 {
				for _, fr := range c.Inls {
					for _, v := range fr.results(t.Idx) {
						a.expand(v, seen, out)
					}
				}
				return
			}
		case "assert", "mapget":
			if t.Idx == 0 {
				a.expand(c, seen, out)
				return
			}
		case "phi":
			for _, x := range c.Args {
				a.expand(a.mk("res", "", t.Idx, nil, x), seen, out)
			}
			return
		}
	case "call":
		if len(t.Inls) > 0 && t.Val != nil {
			if _, tuple := t.Val.Type().(*types.Tuple); !tuple {
				for _, fr := range t.Inls {
					for _, v := range fr.results(0) {
						a.expand(v, seen, out)
					}
				}
				return
			}
		}
	case "assert":
		n := 0
		for _, x := range a.resolve(t.Args[0]) {
			if x.T != nil && !types.IsInterface(x.T) && t.T != nil && !types.IsInterface(t.T) && !types.Identical(x.T, t.T) {
				continue
			}
			n++
			a.expand(x, seen, out)
		}
		if n > 0 {
			return
		}
	case "field":
		if a.expandField(t, seen, out) {
			return
		}
	case "load":
		any := false
		for _, b := range a.resolve(t.Args[0]) {
			if b.Op == "addr" {
				any = true
				a.expand(a.field(b.Args[0], b.S), seen, out)
				continue
			}
			if b.Op == "iaddr" {
				any = true
				a.expand(a.mk("index", "", 0, nil, b.Args[0], b.Args[1]), seen, out)
				continue
			}
			recs := a.heap[b]["*"]
			if len(recs) > 0 {
				any = true
				for _, r := range recs {
					a.expand(r.Val, seen, out)
				}
			} else if b.Op == "obj" && len(a.heap[b]) > 0 {
				// struct value assembled field by field: keep the object as its identity
				any = true
				out[b] = true
			} else if b.Op == "obj" && isCell(b) {
				any = true
				out[a.zero(b.T)] = true
			}
		}
		if any {
			return
		}
	case "mapget":
		any := false
		for _, m := range a.resolve(t.Args[0]) {
			for _, r := range a.heap[m]["[]"] {
				if r.Key != nil && r.Key.Op == "const" && t.Args[1].Op == "const" && r.Key != t.Args[1] {
					continue
				}
				any = true
				a.expand(r.Val, seen, out)
			}
		}
		if any {
			return
		}
	case "index":
		// constant index into a literal
		any := false
		if n, ok := t.Args[1].isConstInt(); ok {
			for _, c := range a.resolve(t.Args[0]) {
				if els, ok := a.literal(c); ok && int(n) < len(els) && els[n] != nil {
					any = true
					a.expand(els[n], seen, out)
				}
			}
		}
		if any {
			return
		}
	}
	out[t] = true
}

func isCell(b *Term) bool {
	if b.T == nil {
		return false
	}
	p, ok := b.T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch p.Elem().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func (a *Analysis) zero(t types.Type) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	z := a.mk("zero", t.String(), 0, nil)
	z.T = t
	return z
}

func (a *Analysis) expandField(t *Term, seen, out map[*Term]bool) bool {
	bases := a.resolve(t.Args[0])
	done := false
	for _, b := range bases {
		if b.Op == "phi" {
			continue
		}
		if ft := a.field(b, t.S); a.opaque[ft] != nil {
			out[ft] = true
			done = true
			continue
		}
		if b == t.Args[0] && len(a.heap[b][t.S]) == 0 && len(a.heap[b]["*"]) == 0 && b.Op != "obj" && b.Op != "zero" {
			continue
		}
		done = true
		any := false
		for _, r := range a.heap[b][t.S] {
			any = true
			a.expand(r.Val, seen, out)
		}
		for _, r := range a.heap[b]["*"] {
			any = true
			a.expand(a.field(r.Val, t.S), seen, out)
		}
		if !any {
			if b.Op == "addr" || b.Op == "iaddr" {
				// embedded struct: field of a field
				a.expand(a.field(a.deref(b), t.S), seen, out)
				continue
			}
			if b.Op == "obj" || b.Op == "zero" {
				z := a.mk("zero", t.S, 1, nil)
				if t.T != nil {
					z.T = t.T
				}
				out[z] = true
			} else {
				out[a.mk("field", t.S, 0, nil, b)] = true
			}
		}
	}
	return done
}

// results lists what a frame may return in slot i; for functions that also
// return an error, only returns that may be successful count.
func (f *Frame) results(i int) []*Term {
	var res []*Term
	slot := errSlot(f.Fn.Signature)
	ci := cfgOf(f.Fn)
	for _, r := range f.rets {
		if i >= len(r.Results) {
			continue
		}
		if slot >= 0 && i != slot && ci.retKind(r) == retErr {
			continue
		}
		res = append(res, f.eval(r.Results[i]))
	}
	return res
}

// literal returns the elements of a slice or array literal.
func (a *Analysis) literal(t *Term) ([]*Term, bool) {
	if t.Op == "slice" {
		if t.Args[1].Op != "none" || t.Args[2].Op != "none" {
			return nil, false
		}
		t = t.Args[0]
	}
	if t.Op != "obj" || t.T == nil {
		return nil, false
	}
	p, ok := t.T.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	arr, ok := p.Elem().Underlying().(*types.Array)
	if !ok || arr.Len() > 4096 {
		return nil, false
	}
	els := make([]*Term, arr.Len())
	for _, r := range a.heap[t]["[]"] {
		n, ok := r.Key.isConstInt()
		if !ok || int(n) >= len(els) {
			return nil, false
		}
		els[n] = r.Val
	}
	for n := range els {
		if els[n] == nil && len(els) <= 256 {
			// structs are filled in place
			if at := a.mk("iaddr", "", 0, nil, t, a.constInt(n)); len(a.heap[at]) > 0 {
				els[n] = at
			}
		}
	}
	return els, true
}
