package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P23", "Every node of a trace tree: its members traced to one received span (or one node copied), the service to the span's own resource; received spans filed by their own id and attached to the node of their own parent id, exactly once per turn of the filing loop; ordering of siblings; recursions over children; members of the reported spans; every subtraction of unsigned numbers guarded.", checkP23)
}

const spanT = "github.com/mrasu/GravityR/otel/omodel.Span"

// isRecv: a span as Jaeger sends it.
func isRecv(t *Term) bool {
	return t != nil && t.T != nil && strings.HasSuffix(namedOf(deptr(t.T)), "otel/trace/v1.Span")
}

func isNode(t *Term) bool { return t != nil && t.T != nil && namedOf(deptr(t.T)) == spanT }

// memberOf: the term is X.name (or X.Getname()).
func (w *World) memberOf(t *Term, name string) *Term {
	t = w.A.peel(t)
	if t.Op == "field" && t.S == name {
		return t.Args[0]
	}
	if t.Op == "call" && len(t.Args) == 1 && strings.HasSuffix(t.Callee, ").Get"+name) {
		return t.Args[0]
	}
	if t.Op == "call" && strings.HasSuffix(t.Callee, "bytes.Clone") {
		return w.memberOf(t.Args[0], name)
	}
	return nil
}

// stores: the values given to a member of an object.
func (a *Analysis) stores(o *Term, f string) []*StoreRec {
	var res []*StoreRec
	for _, r := range a.heap[o][f] {
		if !r.Zero && r.Val.Op != "zero" && r.Val.Op != "nil" {
			res = append(res, r)
		}
	}
	return res
}

func checkP23(w *World, r *Report) {
	a := w.A
	c := w.Cmds[jaegerCmd]
	if c == nil {
		r.missing("command %q", jaegerCmd)
		return
	}
	var recv []*Term
	for _, o := range w.objsOf(c, spanT) {
		var src *Term
		for _, m := range []string{"Name", "TraceId", "SpanId", "StartTimeUnixNano", "EndTimeUnixNano"} {
			for _, rec := range a.stores(o, m) {
				if x := w.memberOf(rec.Val, m); src == nil && x != nil {
					src = x
				}
			}
		}
		if src == nil {
			continue // a root made to hold others
		}
		pos := w.P.pos(o.Val.Pos())
		bad := func(f string, args ...any) { r.failAt(pos, o.Fr.String(), f, args...) }
		r.count("kinds of nodes", 1)
		for _, m := range []string{"Name", "TraceId", "SpanId", "StartTimeUnixNano", "EndTimeUnixNano"} {
			rs := a.stores(o, m)
			r.count("members traced", 1)
			if len(rs) != 1 {
				bad("%s of a node is set %d times", m, len(rs))
				continue
			}
			if x := w.memberOf(rs[0].Val, m); x == nil || x != src && a.val(x) != a.val(src) {
				bad("%s of a node is not that of its span: %s", m, trim(rs[0].Val.String()))
			}
		}
		switch {
		case isRecv(src):
			recv = append(recv, o)
			w.checkService(r, o, src, bad)
			w.checkAttributes(r, o, src, bad)
		default:
			w.checkCopy(r, o, src, bad)
		}
	}
	if len(recv) == 0 {
		r.missing("nodes made from received spans")
		return
	}
	for _, o := range recv {
		w.checkNodes(c, r, o)
	}
	w.checkSiblings(c, r)
	w.checkSpanViews(c, r)
	w.checkUnsigned(r)
}

// checkService: the service of a node is the service.name of the resource its span was received with.
func (w *World) checkService(r *Report, o, src *Term, bad func(string, ...any)) {
	a := w.A
	rs := a.stores(o, "ServiceName")
	r.count("members traced", 1)
	if len(rs) != 1 {
		bad("ServiceName of a node is set %d times", len(rs))
		return
	}
	n := 0
	for _, v := range a.values(rs[0].Val) {
		if s, ok := v.isConstString(); ok && s == "" {
			continue
		}
		n++
		if v.Op == "field" && v.S == "StringValue" {
			v = v.Args[0]
		}
		x := v
		if x.Op == "call" && strings.HasSuffix(x.Callee, ".GetStringValue") {
			x = x.Args[0]
		}
		attr := w.memberOf(x, "Value")
		if attr == nil || attr.Op != "elem" {
			r.count("services not followed", 1)
			continue
		}
		res := w.memberOf(attr.Args[0], "Attributes")
		if res == nil {
			bad("the service is not taken from the attributes of the resource")
			continue
		}
		own := w.memberOf(res, "Resource")
		if own == nil {
			bad("the service is not taken from the attributes of the resource")
			continue
		}
		if !within(src, own) {
			bad("the service is taken from another resource than the span's own")
		}
		// under the key of the service's name
		if v.Fr == nil || v.Val == nil {
			continue
		}
		in, ok := v.Val.(ssa.Instruction)
		if !ok {
			continue
		}
		key, other := false, false
		for _, f := range a.factsAt(v.Fr, in.Block()) {
			if f.T.Op != "binop" {
				continue
			}
			for i := 0; i < 2; i++ {
				x, y := f.T.Args[i], a.peel(f.T.Args[1-i])
				if w.memberOf(x, "Key") == nil {
					continue
				}
				if s, ok := y.isConstString(); ok && s == "service.name" && (f.T.S == "==") == f.True {
					key = true
				} else if ok {
					other = true
				}
			}
		}
		if !key && other {
			bad("the service is taken from another attribute than service.name")
		} else if !key {
			bad("the service may be taken from any attribute")
		}
	}
	if n == 0 {
		bad("ServiceName of a node is never set")
	}
}

// within: x is reached from the object y.
func within(x, y *Term) bool {
	for k := 0; k < 12; k++ {
		if x == y {
			return true
		}
		switch x.Op {
		case "field", "elem", "load", "index", "conv", "chtype":
			x = x.Args[0]
		default:
			return false
		}
	}
	return false
}

// checkAttributes: the attributes of a node are those of its span.
func (w *World) checkAttributes(r *Report, o, src *Term, bad func(string, ...any)) {
	a := w.A
	for _, rec := range a.stores(o, "SpanAttributes") {
		for _, m := range a.values(rec.Val) {
			for _, u := range a.heap[m]["[]"] {
				r.count("members traced", 1)
				at := w.memberOf(u.Key, "Key")
				if at == nil {
					r.count("attributes not followed", 1)
					continue
				}
				coll := at
				if coll.Op == "elem" {
					coll = coll.Args[0]
				}
				if x := w.memberOf(coll, "Attributes"); x == nil || x != src && a.val(x) != a.val(src) {
					bad("an attribute of a node is not one of its span")
				}
				ok := false
				a.reach(u.Val, func(y *Term) bool {
					if x := w.memberOf(y, "Value"); x == at && y.Op != "obj" {
						ok = true
					}
					return !ok
				})
				if !ok {
					bad("the value of an attribute is not its own")
				}
				ch := a.execChain(u.In, u.Fr, u.Fr, u.Fr.Fn.Blocks[0])
				part := false
				for _, l := range ch.Loops {
					part = part || l.Part
				}
				if part {
					bad("attributes may be left out")
				}
			}
		}
	}
}

// checkCopy: a node made from another one.
func (w *World) checkCopy(r *Report, o, src *Term, bad func(string, ...any)) {
	a := w.A
	for _, m := range []string{"ServiceName", "SpanAttributes"} {
		rs := a.stores(o, m)
		if len(rs) == 0 {
			bad("%s is lost when a node is copied", m)
		}
		for _, rec := range rs {
			r.count("members traced", 1)
			if x := w.memberOf(rec.Val, m); x != nil {
				if x != src && a.val(x) != a.val(src) {
					bad("%s of a copy is not that of the copied node", m)
				}
				continue
			}
			if m == "ServiceName" {
				w.checkLabel(r, o, src, rec, bad)
				continue
			}
			bad("%s of a copy is not that of the copied node", m)
		}
	}
}

// checkLabel: "db (service)" of calls to databases.
func (w *World) checkLabel(r *Report, o, src *Term, rec *StoreRec, bad func(string, ...any)) {
	a := w.A
	v := a.copied(rec.Val)
	if v.Op != "call" || v.Callee != "fmt.Sprintf" {
		r.count("labels not followed", 1)
		return
	}
	els, ok := a.elements(v.Args[1])
	if !ok || len(els) != 2 || els[0] == nil || els[1] == nil {
		r.count("labels not followed", 1)
		return
	}
	db, svc := false, false
	a.reach(els[0], func(y *Term) bool {
		if y.Op == "mapget" && len(y.Args) == 2 {
			if s, ok := a.peel(y.Args[1]).isConstString(); ok && s == "db.system" {
				db = true
			}
		}
		return true
	})
	e := a.copied(els[1])
	svc = e.Op == "field" && e.S == "ServiceName" && (e.Args[0] == src || a.val(e.Args[0]) == o || a.val(e.Args[0]) == a.val(src))
	r.count("labels traced", 1)
	if !db || !svc {
		bad("a database is not labelled with its kind and the service calling it")
	}
}

// checkNodes: every received span is filed under its own id and put exactly once into the trees.
func (w *World) checkNodes(c *Command, r *Report, o *Term) {
	a := w.A
	bad := func(in ssa.Instruction, fr *Frame, f string, args ...any) {
		r.failAt(w.P.pos(in.Pos()), fr.String(), f, args...)
	}
	mk := o.Val.(ssa.Instruction)
	// made for every span received
	src := w.memberOf(a.stores(o, "SpanId")[0].Val, "SpanId")
	for x := src; x != nil; {
		if x.Op == "elem" {
			if x.Loop != nil {
				r.count("passes over what was received", 1)
				if x.Loop.Part {
					bad(mk, o.Fr, "received spans may be left out (a pass may end early)")
				}
			}
		}
		if x.Op == "index" && len(x.Args) > 1 && fixedIndex(x.Args[1]) {
			bad(mk, o.Fr, "received spans may be left out (only one item of a list is looked at)")
		}
		if len(x.Args) == 0 || x.Op == "call" {
			break
		}
		x = x.Args[0]
	}
	fr := o.Fr
	var in ssa.Instruction = mk
	for fr != nil {
		ci := cfgOf(fr.Fn)
		ls := ci.loopChain(in.Block())
		if len(ls) > 0 {
			if !ci.everyTurn(innermost(ls), in.Block()) {
				bad(in, fr, "received spans may be left out")
			}
			break
		}
		if !ci.mustExec(in.Block()) {
			bad(in, fr, "received spans may be left out")
		}
		in, fr = fr.Site, fr.Parent
		if in == nil {
			break
		}
	}
	// filed under its own id
	for m, fs := range a.heap {
		if m.Op != "makemap" {
			continue
		}
		for _, rec := range fs["[]"] {
			if !w.holds(rec.Val, o) {
				continue
			}
			r.count("filings", 1)
			x := w.idOf(rec.Key, "SpanId")
			if x == nil {
				if w.idOf(rec.Key, "ParentSpanId") != nil || w.idOf(rec.Key, "TraceId") != nil {
					bad(rec.In, rec.Fr, "a node is not filed under its own id")
				} else if how := w.partOfId(rec.Key, 0); how != "" {
					bad(rec.In, rec.Fr, "a node is filed under a part of its id (%s)", how)
				} else {
					r.count("filings not followed", 1)
				}
				continue
			}
			if x != src && a.val(x) != a.val(src) && !(isNode(x) && a.val(x) == o) {
				bad(rec.In, rec.Fr, "a node is not filed under its own id")
			}
		}
	}
	// attached to its parent
	for _, rec := range a.stores(o, "Children") {
		ap := rec.Val
		if ap.Op != "call" || ap.Callee != "append" {
			continue
		}
		st, ok := rec.In.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		base := rec.Fr.eval(fa.X)
		g := w.lookupIn(base)
		if g == nil {
			r.count("attachments not followed", 1)
			continue
		}
		r.count("attachments", 1)
		y := w.idOf(g.Args[1], "ParentSpanId")
		if y == nil {
			if w.idOf(g.Args[1], "SpanId") != nil || w.idOf(g.Args[1], "TraceId") != nil {
				bad(st, rec.Fr, "a node is not attached to the node of its parent's id")
			} else if how := w.partOfId(g.Args[1], 0); how != "" {
				bad(st, rec.Fr, "the parent of a node is looked up by a part of its id (%s)", how)
			} else {
				r.count("attachments not followed", 1)
			}
			continue
		}
		var child *Term
		if els, ok := a.elements(ap.Args[1]); ok && len(els) == 1 {
			child = els[0]
		}
		if child == nil {
			r.count("attachments not followed", 1)
			continue
		}
		// child and the span whose parent id it is are of the same holder
		if child.Op == "field" && y.Op == "field" && child.Args[0] != y.Args[0] {
			bad(st, rec.Fr, "a node is attached to the parent of another one")
		}
		w.checkTurns(c, r, o, rec, ap, child, base, y, bad)
	}
}

// holds: the value is, or leads to, the object.
func (w *World) holds(t, o *Term) bool {
	for _, x := range w.A.resolve(t) {
		if x == o {
			return true
		}
		if x.Op == "obj" {
			for _, f := range sortedFields(w.A.heap[x]) {
				for _, rec := range w.A.heap[x][f] {
					for _, y := range w.A.resolve(rec.Val) {
						if y == o {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// idOf: the key is made of that id of a span; the span is returned.
func (w *World) idOf(t *Term, name string) *Term {
	a := w.A
	for k := 0; k < 8; k++ {
		t = a.peel(t)
		if x := w.memberOf(t, name); x != nil {
			return x
		}
		switch {
		case t.Op == "conv" || t.Op == "chtype":
			t = t.Args[0]
		case t.Op == "call" && strings.HasSuffix(t.Callee, "hex.EncodeToString"):
			t = t.Args[0]
		case t.Op == "call" && t.Callee == "fmt.Sprintf":
			if els, ok := a.elements(t.Args[1]); ok && len(els) == 1 {
				t = els[0]
				continue
			}
			return nil
		case t.Op == "call" && len(t.Inls) == 1 && len(t.Inls[0].results(0)) == 1:
			t = t.Inls[0].results(0)[0]
		default:
			return nil
		}
	}
	return nil
}

// partOfId: the key is made of an id by something that drops parts of it: what does so.
func (w *World) partOfId(t *Term, depth int) string {
	if depth > 8 {
		return ""
	}
	t = w.A.peel(t)
	made := func(x *Term) bool {
		for _, n := range []string{"SpanId", "ParentSpanId"} {
			if w.idOf(x, n) != nil {
				return true
			}
		}
		return false
	}
	how := ""
	switch {
	case t.Op == "slice" && len(t.Args) >= 3:
		if n, ok := t.Args[1].isConstInt(); ok && n > 0 {
			how = "a slice of it"
		}
		if n, ok := t.Args[2].isConstInt(); ok && n < 8 {
			how = "a slice of it"
		}
	case t.Op == "call" && (strings.HasPrefix(t.Callee, "strings.") || strings.HasPrefix(t.Callee, "bytes.")):
		switch name := t.Callee[strings.Index(t.Callee, ".")+1:]; {
		case strings.HasPrefix(name, "Trim"), strings.HasPrefix(name, "ToLower"), strings.HasPrefix(name, "ToUpper"), strings.HasPrefix(name, "ToValid"):
			how = t.Callee
		}
	}
	for _, x := range t.Args {
		if how != "" && made(x) {
			return how
		}
		if h := w.partOfId(x, depth+1); h != "" {
			return h
		}
		if how == "" && t.Op != "conv" && t.Op != "chtype" && t.Op != "call" {
			break
		}
	}
	return ""
}

// lookupIn: the map lookup an object was found by.
func (w *World) lookupIn(t *Term) *Term {
	for k := 0; k < 8; k++ {
		switch t.Op {
		case "mapget":
			return t
		case "field", "load", "res", "conv", "chtype", "assert":
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// checkTurns: each turn either attaches the node or makes it a root, depending on whether its parent was received.
func (w *World) checkTurns(c *Command, r *Report, o *Term, rec *StoreRec, ap, child, base, y *Term, bad func(ssa.Instruction, *Frame, string, ...any)) {
	a := w.A
	fr := rec.Fr
	ls := cfgOf(fr.Fn).loopChain(rec.In.Block())
	if len(ls) == 0 {
		r.count("attachments not followed", 1)
		return
	}
	lp := fr.loopCtx(innermost(ls))
	if lp.Part {
		bad(rec.In, fr, "nodes may be left out (a pass may end early)")
	}
	attach := rec.In.Block()
	// the roots: other collections of nodes the child is added to in this loop
	var roots []*ssa.BasicBlock
	for b := range lp.L.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			t := fr.eval(call)
			if t.Op != "call" || t.Callee != "append" || t == ap {
				continue
			}
			els, ok := a.elements(t.Args[1])
			if !ok || len(els) != 1 {
				continue
			}
			if els[0] == child || a.val(els[0]) != nil && a.val(els[0]) == a.val(child) {
				roots = append(roots, b)
			} else if w.holds(els[0], o) {
				roots = append(roots, b)
			}
		}
	}
	// what the member Parent becomes
	linked := false
	for _, p := range a.heap[o]["Parent"] {
		if p.Zero || p.Val.Op == "nil" || p.Val.Op == "zero" {
			continue
		}
		if p.Fr == fr && p.In.Block() == attach {
			linked = true
		}
		if p.Fr == fr && p.Val != base && a.val(p.Val) != nil && a.val(p.Val) != a.val(base) {
			bad(p.In, p.Fr, "the parent of a node is not the node it is attached to")
		}
		if st, ok := p.In.(*ssa.Store); ok && p.Fr == fr {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if x := fr.eval(fa.X); x != child && x == base {
					bad(p.In, p.Fr, "the parent of a node is not the node it is attached to")
				}
			}
		}
	}
	if !linked && len(a.heap[o]["Parent"]) == 0 {
		bad(rec.In, fr, "an attached node does not know its parent")
	}
	if len(roots) == 0 {
		r.count("attachments not followed", 1)
		return
	}
	done, _, ok := a.turns(lp)
	if !ok {
		r.count("attachments not followed", 1)
		return
	}
	found := func(f Fact) bool {
		g := f.T
		if g.Op == "res" && g.Idx == 1 && g.Args[0].Op == "mapget" {
			return w.idOf(g.Args[0].Args[1], "ParentSpanId") != nil
		}
		return false
	}
	isNil := func(f Fact) (isnil, about bool) {
		if f.T.Op != "binop" || f.T.S != "==" && f.T.S != "!=" {
			return
		}
		for i := 0; i < 2; i++ {
			x, n := f.T.Args[i], f.T.Args[1-i]
			if n.Op == "nil" {
				if g := w.lookupIn(x); g != nil && w.idOf(g.Args[1], "ParentSpanId") != nil {
					return (f.T.S == "==") == f.True, true
				}
			}
		}
		return
	}
	for _, t := range done {
		n := 0
		isRoot := false
		for _, b := range roots {
			if t.Seen[b] {
				n++
				isRoot = true
			}
		}
		if t.Seen[attach] {
			n++
		}
		r.count("ways to place a node", 1)
		if n == 0 {
			bad(rec.In, fr, "a received span may be left out of the trees")
			return
		}
		if n > 1 {
			bad(rec.In, fr, "a received span may be placed twice")
			return
		}
		if isRoot {
			why := false
			for _, f := range t.Facts {
				if found(f) && !f.True {
					why = true
				}
				if n, about := isNil(f); about && n {
					why = true
				}
			}
			// or it has no parent at all
			if !why && !w.noParent(t) {
				bad(rec.In, fr, "a span whose parent was received may become a root")
				return
			}
		}
	}
}

// noParent: on this way the id of the parent is known to be empty.
func (w *World) noParent(t Out) bool {
	of := func(x *Term) bool {
		for k := 0; k < 6 && x != nil; k++ {
			if w.memberOf(x, "ParentSpanId") != nil {
				return true
			}
			if isLen(x) || x.Op == "conv" || x.Op == "elem" || x.Op == "index" || x.Op == "load" || x.Op == "chtype" {
				x = x.Args[0]
				continue
			}
			return false
		}
		return false
	}
	for _, f := range t.Facts {
		if f.T.Op == "binop" {
			x, y, op := f.T.Args[0], f.T.Args[1], f.T.S
			if !of(x) {
				x, y, op = y, x, swapOpS(op)
			}
			if !f.True {
				op = negOpS(op)
			}
			if of(x) && op == "==" && (constZero(y) || y.Op == "nil") {
				return true
			}
			if s, ok := y.isConstString(); of(x) && op == "==" && ok && s == "" {
				return true
			}
		}
	}
	for _, q := range t.Alls {
		if q.Loop == nil || q.Loop.Coll == nil || !of(q.Loop.Coll) {
			continue
		}
		// every byte is zero
		all := true
		for _, alt := range q.Alts {
			zero := false
			for _, f := range alt.Facts {
				if f.T.Op == "binop" && (f.T.S == "==") == f.True && (f.T.S == "==" || f.T.S == "!=") {
					for i := 0; i < 2; i++ {
						if constZero(f.T.Args[i]) {
							zero = true
						}
					}
				}
			}
			all = all && zero
		}
		if all {
			return true
		}
	}
	return false
}

// checkSiblings: siblings are put in the order of their start, in every level of every tree.
func (w *World) checkSiblings(c *Command, r *Report) {
	n := 0
	for _, e := range c.events {
		if e.Callee != "sort.Slice" && e.Callee != "sort.SliceStable" || len(e.Args) != 2 {
			continue
		}
		x := w.memberOf(e.Args[0], "Children")
		if x == nil {
			x = w.childrenIn(e.Args[0])
		}
		if x == nil {
			continue
		}
		n++
		r.count("orderings", 1)
		bad := func(f string, args ...any) { r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), f, args...) }
		cl := e.Args[1]
		if cl.Fn == nil {
			r.count("orderings not followed", 1)
			continue
		}
		l, rr, op, ok := cmpOf(cl.Fn)
		if !ok {
			r.count("orderings not followed", 1)
		} else {
			up := l.param == 0 && rr.param == 1 && (op == token.LSS || op == token.LEQ) || l.param == 1 && rr.param == 0 && (op == token.GTR || op == token.GEQ)
			if l.field != "StartTimeUnixNano" || rr.field != "StartTimeUnixNano" {
				bad("siblings are ordered by %s and %s", l.field, rr.field)
			} else if l.part || rr.part {
				bad("siblings are ordered by a part of StartTimeUnixNano")
			} else if !up {
				bad("siblings are not ordered from the first to the last")
			}
		}
		// for every node: the function does the same for every child
		if !cfgOf(e.Fr.Fn).mustExec(e.In.Block()) {
			bad("siblings may be left unordered")
		}
		w.checkRecursion(r, e.Fr, x, bad)
		w.checkEachRoot(c, r, e, bad)
	}
	if n == 0 {
		for _, e := range c.events {
			if strings.Contains(e.Callee, "sort.") || strings.Contains(e.Callee, "slices.Sort") {
				r.count("orderings not followed", 1)
				n++
			}
		}
	}
	if n == 0 {
		r.missing("the ordering of siblings")
	}
}

func (w *World) childrenIn(t *Term) *Term {
	t = w.A.copied(t)
	if t.Op == "field" && t.S == "Children" {
		return t.Args[0]
	}
	return nil
}

// checkRecursion: the function of the frame calls itself for every child of its node.
func (w *World) checkRecursion(r *Report, fr *Frame, node *Term, bad func(string, ...any)) {
	rec := false
	for _, b := range fr.Fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != fr.Fn {
				continue
			}
			rec = true
			r.count("recursions over children", 1)
			ci := cfgOf(fr.Fn)
			ls := ci.loopChain(b)
			if len(ls) == 0 {
				bad("not every child is treated like its parent")
				continue
			}
			l := innermost(ls)
			lc := fr.loopCtx(l)
			if lc.Part || !ci.everyTurn(l, b) || !ci.mustExec(l.Header) {
				bad("some children may be left out")
			}
			if lc.Coll == nil || w.childrenIn(lc.Coll) == nil || w.childrenIn(lc.Coll) != node && w.A.val(w.childrenIn(lc.Coll)) != w.A.val(node) {
				bad("the recursion does not go over the children of the node")
			}
		}
	}
	if !rec {
		r.count("recursions not followed", 1)
	}
}

// checkEachRoot: it is done for every root.
func (w *World) checkEachRoot(c *Command, r *Report, e *Event, bad func(string, ...any)) {
	ps := pathTo(c.Run, e.Fr, e.In)
	for i := len(ps) - 2; i >= 0; i-- {
		s := ps[i]
		ci := cfgOf(s.Fr.Fn)
		ls := ci.loopChain(s.In.Block())
		if len(ls) > 0 {
			if s.Fr.loopCtx(innermost(ls)).Part || !ci.everyTurn(innermost(ls), s.In.Block()) {
				bad("some trees may be left unordered")
			}
			return
		}
		if !ci.mustExec(s.In.Block()) {
			bad("some trees may be left unordered")
		}
	}
}

type cmpSide struct {
	param int
	field string
	part  bool // a coarser value than the member
}

// cmpOf: the comparison a less function returns.
func cmpOf(fn *ssa.Function) (l, r cmpSide, op token.Token, ok bool) {
	if len(fn.Blocks) != 1 {
		return
	}
	ret, isRet := lastInstr(fn.Blocks[0]).(*ssa.Return)
	if !isRet || len(ret.Results) != 1 {
		return
	}
	b, isBin := ret.Results[0].(*ssa.BinOp)
	if !isBin {
		return
	}
	l, ok1 := sideOf(fn, b.X)
	r, ok2 := sideOf(fn, b.Y)
	return l, r, b.Op, ok1 && ok2
}

func sideOf(fn *ssa.Function, v ssa.Value) (cmpSide, bool) {
	s := cmpSide{param: -1}
	for k := 0; k < 12; k++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			if s.field == "" {
				s.field = fieldNameOf(x.X.Type(), x.Field)
			}
			v = x.X
		case *ssa.Field:
			if s.field == "" {
				s.field = fieldNameOf(x.X.Type(), x.Field)
			}
			v = x.X
		case *ssa.Call:
			if len(x.Call.Args) == 0 {
				return s, false
			}
			if s.field == "" {
				if f := x.Call.StaticCallee(); f != nil {
					s.field = f.Name() + "()"
				}
			}
			v = x.Call.Args[0]
		case *ssa.IndexAddr:
			v = x.Index
		case *ssa.Index:
			v = x.Index
		case *ssa.BinOp:
			c, ok := x.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return s, false
			}
			switch x.Op {
			case token.QUO, token.SHR, token.REM, token.AND, token.AND_NOT:
				s.part = true
			case token.ADD, token.SUB, token.MUL:
			default:
				return s, false
			}
			v = x.X
		case *ssa.Convert:
			if b, ok := x.Type().Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32, types.Float32, types.Float64:
					s.part = true
				}
			}
			v = x.X
		case *ssa.Parameter:
			for i, p := range fn.Params {
				if p == x {
					s.param = i
				}
			}
			return s, s.param >= 0
		default:
			return s, false
		}
	}
	return s, false
}

// checkSpanViews: the reported spans mirror the nodes.
func (w *World) checkSpanViews(c *Command, r *Report) {
	a := w.A
	hexOf := func(name string) func(*World, *Term, *Term) string {
		return func(w *World, v, src *Term) string {
			ts := a.tmpls(v)
			if x := a.peel(v); x.Op == "call" && strings.HasSuffix(x.Callee, "hex.EncodeToString") {
				if y := w.memberOf(x.Args[0], name); y != nil && (y == src || a.sameVal(y, src)) {
					return ""
				}
				return "it is not the " + name + " of the span"
			}
			for _, t := range ts {
				hs := t.holes()
				if len(t) != 1 || len(hs) != 1 {
					return "it is not the " + name + " of the span"
				}
				if t[0].Verb != "%x" && t[0].Verb != "%02x" {
					if x := a.peel(hs[0]); !(x.Op == "call" && strings.HasSuffix(x.Callee, "hex.EncodeToString")) {
						return "it is not written in hexadecimal"
					}
				}
				h := a.peel(hs[0])
				if h.Op == "call" && strings.HasSuffix(h.Callee, "hex.EncodeToString") {
					h = a.peel(h.Args[0])
				}
				y := w.memberOf(h, name)
				if y == nil || y != src && !a.sameVal(y, src) {
					return "it is not the " + name + " of the span"
				}
			}
			return ""
		}
	}
	milliOf := func(name string) func(*World, *Term, *Term) string {
		return func(w *World, v, src *Term) string {
			div := int64(1)
			x := a.peel(v)
			for x.Op == "binop" && x.S == "/" || x.Op == "conv" || x.Op == "chtype" {
				if x.Op == "binop" {
					k, ok := a.peel(x.Args[1]).isConstInt()
					if !ok {
						return "it is not in milliseconds"
					}
					div *= k
				}
				x = a.peel(x.Args[0])
			}
			if x.Op == "call" { // another way to convert
				r.count("times not followed", 1)
				return ""
			}
			if y := w.memberOf(x, name); y == nil || y != src && !a.sameVal(y, src) {
				return "it is not the " + name + " of the span"
			}
			if div != milli {
				return "it is not in milliseconds"
			}
			return ""
		}
	}
	ms := []memb{
		{JSON: "name", Field: "Name"}, {JSON: "serviceName", Field: "ServiceName"},
		{JSON: "spanId", Field: "SpanId", Fn: hexOf("SpanId")},
		{JSON: "startTimeMillis", Fn: milliOf("StartTimeUnixNano")},
		{JSON: "endTimeMillis", Fn: milliOf("EndTimeUnixNano")},
	}
	n := 0
	for _, o := range w.objsOf(c, vmPkg+"VmOtelTraceSpan") {
		var src *Term
		for _, f := range []string{"Name", "ServiceName"} {
			for _, rec := range a.stores(o, f) {
				if x := w.memberOf(rec.Val, f); x != nil && src == nil {
					src = x
				}
			}
		}
		if src == nil {
			r.failAt(w.P.pos(o.Val.Pos()), o.Fr.String(), "a reported span is not made from a node")
			continue
		}
		n++
		bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Val.Pos()), o.Fr.String(), f, args...) }
		if why := w.copied(o, src, ms, r); why != "" {
			bad("reported span: %s", why)
		}
		why := w.eachOf(a.field(o, "Children"), func(coll *Term) bool {
			x := w.childrenIn(coll)
			if x == nil {
				x = w.memberOf(coll, "Children")
			}
			return x != nil && (x == src || a.sameVal(x, src))
		}, func(el, b *Term) string {
			b = a.copied(b)
			if b.Op == "call" && len(b.Args) > 0 {
				for _, y := range b.Args {
					if y == el || a.val(y) == el {
						if b.Callee == fnName(o.Fr.Fn) || len(b.Inls) == 0 || true {
							return ""
						}
					}
				}
				return "a child of the report is not made from its own node"
			}
			return ""
		})
		if why != "" {
			bad("children of a reported span: %s", why)
		}
	}
	if n == 0 {
		r.missing("the reported spans")
	}
	k := 0
	for _, o := range w.objsOf(c, vmPkg+"VmOtelCompactTrace") {
		k++
		bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Val.Pos()), o.Fr.String(), f, args...) }
		r.count("reported traces", 1)
		// the root's view is made from the node the trace's id is taken from
		var root *Term
		for _, x := range a.values(a.field(o, "Root")) {
			if x.Op == "obj" {
				for _, rec := range a.stores(x, "Name") {
					root = w.memberOf(rec.Val, "Name")
				}
			}
		}
		if root == nil {
			bad("the root of a reported trace is not that of the trace")
			continue
		}
		if why := hexOf("TraceId")(w, a.field(o, "TraceId"), root); why != "" {
			bad("traceId: %s", why)
		}
	}
	if k == 0 {
		r.missing("the reported traces")
	}
}

// checkUnsigned: a subtraction of unsigned numbers happens only when it does not go below zero.
func (w *World) checkUnsigned(r *Report) {
	a := w.A
	var frs []*Frame
	for _, fs := range a.ByFn {
		if len(fs) > 0 && isRepoPkg(pkgPathOf(fs[0].Fn)) {
			frs = append(frs, fs...)
		}
	}
	sort.Slice(frs, func(i, j int) bool { return frs[i].ID < frs[j].ID })
	for _, fr := range frs {
		for _, b := range fr.Fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.BinOp)
				if !ok || x.Op != token.SUB {
					continue
				}
				bt, ok := x.Type().Underlying().(*types.Basic)
				if !ok || bt.Info()&types.IsUnsigned == 0 {
					continue
				}
				r.count("subtractions of unsigned numbers", 1)
				l, s := fr.eval(x.X), fr.eval(x.Y)
				good := false
				for _, f := range a.factsOnPath(fr, b, rootOf(fr)) {
					if f.T.Op != "binop" {
						continue
					}
					p, q, op := f.T.Args[0], f.T.Args[1], f.T.S
					if p == s && q == l {
						p, q, op = q, p, swapOpS(op)
					}
					if p != l || q != s {
						continue
					}
					if !f.True {
						op = negOpS(op)
					}
					if op == ">" || op == ">=" || op == "==" {
						good = true
					}
				}
				if !good {
					r.failAt(w.P.pos(x.Pos()), fr.String(), "a difference of unsigned numbers may fall below zero and wrap around")
				}
			}
		}
	}
}

// fixedIndex: an index made of constants only, the same on every run.
func fixedIndex(t *Term) bool {
	switch {
	case t.Op == "const":
		return true
	case strings.HasPrefix(t.Op, "binop"):
		for _, x := range t.Args {
			if !fixedIndex(x) {
				return false
			}
		}
		return len(t.Args) > 0
	}
	return false
}
