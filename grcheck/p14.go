package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P14", "The nodes of the report are traced to the nodes of the plan (every member, every child, in order); each metric of a plan node to the group of the regular expression that captures it, parsed as the documented line format, on the node's own line and set whenever the group matched; every turn over the plan's lines attaches and stacks exactly one node under the nearest line indented less (dataflow over the relation of the stack's top and the indentation); lines gathered into nodes are never dropped; the summary is everything from the line that ends the plan.", checkP14)
}

type planSpec struct {
	cmd, line, inner, node, indent string
	metrics                        map[string]string // member -> kind
}

var estKinds = map[string]string{"EstimatedInitCost": "init", "EstimatedCost": "cost", "EstimatedReturnedRows": "rows", "EstimatedWidth": "width"}
var actKinds = map[string]string{"ActualTimeFirstRow": "first", "ActualTimeAvg": "time", "ActualReturnedRows": "rows", "ActualLoopCount": "loops"}

func jsonOf(f string) string { return strings.ToLower(f[:1]) + f[1:] }

func checkP14(w *World, r *Report) {
	a := w.A
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		roots := w.reportRoots(c)
		if len(roots) != 1 {
			r.missing("the report of %q", name)
			continue
		}
		mysql := strings.Contains(name, "mysql")
		pk := modPath + "/database/postgres/pmodel"
		inner, lineT := "AnalyzeResultNode", "ExplainAnalyzeResultNode"
		if mysql {
			pk = modPath + "/database/mysql/mmodel"
			inner, lineT = "AnalyzeResultLine", "ExplainAnalyzeResultLine"
		}
		nodes := a.jsonAt(roots[0], suggestPaths[name]+".analyzeNodes")
		if nodes == nil {
			r.missing("member analyzeNodes of the report of %q", name)
			continue
		}
		bad := func(f string, args ...any) { r.failAt(posOfTerm(w, nodes), name, f, args...) }
		var treeRoot *Term
		why := w.eachOf(nodes, func(coll *Term) bool {
			x := coll
			if x.Op != "field" {
				x = a.val(coll)
			}
			if x == nil || x.Op != "field" || x.S != "Children" {
				// a field of the root object, resolved
				for _, o := range w.objsOf(c, pk+".ExplainAnalyzeTreeNode") {
					if w.sameAny(coll, a.field(o, "Children")) && a.field(o, "Children") != nil {
						treeRoot = o
						return true
					}
				}
				return false
			}
			treeRoot = x.Args[0]
			return true
		}, func(el, b *Term) string { return w.viewNode(r, b, el, inner, mysql, 0) })
		if why != "" {
			bad("the reported plan: %s", why)
		}
		_ = treeRoot
		// metrics
		n := 0
		for _, o := range w.objsOf(c, pk+"."+lineT) {
			text := "Lines"
			if mysql {
				text = "Text"
			}
			if len(a.heap[o][text]) == 0 {
				continue // the root that stands for no line
			}
			n++
			w.checkMetrics(c, r, o, text, mysql)
		}
		if n == 0 {
			r.missing("nodes made from the plan's lines of %q", name)
		}
		w.checkTree(c, r, pk+".ExplainAnalyzeTreeNode", inner, mysql)
		if !mysql {
			w.checkSummary(c, r, a.jsonAt(roots[0], suggestPaths[name]+".summaryText"))
		}
	}
}

func posOfTerm(w *World, t *Term) string {
	for _, x := range append([]*Term{t}, w.A.resolve(t)...) {
		if x.Val != nil && x.Val.Pos().IsValid() {
			return w.P.pos(x.Val.Pos())
		}
	}
	return "?"
}

// viewNode: view shows the plan node el.
func (w *World) viewNode(r *Report, view, el *Term, inner string, mysql bool, depth int) string {
	a := w.A
	v := a.val(view)
	if v == nil || v.Op != "obj" {
		return "a node is not made from one node of the plan"
	}
	line := a.field(el, inner)
	fs := a.jsonFields(v)
	ms := []string{"TableName"}
	for m := range estKinds {
		if mysql && m == "EstimatedWidth" {
			continue
		}
		ms = append(ms, m)
	}
	for m := range actKinds {
		ms = append(ms, m)
	}
	sortStrings(ms)
	same := func(x *Term, f string) bool {
		for _, y := range append([]*Term{x}, a.values(x)...) {
			if y.Op == "field" && y.S == f && (y.Args[0] == line || w.sameAny(y.Args[0], line)) {
				return true
			}
		}
		return w.sameAny(x, a.field(line, f))
	}
	for _, m := range ms {
		x := fs[jsonOf(m)]
		if x == nil {
			return "a node has no " + jsonOf(m)
		}
		r.count("members traced", 1)
		if !same(x, m) {
			return "the " + jsonOf(m) + " of a node is not that of its line"
		}
	}
	txt := fs["text"]
	if txt == nil {
		return "a node has no text"
	}
	if mysql {
		if !same(txt, "Text") {
			return "the text of a node is not its line"
		}
	} else {
		ok := false
		for _, x := range append([]*Term{txt}, a.values(txt)...) {
			if x.Op == "call" && x.Callee == "strings.Join" && same(x.Args[0], "Lines") {
				if s, is := x.Args[1].isConstString(); is && s == "\n" {
					ok = true
				}
			}
		}
		if !ok {
			return "the text of a node is not that of its lines"
		}
	}
	if t := fs["title"]; t == nil {
		return "a node has no title"
	} else {
		hit := false
		a.reach(t, func(y *Term) bool {
			if y == line || y.Op == "field" && (y.S == "Text" || y.S == "Lines") || y.Op == "call" && strings.HasSuffix(y.Callee, ").Title") {
				hit = true
			}
			return !hit
		})
		if !hit {
			return "the title of a node is not made from its line"
		}
	}
	ch := fs["children"]
	if ch == nil {
		return "a node has no children"
	}
	src := a.field(el, "Children")
	if w.recursion(ch, v, src) {
		return ""
	}
	return w.eachOf(ch, func(coll *Term) bool {
		for _, y := range append([]*Term{coll}, a.values(coll)...) {
			if y == src || y.Op == "field" && y.S == "Children" && (y.Args[0] == el || w.sameAny(y.Args[0], el)) {
				return true
			}
		}
		return w.sameAny(coll, src)
	}, func(e, b *Term) string {
		if w.recursion(b, v, e) {
			return ""
		}
		if depth < 3 {
			return w.viewNode(r, b, e, inner, mysql, depth+1)
		}
		return "a child is not shown like its parent"
	})
}

// recursion: t is what a function already being followed makes of arg.
func (w *World) recursion(t, view, arg *Term) bool {
	for _, x := range append([]*Term{t}, w.A.values(t)...) {
		if x.Op == "res" && x.Idx == 0 {
			x = x.Args[0]
		}
		if x.Op != "call" || len(x.Inls) > 0 || x.Val == nil {
			continue
		}
		ci, ok := x.Val.(ssa.CallInstruction)
		if !ok {
			continue
		}
		fn := ci.Common().StaticCallee()
		hit := false
		for _, y := range x.Args {
			if y == arg || w.sameAny(y, arg) {
				hit = true
			}
		}
		for f := view.Fr; f != nil && hit; f = f.Parent {
			if f.Fn == fn {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- metrics

// lineForm writes a pattern as the line format it describes: N for a number that is captured, [..] for optional parts.
type capture struct {
	label string
	opt   []int // the optional groups (by their own captures) it lies in
	float bool
	ok    bool // captures whole numbers
}

func lineForm(pat string) (string, map[int]*capture, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return "", nil, false
	}
	caps := map[int]*capture{}
	good := true
	var out strings.Builder
	var walk func(x *syntax.Regexp, opt []int)
	walk = func(x *syntax.Regexp, opt []int) {
		switch x.Op {
		case syntax.OpLiteral:
			out.WriteString(string(x.Rune))
		case syntax.OpConcat:
			for _, s := range x.Sub {
				walk(s, opt)
			}
		case syntax.OpCapture:
			s := x.Sub[0]
			if s.Op == syntax.OpPlus && s.Sub[0].Op == syntax.OpCharClass {
				cl := s.Sub[0].Rune
				in := func(r rune) bool {
					for i := 0; i+1 < len(cl); i += 2 {
						if cl[i] <= r && r <= cl[i+1] {
							return true
						}
					}
					return false
				}
				k := &capture{label: out.String(), opt: opt, float: in('.'), ok: in('0') && in('5') && in('9')}
				caps[x.Cap] = k
				out.WriteString("N")
				return
			}
			caps[x.Cap] = &capture{label: out.String(), opt: opt}
			n := opt
			if len(opt) > 0 {
				n = append(append([]int{}, opt...), x.Cap)
			}
			walk(s, n)
		case syntax.OpQuest:
			out.WriteString("[")
			// the captures of the optional part
			n := append([]int{}, opt...)
			n = append(n, -1)
			walk(x.Sub[0], n)
			out.WriteString("]")
		case syntax.OpEmptyMatch:
		default:
			good = false
		}
	}
	walk(re, nil)
	return out.String(), caps, good
}

var lineForms = map[string]map[string]string{
	"mysql-est":    {"(cost=": "init|cost", "(cost=N[..": "cost", "(cost=N[..N][ rows=": "rows"},
	"postgres-est": {"(cost=": "init", "(cost=N..": "cost", "(cost=N..N rows=": "rows", "(cost=N..N rows=N width=": "width"},
	"act":          {"(actual time=": "first", "(actual time=N..": "time", "(actual time=N..N rows=": "rows", "(actual time=N..N rows=N loops=": "loops"},
}
var formNames = map[string]string{
	"(cost=N[..N][ rows=N])":            "mysql-est",
	"(cost=N..N rows=N width=N)":        "postgres-est",
	"(actual time=N..N rows=N loops=N)": "act",
}

func (w *World) checkMetrics(c *Command, r *Report, o *Term, text string, mysql bool) {
	a := w.A
	line := a.field(o, text)
	for f, kind := range mergeKinds(mysql) {
		recs := a.heap[o][f]
		n := 0
		var withDots, withoutDots bool
		for _, rec := range recs {
			if rec.Zero {
				continue
			}
			bad := func(s string, args ...any) {
				r.failAt(w.P.pos(rec.In.Pos()), c.Path, "%s of a plan node: "+s, append([]any{f}, args...)...)
			}
			for _, v := range a.values(rec.Val) {
				if v.Op == "zero" || v.Op == "const" {
					continue
				}
				n++
				r.count("metrics traced", 1)
				m, g, parse := w.metricSource(v)
				if m == nil {
					bad("it is not a number read from the line")
					continue
				}
				isFloat := strings.HasSuffix(parse.Callee, "ParseFloat")
				bits := int64(0)
				if isFloat {
					bits, _ = parse.Args[1].isConstInt()
				} else if strings.HasSuffix(parse.Callee, "ParseInt") {
					base, _ := parse.Args[1].isConstInt()
					bits, _ = parse.Args[2].isConstInt()
					if base != 10 {
						bad("the number is not read as a decimal number")
					}
				} else {
					bits = 64
				}
				if bits != 64 {
					bad("the number is read with less precision than the line states")
				}
				pat, ok := a.regexpOf(m.Args[0])
				if !ok {
					bad("the pattern of the line is unknown")
					continue
				}
				form, caps, ok := lineForm(pat)
				fn := formNames[form]
				if !ok || fn == "" || strings.HasPrefix(fn, "mysql") && !mysql || strings.HasPrefix(fn, "postgres") && mysql {
					bad("the pattern %s does not describe the lines of a plan", form)
					continue
				}
				k := caps[g]
				want := lineForms[fn]
				if k == nil || !k.ok || isFloat && !k.float {
					bad("the number is not captured whole")
					continue
				}
				lk := want[k.label]
				est := strings.HasSuffix(fn, "est")
				if _, isEst := estKinds[f]; isEst != est {
					bad("it is read from the wrong part of the line")
					continue
				}
				if lk == "" || !strings.Contains("|"+lk+"|", "|"+kind+"|") {
					bad("it is read from the wrong place of the line")
					continue
				}
				// facts about optional groups
				fs := a.factsOnPath(rec.Fr, rec.In.Block(), o.Fr)
				known := func(label string) (present, absent bool) {
					for _, fc := range fs {
						if len(fc.Loops) > 0 {
							continue
						}
						e, is := w.emptyTest(fc.T, func(t *Term) bool {
							x := t
							if x.Op != "index" {
								if y := a.val(t); y != nil {
									x = y
								}
							}
							if x.Op != "index" || a.val(x.Args[0]) != m && x.Args[0] != m {
								return false
							}
							i, isN := x.Args[1].isConstInt()
							return isN && caps[int(i)] != nil && caps[int(i)].label == label
						})
						if is && e == fc.True {
							absent = true
						} else if is {
							present = true
						}
					}
					return
				}
				if fn == "mysql-est" {
					p1, a1 := known("(cost=N[")
					p2, a2 := known("(cost=N[..")
					dots, noDots := p1 || p2, a1 || a2
					switch k.label {
					case "(cost=":
						if kind == "init" && !dots {
							bad("the cost is taken for the initial cost when the line states one cost only")
						}
						if kind == "cost" && !noDots {
							bad("the initial cost may be taken for the cost")
						}
						withoutDots = withoutDots || kind == "cost"
					case "(cost=N[..":
						if !dots {
							bad("the second cost is read although the line may state one cost only")
						}
						withDots = true
					default:
						q1, _ := known("(cost=N[..N][")
						q2, _ := known("(cost=N[..N][ rows=")
						if !q1 && !q2 {
							bad("the rows are read although the line may not state them")
						}
					}
				}
				// on the node's own line
				if !w.ownLine(m.Args[1], line, mysql) {
					bad("it is read from another line")
				}
				// whenever the line states it
				ch := a.execChain(rec.In, rec.Fr, o.Fr, o.Val.(ssa.Instruction).Block())
				for _, cd := range ch.Conds {
					if !w.metricCond(cd, m, k.label) {
						bad("it is left out although the line states it (%s)", w.P.pos(cd.pos()))
						break
					}
				}
				if len(ch.Loops) > 0 {
					bad("it is read several times")
				}
			}
		}
		if n == 0 {
			r.failAt(w.P.pos(o.Val.Pos()), c.Path, "%s of a plan node is never read", f)
		} else if mysql && kind == "cost" && (!withDots || !withoutDots) {
			r.failAt(w.P.pos(o.Val.Pos()), c.Path, "%s of a plan node is not read from every line that states it", f)
		}
	}
}

func mergeKinds(mysql bool) map[string]string {
	m := map[string]string{}
	for k, v := range estKinds {
		if !(mysql && k == "EstimatedWidth") {
			m[k] = v
		}
	}
	for k, v := range actKinds {
		m[k] = v
	}
	return m
}

// metricSource: null.XFrom(strconv.ParseX(match[g])).
func (w *World) metricSource(v *Term) (match *Term, g int, parse *Term) {
	a := w.A
	if v.Op != "call" || !strings.HasPrefix(v.Callee, "gopkg.in/guregu/null.v4.") || len(v.Args) == 0 {
		return nil, 0, nil
	}
	if !strings.HasSuffix(v.Callee, ".FloatFrom") && !strings.HasSuffix(v.Callee, ".IntFrom") {
		return nil, 0, nil
	}
	x := a.val(v.Args[0])
	for x != nil && x.Op == "conv" {
		x = a.val(x.Args[0])
	}
	if x == nil || x.Op != "res" || x.Idx != 0 || x.Args[0].Op != "call" || !strings.HasPrefix(x.Args[0].Callee, "strconv.") {
		return nil, 0, nil
	}
	parse = x.Args[0]
	i := a.val(parse.Args[0])
	if i == nil || i.Op != "index" {
		return nil, 0, nil
	}
	n, ok := i.Args[1].isConstInt()
	m := a.val(i.Args[0])
	if !ok || m == nil || m.Op != "call" || m.Callee != "(*regexp.Regexp).FindStringSubmatch" {
		return nil, 0, nil
	}
	return m, int(n), parse
}

func (w *World) ownLine(t, line *Term, mysql bool) bool {
	a := w.A
	if mysql {
		return t == line || w.sameAny(t, line)
	}
	n := 0
	for _, x := range a.values(t) {
		if s, ok := x.isConstString(); ok && s == "" {
			continue
		}
		if x.Op == "index" && a.val(x.Args[1]).Op == "const" {
			return false // the numbers may be on any line of a node
		}
		if (x.Op == "elem" || x.Op == "index") && (x.Args[0] == line || w.sameAny(x.Args[0], line)) {
			n++
			continue
		}
		return false
	}
	return n > 0
}

// metricCond: the condition only asks whether the line states the number.
func (w *World) metricCond(cd Cond, m *Term, label string) bool {
	if cd.T == nil || cd.Complex {
		return false
	}
	a := w.A
	t, pol := cd.T, cd.True
	for t.Op == "unop" && t.S == "!" {
		t, pol = t.Args[0], !pol
	}
	if t.Op == "binop" && (t.S == "==" || t.S == "!=") && (t.Args[1].Op == "nil" || t.Args[0].Op == "nil") {
		x := t.Args[0]
		if x.Op == "nil" {
			x = t.Args[1]
		}
		if a.val(x) == m || x == m {
			return (t.S == "!=") == pol
		}
		if isErrorSlotT(x) || x.T != nil && isErrorType(x.T) {
			return (t.S == "==") == pol
		}
		return false
	}
	if e, ok := w.emptyTest(t, func(x *Term) bool { return a.val(x) == m || x == m }); ok {
		return e != pol
	}
	_, ok := w.emptyTest(t, func(x *Term) bool {
		y := a.val(x)
		return y != nil && y.Op == "index" && (a.val(y.Args[0]) == m || y.Args[0] == m)
	})
	return ok
}

// ---------------------------------------------------------------- the tree

// stackCall: a call of a method of lib.Stack.
func stackCall(in ssa.Instruction) (name string, recv ssa.Value, c *ssa.Call) {
	x, ok := in.(*ssa.Call)
	if !ok {
		return "", nil, nil
	}
	fn := x.Call.StaticCallee()
	if fn == nil || fn.Signature.Recv() == nil {
		return "", nil, nil
	}
	n := namedOf(fn.Signature.Recv().Type())
	if !strings.HasPrefix(n, modPath+"/lib.Stack") {
		return "", nil, nil
	}
	return fn.Name(), x.Call.Args[0], x
}

func (w *World) checkTree(c *Command, r *Report, nodeT, inner string, mysql bool) {
	a := w.A
	if mysql {
		w.checkStacks(r, func(t string) bool { return !strings.Contains(t, "omodel.") })
	}
	for _, o := range w.objsOf(c, nodeT) {
		// nodes standing for lines: those made in a loop
		ch := a.execChain(o.Val.(ssa.Instruction), o.Fr, o.Fr, o.Fr.Fn.Blocks[0])
		fr := o.Fr
		mk := o.Val.(ssa.Instruction)
		for len(ch.Loops) == 0 && fr.Parent != nil && fr.Parent != c.Run && fr.Site != nil && pkgPathOf(fr.Fn) == pkgPathOf(fr.Parent.Fn) {
			// made by a helper
			mk = fr.Site.(ssa.Instruction)
			fr = fr.Parent
			ch = a.execChain(mk, fr, fr, fr.Fn.Blocks[0])
		}
		if len(ch.Loops) == 0 {
			continue
		}
		bad := func(s string, args ...any) { r.failAt(w.P.pos(o.Val.Pos()), c.Path, s, args...) }
		lp := ch.Loops[len(ch.Loops)-1]
		if lp.Part || lp.L == nil || lp.L.Kind != "slice" || len(ch.Loops) != 1 {
			bad("nodes are not made by one pass over the lines of the plan")
			continue
		}
		el := a.mk("elem", "", 0, lp, lp.Coll)
		// the source of the lines
		src := false
		a.reach(lp.Coll, func(y *Term) bool {
			for _, op := range w.opsOf(c) {
				if op.Kind == "explain" && y == op.Ev.Call {
					src = true
				}
			}
			return !src
		})
		if !src {
			bad("the lines are not those of the server's plan")
		}
		for _, x := range a.values(lp.Coll) {
			if mysql && (x.Op != "call" || x.Callee != "strings.Split") {
				bad("the plan is not split into its lines")
			} else if mysql {
				if s, ok := x.Args[1].isConstString(); !ok || s != "\n" {
					bad("the plan is not split into its lines")
				}
			}
		}
		// the node is that of its line
		text := "Lines"
		if mysql {
			text = "Text"
		}
		if x := a.field(a.field(o, inner), text); !(x == el || w.sameAny(x, el)) {
			bad("a node does not hold its line")
		}
		done, left, ok := a.turns(lp)
		if !ok || len(done) == 0 {
			bad("the pass over the lines is not understood")
			continue
		}
		attach := map[*ssa.BasicBlock]int{}
		push := map[*ssa.BasicBlock]int{}
		lift := func(in ssa.Instruction, f *Frame) *ssa.BasicBlock {
			for f != nil && f != lp.Fr {
				in, f = f.Site, f.Parent
			}
			if f == nil || !lp.L.Blocks[in.Block()] {
				return nil
			}
			return in.Block()
		}
		type place struct {
			in ssa.Instruction
			fr *Frame
		}
		seen := map[place]bool{}
		for _, fs := range a.heap {
			for _, rec := range fs["Children"] {
				if seen[place{rec.In, rec.Fr}] || rec.Zero || rec.Val.Op != "call" || rec.Val.Callee != "append" {
					continue
				}
				in := a.seqOf(rec.Val.Args[1])
				if len(in.Items) != 1 || a.val(in.Items[0].Body) != o {
					continue
				}
				if b := lift(rec.In, rec.Fr); b != nil {
					seen[place{rec.In, rec.Fr}] = true
					attach[b]++
					st, _ := rec.In.(*ssa.Store)
					if st != nil && !appendsToOwn(st) {
						bad("a node is not added at the end of its parent's children")
					}
				}
			}
		}
		for _, e := range c.events {
			if n, _, _ := stackCall(e.In.(ssa.Instruction)); n == "Push" {
				if x := e.Args[1]; a.val(x) == o {
					if b := lift(e.In.(ssa.Instruction), e.Fr); b != nil {
						push[b]++
					}
				}
			}
		}
		stacked := len(push) > 0
		for _, t := range done {
			r.count("ways to treat a line of the plan", 1)
			n, p := 0, 0
			for b, k := range attach {
				if t.Seen[b] {
					n += k
				}
			}
			for b, k := range push {
				if t.Seen[b] {
					p += k
				}
			}
			if n == 1 && (p == 1 || !stacked) {
				continue
			}
			blank := false
			for _, f := range t.Facts {
				e, is := w.emptyTest(f.T, func(x *Term) bool {
					if y := a.val(x); y != nil && y.Op == "call" && y.Callee == "strings.TrimSpace" {
						x = y.Args[0]
					}
					return x == el || a.val(x) == el
				})
				if is && e == f.True {
					blank = true
				}
			}
			if n == 0 && p == 0 && blank {
				continue
			}
			if n == 0 {
				bad("a line of the plan may be lost")
			} else if n > 1 {
				bad("a line of the plan may appear twice")
			} else {
				bad("a line of the plan may not become the parent of those below it")
			}
			break
		}
		for _, t := range left {
			if t.Ret == nil || cfgOf(t.Ret.Parent()).retKind(t.Ret) == retOK {
				bad("the rest of the plan may be left out")
				break
			}
		}
		if stacked {
			w.checkNesting(c, r, o, lp, mysql, bad)
		}
		if !mysql {
			w.checkGroups(c, r, lp, bad)
		}
		r.count("passes over plans", 1)
	}
}

// appendsToOwn: x.f = append(x.f, ...).
func appendsToOwn(st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return true
	}
	call, ok := st.Val.(*ssa.Call)
	if !ok {
		return true
	}
	ld, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	src, ok := ld.X.(*ssa.FieldAddr)
	return ok && src.Field == fa.Field && src.X == fa.X
}

// checkNesting: a dataflow over what is known of the top of the stack compared with the indentation of the line.
// bits: 1 the top is indented less (or the stack is lower), 2 equal, 4 more. For indentations 2 and 4 stand for "not less".
func (w *World) checkNesting(c *Command, r *Report, o *Term, lp *LoopCtx, mysql bool, bad func(string, ...any)) {
	fn := lp.Fr.Fn
	// the stack: one value whose methods are called here; anything else done with it is not followed
	var stack ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if n, recv, _ := stackCall(in); n != "" {
				if stack != nil && stack != recv {
					return
				}
				stack = recv
			}
		}
	}
	if stack == nil || stack.Referrers() == nil {
		return
	}
	for _, u := range *stack.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if n, _, _ := stackCall(u); n == "" {
			r.count("nestings not followed", 1)
			return
		}
	}
	isIndent := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		if !ok || e.Index != 0 {
			return false
		}
		call, ok := e.Tuple.(*ssa.Call)
		return ok && call.Call.StaticCallee() != nil && strings.HasPrefix(call.Call.StaticCallee().Name(), "ParseExplainAnalyzeResultLine")
	}
	type rel struct {
		op   token.Token // relation of the top's (or the stack's) measure to the indentation
		call *ssa.Call   // the reading it rests on
	}
	// measure: Top().SpaceSize (+0) or Size()-1
	measure := func(v ssa.Value) (*ssa.Call, int64, bool) {
		off := int64(0)
		for {
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.SUB || bo.Op == token.ADD) {
				if k, ok := bo.Y.(*ssa.Const); ok {
					n := k.Int64()
					if bo.Op == token.SUB {
						n = -n
					}
					off += n
					v = bo.X
					continue
				}
			}
			break
		}
		if n, recv, call := stackCall2(v); n == "Size" && recv == stack {
			return call, off, true
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldNameOf(fa.X.Type(), fa.Field) == "SpaceSize" {
				if n, recv, call := stackCall2(fa.X); n == "Top" && recv == stack {
					return call, off, true
				}
			}
		}
		return nil, 0, false
	}
	compare := func(cond ssa.Value) (rel, bool) {
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			return rel{}, false
		}
		op := bo.Op
		x, y := bo.X, bo.Y
		// put constants of the indentation's side on the other
		strip := func(v ssa.Value) (ssa.Value, int64) {
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				if k, ok := b.Y.(*ssa.Const); ok && isIndent(b.X) {
					if b.Op == token.ADD {
						return b.X, k.Int64()
					}
					return b.X, -k.Int64()
				}
			}
			return v, 0
		}
		yi, d := strip(y)
		if !isIndent(yi) {
			xi, d2 := strip(x)
			if !isIndent(xi) {
				return rel{}, false
			}
			x, yi, d = y, xi, d2
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		call, off, ok := measure(x)
		if !ok {
			return rel{}, false
		}
		want := int64(0)
		if n, _, _ := stackCall(call); n == "Size" {
			want = -1
		}
		off -= d
		// Size() < nest+1 and the like are written with another offset: x+off op i
		switch {
		case off == want:
		case off == want+1 && op == token.LEQ: // Size() <= nest  =>  Size()-1 < nest
			op = token.LSS
		case off == want+1 && op == token.GTR:
			op = token.GEQ
		case off == want-1 && op == token.GEQ:
			op = token.GTR
		case off == want-1 && op == token.LSS:
			op = token.LEQ
		default:
			return rel{}, false
		}
		return rel{op, call}, true
	}
	bitsOf := func(op token.Token) int {
		switch op {
		case token.LSS:
			return 1
		case token.EQL:
			return 2
		case token.GTR:
			return 4
		case token.LEQ:
			return 3
		case token.GEQ:
			return 6
		case token.NEQ:
			return 5
		}
		return 7
	}
	size := false
	for _, b := range fn.Blocks {
		if iff, ok := lastInstr(b).(*ssa.If); ok {
			if rl, ok := compare(stripNot(iff.Cond, true).v); ok {
				if n, _, _ := stackCall(rl.call); n == "Size" {
					size = true
				}
			}
		}
	}
	// state at block entry: bits, and readings still current
	type state struct {
		bits  int
		fresh map[*ssa.Call]bool
		set   bool
	}
	in := map[*ssa.BasicBlock]*state{}
	var problem string
	var at token.Pos
	note := func(s string, p token.Pos) {
		if problem == "" {
			problem, at = s, p
		}
	}
	var attaches []*ssa.Store
	attachOf := map[ssa.Instruction]bool{}
	for _, fs := range w.A.heap {
		for _, rec := range fs["Children"] {
			if st, ok := rec.In.(*ssa.Store); ok && rec.Fr == lp.Fr && lp.L.Blocks[st.Block()] {
				attaches = append(attaches, st)
				attachOf[st] = true
			}
		}
	}
	if len(attaches) == 0 {
		return
	}
	transfer := func(b *ssa.BasicBlock, s state, final bool) state {
		fresh := map[*ssa.Call]bool{}
		for k := range s.fresh {
			fresh[k] = true
		}
		bits := s.bits
		for _, x := range b.Instrs {
			n, _, call := stackCall(x)
			switch n {
			case "Top", "Size":
				fresh[call] = true
			case "Pop":
				if final && lp.L.Blocks[b] && !size && bits&1 != 0 {
					note("a node that is the parent of the line may be taken off", x.Pos())
				}
				fresh = map[*ssa.Call]bool{}
				if size {
					nb := 0
					if bits&1 != 0 {
						nb |= 1
					}
					if bits&2 != 0 {
						nb |= 1
					}
					if bits&4 != 0 {
						nb |= 6
					}
					bits = nb
				} else {
					bits = 7
				}
			case "Push":
				fresh = map[*ssa.Call]bool{}
				bits = 7
			}
			if call2, ok := x.(*ssa.Call); ok && call2.Call.StaticCallee() != nil && strings.HasPrefix(call2.Call.StaticCallee().Name(), "ParseExplainAnalyzeResultLine") {
				bits = 7 // another line
			}
			if final && attachOf[x] {
				fa, ok := x.(*ssa.Store).Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				tn, _, tc := stackCall2(fa.X)
				if tn != "Top" {
					continue
				}
				if !fresh[tc] {
					note("the parent of a line is not the top of the stack any more", x.Pos())
				}
				if size && bits != 2 || !size && bits != 1 {
					note("a line may be put under another than the nearest line indented less", x.Pos())
				}
			}
		}
		return state{bits, fresh, true}
	}
	join := func(b *ssa.BasicBlock, s state) bool {
		o := in[b]
		if o == nil {
			n := s
			n.fresh = map[*ssa.Call]bool{}
			for k := range s.fresh {
				n.fresh[k] = true
			}
			in[b] = &n
			return true
		}
		ch := false
		if o.bits|s.bits != o.bits {
			o.bits |= s.bits
			ch = true
		}
		for k := range o.fresh {
			if !s.fresh[k] {
				delete(o.fresh, k)
				ch = true
			}
		}
		return ch
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	join(fn.Blocks[0], state{bits: 7})
	for steps := 0; len(work) > 0 && steps < 10000; steps++ {
		b := work[0]
		work = work[1:]
		out := transfer(b, *in[b], false)
		for k, s := range b.Succs {
			e := out
			if iff, ok := lastInstr(b).(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				sn := stripNot(iff.Cond, k == 0)
				if rl, ok := compare(sn.v); ok && out.fresh[rl.call] {
					m := bitsOf(rl.op)
					if !sn.t {
						m = 7 &^ m
					}
					e.bits &= m
					if e.bits == 0 {
						continue // cannot happen
					}
				}
			}
			if join(s, e) {
				work = append(work, s)
			}
		}
	}
	for _, b := range fn.Blocks {
		if in[b] != nil {
			transfer(b, *in[b], true)
		}
	}
	r.count("nestings decided", 1)
	if problem != "" {
		r.failAt(w.P.pos(at), c.Path, "%s", problem)
	}
	// the indentation is that of the (first) line
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			v, ok := x.(ssa.Value)
			if !ok || !isIndent(v) {
				continue
			}
			for _, t := range w.A.values(lp.Fr.eval(v)) {
				if t.Op == "const" {
					continue // with an error
				}
				if t.Op == "binop" && t.S == "/" {
					if k, ok := w.A.val(t.Args[1]).isConstInt(); ok && mysql && k != 4 {
						bad("MySQL indents a plan by 4, not %d", k)
					}
					t = w.A.val(t.Args[0])
				}
				if t.Op != "call" || t.Callee != "len" {
					continue
				}
				t = w.A.val(t.Args[0])
				if t.Op != "call" || t.Callee != "(*regexp.Regexp).FindString" {
					continue
				}
				if l := w.A.val(t.Args[1]); l.Op == "index" {
					if k, ok := w.A.val(l.Args[1]).isConstInt(); !ok || k != 0 {
						bad("the indentation of a node is not that of its first line")
					}
				}
			}
		}
	}
	// the indentation kept for later lines is the line's
	if !mysql {
		sp := w.A.val(w.A.field(o, "SpaceSize"))
		if sp == nil || sp.Op == "const" {
			bad("a node does not keep its indentation")
		}
	}
}

func stackCall2(v ssa.Value) (string, ssa.Value, *ssa.Call) {
	if c, ok := v.(*ssa.Call); ok {
		return stackCall(c)
	}
	return "", nil, nil
}

// checkGroups: lines gathered into nodes are neither lost nor repeated.
func (w *World) checkGroups(c *Command, r *Report, lp *LoopCtx, bad func(string, ...any)) {
	a := w.A
	// the frame that made the list of groups
	var fr *Frame
	var retv ssa.Value
	t := lp.Coll
	idx := 0
	if t.Op == "res" {
		idx = t.Idx
		t = t.Args[0]
	}
	if t.Op == "call" && len(t.Inls) == 1 && len(t.Inls[0].rets) == 1 {
		fr = t.Inls[0]
		retv = fr.rets[0].Results[idx]
	} else if lp.L != nil && lp.L.Coll != nil {
		fr, retv = lp.Fr, lp.L.Coll
	}
	if fr == nil {
		r.count("groupings not followed", 1)
		return
	}
	for _, l := range cfgOf(fr.Fn).loops {
		lc := fr.loopCtx(l)
		if lc.Coll == nil || l.Kind != "slice" || lc == lp {
			continue
		}
		var buf, res *ssa.Phi
		for _, in := range l.Header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			switch types.TypeString(ph.Type().Underlying(), nil) {
			case "[]string":
				buf = ph
			case "[][]string":
				res = ph
			}
		}
		if buf == nil || res == nil {
			continue
		}
		r.count("groupings decided", 1)
		line := a.mk("elem", "", 0, lc, lc.Coll)
		app := func(v ssa.Value) *ssa.CallCommon {
			x, ok := v.(*ssa.Call)
			if !ok {
				return nil
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return &x.Call
			}
			return nil
		}
		// helped: another function made the value
		helped := func(v ssa.Value) bool {
			switch v.(type) {
			case *ssa.Call, *ssa.Extract:
				return app(v) == nil
			}
			return false
		}
		emptyBuf := func(fs []Fact) bool {
			for _, f := range fs {
				if e, is := w.emptyTest(f.T, func(x *Term) bool { return x == fr.eval(buf) }); is && e == f.True {
					return true
				}
				if f.T.Op == "binop" && f.T.Args[0] == fr.eval(buf) && f.T.Args[1].Op == "nil" && (f.T.S == "==") == f.True {
					return true
				}
			}
			return false
		}
		done, left, ok := a.turns(lc)
		if !ok {
			return
		}
		for _, o := range done {
			r.count("ways to treat a line of the plan", 1)
			b2, r2 := o.Env[buf], o.Env[res]
			foreign := false
			chosen := func(v ssa.Value) ssa.Value {
				for k := 0; k < 10; k++ {
					q, ok := v.(*ssa.Phi)
					if !ok || q == buf || q == res || o.Env[q] == nil || o.Env[q] == v {
						break
					}
					v = o.Env[q]
				}
				return v
			}
			// lines: the lines a value holds, as "buf" (what was gathered
			// before this turn) and "line" (the line of this turn)
			var lines func(v ssa.Value, d int) ([]string, bool)
			lines = func(v ssa.Value, d int) ([]string, bool) {
				v = chosen(v)
				if d > 8 || v == nil {
					return nil, false
				}
				if v == ssa.Value(buf) {
					return []string{"buf"}, true
				}
				if k, is := v.(*ssa.Const); is && k.Value == nil {
					return nil, true
				}
				if x := app(v); x != nil {
					l1, ok1 := lines(x.Args[0], d+1)
					l2, ok2 := lines(x.Args[1], d+1)
					return append(append([]string{}, l1...), l2...), ok1 && ok2
				}
				if els, ok := a.literalVals(fr, v); ok {
					var out []string
					for _, e := range els {
						if a.val(fr.eval(e)) != line {
							return nil, false
						}
						out = append(out, "line")
					}
					return out, true
				}
				foreign = foreign || helped(v)
				return nil, false
			}
			var nodes func(v ssa.Value, d int) ([]string, bool)
			nodes = func(v ssa.Value, d int) ([]string, bool) {
				v = chosen(v)
				if d > 8 {
					return nil, false
				}
				if v == nil || v == ssa.Value(res) {
					return nil, true
				}
				x := app(v)
				if x == nil {
					foreign = foreign || helped(v)
					return nil, false
				}
				l1, ok1 := nodes(x.Args[0], d+1)
				els, ok2 := a.literalVals(fr, x.Args[1])
				if !ok1 || !ok2 {
					return nil, false
				}
				out := append([]string{}, l1...)
				for _, e := range els {
					l, ok := lines(e, 0)
					if !ok {
						return nil, false
					}
					out = append(out, l...)
				}
				return out, true
			}
			l1, ok1 := nodes(r2, 0)
			l2, ok2 := []string{"buf"}, true
			if b2 != nil {
				l2, ok2 = lines(b2, 0)
			}
			if foreign {
				r.count("groupings not followed", 1)
				return
			}
			if !ok1 {
				bad("nodes gathered so far may be lost")
				return
			}
			if !ok2 {
				bad("lines gathered so far may be lost")
				return
			}
			got := strings.Join(append(append([]string{}, l1...), l2...), " ")
			if got == "buf line" || got == "line" && emptyBuf(o.Facts) {
				continue
			}
			switch {
			case !strings.Contains(got, "line"):
				bad("a line of the plan may be lost")
			case !strings.Contains(got, "buf"):
				bad("lines gathered so far may be lost")
			case strings.Count(got, "buf") > 1 || strings.Count(got, "line") > 1:
				bad("a line of the plan may appear in two nodes")
			default:
				bad("lines of the plan change their order")
			}
			return
		}
		// the end of the plan is recognised by its text only
		for _, o := range left {
			hit := false
			for _, f := range o.Facts {
				if f.True && f.T.Op == "call" && strings.HasPrefix(f.T.Callee, "(*regexp.Regexp).Match") && len(f.T.Args) > 1 && a.val(f.T.Args[1]) == line {
					hit = true
				}
			}
			if !hit {
				bad("the rest of the plan may be left out")
				return
			}
		}
		// at the end
		var same func(v ssa.Value, p *ssa.Phi, d int) bool
		same = func(v ssa.Value, p *ssa.Phi, d int) bool {
			if v == ssa.Value(p) {
				return true
			}
			q, ok := v.(*ssa.Phi)
			if !ok || d > 5 || l.Blocks[q.Block()] {
				return false
			}
			for _, e := range q.Edges {
				if !same(e, p, d+1) {
					return false
				}
			}
			return true
		}
		var final func(v ssa.Value, from, to *ssa.BasicBlock, d int) bool
		final = func(v ssa.Value, from, to *ssa.BasicBlock, d int) bool {
			if x := app(v); x != nil && same(x.Args[0], res, 0) {
				els, ok := a.literalVals(fr, x.Args[1])
				return ok && len(els) == 1 && same(els[0], buf, 0)
			}
			if same(v, res, 0) {
				if from == nil {
					return false
				}
				for _, f := range a.edgeFacts(edge{fr.eval(v), fr, from, to}, fr) {
					e, is := w.emptyTest(f.T, func(x *Term) bool {
						return x == fr.eval(buf) || x.Op == "phi" && same(x.Val, buf, 0)
					})
					if is && e == f.True {
						return true
					}
				}
				return false
			}
			if helped(v) {
				return true
			}
			q, ok := v.(*ssa.Phi)
			if !ok || d > 5 {
				return false
			}
			for i, e := range q.Edges {
				if !final(e, q.Block().Preds[i], q.Block(), d+1) {
					return false
				}
			}
			return true
		}
		if !final(retv, nil, nil, 0) {
			bad("the last lines gathered may be lost")
		}
		return
	}
	r.count("groupings not followed", 1)
}

// bufAt: [][]string{x} where x is buf on this path.

func (a *Analysis) literalVals(fr *Frame, v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil, false
	}
	var res []ssa.Value
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				res = append(res, st.Val)
			}
		}
	}
	return res, true
}

// checkSummary: the summary is the lines from the one that ends the plan.
func (w *World) checkSummary(c *Command, r *Report, t *Term) {
	a := w.A
	if t == nil {
		r.missing("member summaryText of the report of %q", c.Path)
		return
	}
	n := 0
	for _, x := range a.values(t) {
		if s, ok := x.isConstString(); ok && s == "" {
			continue
		}
		n++
		bad := func(f string, args ...any) { r.failAt(posOfTerm(w, x), c.Path, f, args...) }
		if x.Op != "call" || x.Callee != "strings.Join" {
			bad("the summary is not the text after the plan")
			continue
		}
		if s, ok := x.Args[1].isConstString(); !ok || s != "\n" {
			bad("the lines of the summary are not kept")
		}
		sl := a.val(x.Args[0])
		if sl == nil || sl.Op != "slice" || sl.Args[2].Op != "none" {
			bad("the summary is not all of the text after the plan")
			continue
		}
		for _, lo := range a.values(sl.Args[1]) {
			if k, ok := lo.isConstInt(); ok && k <= 0 {
				continue
			}
			if lo.Op != "rangeidx" {
				bad("the summary does not begin where the plan ends")
			}
		}
	}
	if n == 0 {
		r.failAt(posOfTerm(w, t), c.Path, "the summary of the plan is never reported")
	}
}
