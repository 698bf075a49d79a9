package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P18", "Jaeger is asked for exactly the traces the user wants, and every answer is kept", checkP18)
}

const jaegerCmd = "app dig jaeger"
const milli = int64(1000000)
const day = int64(24) * 3600 * 1000 * milli

// unixOf: the term is the Unix time (in seconds) of the moment, or the protobuf timestamp of one.
func (w *World) protoTime(t *Term) (at *Term, why string) {
	a := w.A
	x := a.val(t)
	if x == nil {
		return nil, "the time is not understood"
	}
	if x.Op == "res" {
		x = x.Args[0]
	}
	if x.Op == "call" && strings.HasSuffix(x.Callee, "/types.TimestampProto") {
		return x.Args[0], ""
	}
	if x.Op != "obj" {
		return nil, "the time is not understood"
	}
	s := a.peel(a.field(x, "Seconds"))
	if s.Op != "call" || s.Callee != "(time.Time).Unix" {
		return nil, "the time is not given in seconds since 1970"
	}
	if n := a.peel(a.field(x, "Nanos")); n.Op != "zero" {
		if k, ok := n.isConstInt(); ok && k == 0 {
		} else if n.Op == "call" && n.Callee == "(time.Time).Nanosecond" && a.instant(n.Args[0]).same(a, a.instant(s.Args[0])) {
		} else {
			return nil, "the nanoseconds are those of another moment"
		}
	}
	return s.Args[0], ""
}

// protoLen: the term is the protobuf duration of a length.
func (w *World) protoLen(t *Term) (*Term, string) {
	a := w.A
	x := a.val(t)
	if x == nil {
		return nil, "the duration is not understood"
	}
	if x.Op == "call" && strings.HasSuffix(x.Callee, "/types.DurationProto") {
		return x.Args[0], ""
	}
	if x.Op != "obj" {
		return nil, "the duration is not understood"
	}
	sec := a.peel(a.field(x, "Seconds"))
	nan := a.peel(a.field(x, "Nanos"))
	isSec := func(k *Term) bool { n, ok := a.peel(k).isConstInt(); return ok && n == 1000*milli }
	var d *Term
	switch {
	case sec.Op == "binop" && sec.S == "/" && isSec(sec.Args[1]):
		d = a.peel(sec.Args[0])
	case sec.Op == "call" && sec.Callee == "(time.Duration).Seconds":
		d = a.peel(sec.Args[0])
		if d.Op == "call" && d.Callee == "(time.Duration).Truncate" && isSec(d.Args[1]) {
			d = a.peel(d.Args[0])
		}
	default:
		return nil, "the seconds of the duration are not understood"
	}
	strip := func(t *Term) *Term {
		t = a.peel(t)
		if t.Op == "call" && t.Callee == "(time.Duration).Nanoseconds" {
			t = a.peel(t.Args[0])
		}
		return t
	}
	d = strip(d)
	same := func(x, y *Term) bool { return x == y || a.length(x).same(a, a.length(y)) }
	switch {
	case nan.Op == "binop" && nan.S == "%" && isSec(nan.Args[1]) && same(strip(nan.Args[0]), d):
	case nan.Op == "binop" && nan.S == "-" && same(strip(nan.Args[0]), d):
		y := a.peel(nan.Args[1])
		ok := false
		if y.Op == "binop" && y.S == "*" {
			ok = isSec(y.Args[1]) && a.peel(y.Args[0]) == sec || isSec(y.Args[0]) && a.peel(y.Args[1]) == sec
		}
		if y.Op == "call" && y.Callee == "(time.Duration).Truncate" && isSec(y.Args[1]) && same(strip(y.Args[0]), d) {
			ok = true
		}
		if !ok {
			return nil, "the rest of the duration below a second is wrong"
		}
	default:
		return nil, "the rest of the duration below a second is lost"
	}
	return d, ""
}

func checkP18(w *World, r *Report) {
	a := w.A
	c := w.Cmds[jaegerCmd]
	if c == nil {
		r.missing("command %q", jaegerCmd)
		return
	}
	// the connection
	dials := 0
	for _, e := range c.events {
		if !strings.HasPrefix(e.Callee, "google.golang.org/grpc.") || len(e.Args) < 1 {
			continue
		}
		at := -1
		switch e.Callee {
		case "google.golang.org/grpc.DialContext":
			at = 1
		case "google.golang.org/grpc.Dial", "google.golang.org/grpc.NewClient":
			at = 0
		}
		if at < 0 {
			continue
		}
		dials++
		r.count("connections", 1)
		if !w.envIs(e.Args[at], "JAEGER_GRPC_ADDRESS") {
			r.failAt(w.P.pos(e.In.Pos()), c.Path, "the server is not the one of JAEGER_GRPC_ADDRESS")
		}
		fs := a.factsOnPath(e.Fr, e.In.Block(), c.Run)
		for _, env := range []string{"JAEGER_GRPC_ADDRESS", "JAEGER_UI_URL"} {
			if _, set := w.envKnown(fs, env); !set {
				r.failAt(w.P.pos(e.In.Pos()), c.Path, "the command goes on although %s may be missing", env)
			}
		}
	}
	if dials == 0 {
		r.missing("the connection to Jaeger")
	}
	// the requests
	n := 0
	for _, e := range c.events {
		if !strings.HasSuffix(e.Callee, "api_v3.QueryServiceClient).FindTraces") && !strings.HasSuffix(e.Callee, "api_v3.QueryServiceClient.FindTraces") {
			continue
		}
		n++
		w.checkFindTraces(c, r, e)
	}
	if n == 0 {
		r.missing("requests to Jaeger for traces")
	}
}

func (w *World) checkFindTraces(c *Command, r *Report, e *Event) {
	a := w.A
	bad := func(f string, args ...any) { r.failAt(w.P.pos(e.In.Pos()), c.Path, f, args...) }
	r.count("requests for traces", 1)
	var req *Term
	for _, x := range e.Args {
		if namedOf(deptr(x.T)) == "github.com/jaegertracing/jaeger/proto-gen/api_v3.FindTracesRequest" {
			req = x
		}
	}
	if req == nil {
		bad("the request is not understood")
		return
	}
	q := a.val(a.field(req, "Query"))
	if q == nil || q.Op != "obj" {
		bad("the request has no query")
		return
	}
	if f := c.flag("service-name"); f == nil {
		r.missing("flag --service-name")
	} else if !w.isFlag(a.peel(a.field(q, "ServiceName")), f) {
		bad("the traces are not those of --service-name")
	}
	if f := c.flag("count"); f == nil {
		r.missing("flag --count")
	} else if !w.isFlag(a.peel(a.field(q, "NumTraces")), f) {
		bad("the number of traces is not --count")
	}
	if f := c.flag("min-duration-millisecond"); f == nil {
		r.missing("flag --min-duration-millisecond")
	} else if d, why := w.protoLen(a.field(q, "DurationMin")); why != "" {
		bad("minimum duration: %s", why)
	} else {
		l := a.length(d)
		ok := l.off == 0 && len(l.syms) == 1
		for s, k := range l.syms {
			ok = ok && k == milli && w.isFlag(s, f)
		}
		if !ok {
			bad("the minimum duration is not --min-duration-millisecond milliseconds")
		}
	}
	for _, m := range []string{"OperationName", "Attributes", "DurationMax"} {
		if v := a.field(q, m); len(a.values(v)) > 0 {
			if s, ok := v.isConstString(); !ok || s != "" {
				bad("the request leaves out traces by %s", m)
			}
		}
	}
	// the windows
	min, why := w.protoTime(a.field(q, "StartTimeMin"))
	if why != "" {
		bad("start of the window: %s", why)
		return
	}
	max, why := w.protoTime(a.field(q, "StartTimeMax"))
	if why != "" {
		bad("end of the window: %s", why)
		return
	}
	g, off, why := w.series(min)
	if why != "" {
		bad("%s", why)
		return
	}
	if off != 0 {
		bad("the first window does not begin at the start")
	}
	im, ix := a.instant(min), a.instant(max)
	if ix.base != im.base || !im.plain() || !ix.plain() || ix.off-im.off != g.step {
		// cut at the end
		if !(g.end != nil && w.cutAt(max, im, g)) {
			bad("a window does not end where the next one starts")
		}
	}
	r.count("series of windows", 1)
	w.checkPeriod(c, r, g, day, true, bad)
	w.checkKept(c, r, e, g, bad)
}

// cutAt: the end of the window is the next start, or the end of the period where that is earlier.
func (w *World) cutAt(max *Term, min inst, g *winGen) bool {
	a := w.A
	end := a.instant(g.end)
	n := 0
	for _, ed := range a.edges(max) {
		i := a.instant(ed.T)
		if i.base == min.base && i.plain() && i.off-min.off == g.step {
			n++
			continue
		}
		if i.same(a, end) {
			for _, f := range a.edgeFacts(ed, nil) {
				if f.T.Op == "call" && f.True && (f.T.Callee == "(time.Time).After" || f.T.Callee == "(time.Time).Before") {
					n++
					break
				}
			}
			continue
		}
		return false
	}
	return n > 1
}

// checkPeriod: the series starts at --start-from (or `span` before now) and goes on for `span` (or until now).
func (w *World) checkPeriod(c *Command, r *Report, g *winGen, span int64, untilNow bool, bad func(string, ...any)) {
	a := w.A
	fl := c.flag("start-from")
	if fl == nil {
		r.missing("flag --start-from")
		return
	}
	if g.start.off != 0 || !g.start.plain() {
		// a default shifted: start = now - span
		if !(w.isNow(g.start.base) && g.start.off == -span) {
			bad("the first window does not begin at the start")
			return
		}
	}
	// the start
	given, def := 0, 0
	starts := a.edges(g.start.base)
	for _, e := range starts {
		if e.T.Op == "zero" || e.T.Op == "nil" {
			continue
		}
		i := a.instant(e.T)
		b := i.base
		if b != nil && b.Op == "res" {
			b = b.Args[0]
		}
		if b != nil && b.Op == "call" && (b.Callee == "time.Parse" || b.Callee == "time.ParseInLocation") && i.off == 0 && i.plain() {
			if s, ok := b.Args[0].isConstString(); !ok || s != "2006-01-02T15:04:05Z07:00" && s != "2006-01-02T15:04:05.999999999Z07:00" {
				bad("--start-from is not read as RFC3339")
			}
			if !w.isFlag(a.peel(b.Args[1]), fl) {
				bad("the start is not the one of --start-from")
			}
			given++
			continue
		}
		if w.isNow(b) && i.plain() {
			if i.off != -span {
				bad("by default the period does not start %d hours ago", span/(3600*1000*milli))
			}
			empty := false
			for _, f := range a.edgeFacts(e, c.Run) {
				if em, ok := w.emptyTest(f.T, func(t *Term) bool { return w.isFlag(t, fl) }); ok && em == f.True {
					empty = true
				}
			}
			if !empty && !w.overwritten(e, fl, starts) {
				bad("--start-from may be ignored")
			}
			def++
			continue
		}
		bad("the start is neither --start-from nor the default: %s", trim(e.T.String()))
	}
	if given == 0 {
		bad("--start-from is ignored")
	}
	r.count("starts traced", given+def)
	// the end
	if g.count >= 0 {
		if g.count*g.step < span {
			bad("the windows cover %d hours instead of %d", g.count*g.step/(3600*1000*milli), span/(3600*1000*milli))
		} else if g.count*g.step > span && !untilNow {
			bad("the windows cover more than the period")
		}
		return
	}
	whole, now := 0, 0
	for _, e := range a.edges(g.end) {
		if e.T.Op == "zero" || e.T.Op == "nil" {
			continue
		}
		i := a.instant(e.T)
		switch {
		case i.off == g.start.off+span && i.plain() && (i.base == g.start.base || sameSet(a.values(i.base), a.values(g.start.base))):
			whole++
		case untilNow && w.isNow(i.base) && i.off == 0 && i.plain():
			later := false
			for _, f := range a.edgeFacts(e, c.Run) {
				if f.T.Op != "call" || len(f.T.Args) != 2 {
					continue
				}
				x, y := a.instant(f.T.Args[0]), a.instant(f.T.Args[1])
				if f.T.Callee == "(time.Time).After" && f.True && w.isNow(y.base) || f.T.Callee == "(time.Time).Before" && f.True && w.isNow(x.base) {
					later = true
				}
			}
			if !later {
				bad("the period may end before now and before its %d hours are over", span/(3600*1000*milli))
			}
			now++
		default:
			bad("the period does not end %d hours after its start", span/(3600*1000*milli))
			return
		}
	}
	if whole == 0 {
		bad("the period does not end %d hours after its start", span/(3600*1000*milli))
	}
}

func (w *World) isNow(t *Term) bool {
	if t == nil {
		return false
	}
	t = w.A.peel(t)
	return t.Op == "call" && t.Callee == "time.Now"
}

// overwritten: whenever the flag is given, another of the writes follows the one of e in its function.
func (w *World) overwritten(e edge, fl *Flag, all []edge) bool {
	if e.Fr == nil || e.B == nil || e.To != nil {
		return false
	}
	stop := map[*ssa.BasicBlock]bool{}
	for _, o := range all {
		if o.Fr == e.Fr && o.B != nil && o.B != e.B && o.To == nil {
			stop[o.B] = true
		}
	}
	ci := cfgOf(e.Fr.Fn)
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{e.B}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || stop[x] || ci.errOnly[x] {
			continue
		}
		seen[x] = true
		if ret, ok := lastInstr(x).(*ssa.Return); ok {
			if ci.retKind(ret) != retErr && x != e.Fr.Fn.Recover {
				return false
			}
			continue
		}
		if iff, ok := lastInstr(x).(*ssa.If); ok {
			sn := stripNot(iff.Cond, true)
			if empty, ok := w.emptyTest(e.Fr.eval(sn.v), func(t *Term) bool { return w.isFlag(t, fl) }); ok {
				k := 0 // successor taken when given
				if empty == sn.t {
					k = 1
				}
				st = append(st, x.Succs[k])
				continue
			}
		}
		st = append(st, x.Succs...)
	}
	return true
}

// checkKept: every trace of every answer reaches what the command goes on with.
func (w *World) checkKept(c *Command, r *Report, e *Event, g *winGen, bad func(string, ...any)) {
	a := w.A
	stream := e.Call
	// the pass over the answers
	var recv *Event
	for _, x := range c.events {
		if strings.HasSuffix(x.Callee, "FindTracesClient).Recv") || strings.HasSuffix(x.Callee, "FindTracesClient.Recv") {
			if len(x.Args) > 0 && w.sameRes(x.Args[0], stream) {
				recv = x
			}
		}
	}
	if recv == nil {
		bad("the answers are never received")
		return
	}
	call, ok := recv.In.(*ssa.Call)
	if !ok {
		bad("the answers are not used")
		return
	}
	var loop *LoopCtx
	for _, l := range cfgOf(recv.Fr.Fn).loops {
		if l.Blocks[call.Block()] && (loop == nil || loop.L.Blocks[l.Header] && l != loop.L) {
			loop = recv.Fr.loopCtx(l)
		}
	}
	if loop == nil {
		bad("only one answer is received")
		return
	}
	// the pass ends with the stream's end only
	r.count("streams read", 1)
	for b := range loop.L.Blocks {
		if ret, ok := lastInstr(b).(*ssa.Return); ok && cfgOf(recv.Fr.Fn).retKind(ret) != retErr {
			bad("the answers may be left before the stream's end")
			return
		}
		for _, s := range b.Succs {
			if !loop.L.Blocks[s] && !w.onlyAfterEOF(recv.Fr, b, s, recv.Call, 0) {
				bad("the answers may be left before the stream's end")
				return
			}
		}
	}
	// what is kept
	roots := w.reportRoots(c)
	if len(roots) != 1 {
		r.missing("the report of %q", c.Path)
		return
	}
	t := a.jsonAt(roots[0], "digData.jaeger.sameServiceTraces")
	if t == nil {
		r.missing("member sameServiceTraces of the report")
		return
	}
	k := &keptAll{w: w, c: c, g: g, recv: loop, allow: c.flag("same-service-threshold"), seen: map[*Term]bool{}}
	k.walk(t, 0)
	for _, e := range c.events {
		if strings.Contains(e.Callee, "lib.LimitedHeap[") && strings.HasSuffix(e.Callee, ").Push") {
			ch := a.execChain(e.In, e.Fr, e.Fr, e.Fr.Fn.Blocks[0])
			k.item(&SeqItem{Loops: ch.Loops, Conds: ch.Conds, At: e.In, Fr: e.Fr}, 0)
			r.count("passes over the traces", 1)
		}
	}
	if k.why != "" {
		bad("%s", k.why)
	}
	if !k.sawRecv {
		bad("the traces received do not reach the report")
	} else if !k.sawWin {
		bad("only the traces of one window reach the report")
	}
	r.count("collections followed", k.n)
}

// keptAll follows collections back to the answers.
type keptAll struct {
	w               *World
	c               *Command
	g               *winGen
	recv            *LoopCtx
	allow           *Flag
	seen            map[*Term]bool
	why             string
	sawRecv, sawWin bool
	n               int
}

// walk: whether elements of coll come from the answers; notes those that may be left out.
func (k *keptAll) walk(coll *Term, d int) bool {
	if got, ok := k.seen[coll]; ok || d > 12 {
		return got
	}
	k.seen[coll] = false
	k.n++
	any := false
	for _, it := range k.w.A.seqOf(coll).Items {
		if k.item(it, d) {
			any = true
		}
	}
	k.seen[coll] = any
	return any
}

func (k *keptAll) item(it *SeqItem, d int) bool {
	any := false
	for _, l := range it.Loops {
		if l == k.recv {
			k.sawRecv, any = true, true
			continue
		}
		for _, g := range k.g.loops {
			if l == g {
				k.sawWin, any = true, true
			}
		}
		if l.Coll != nil && k.walk(l.Coll, d+1) {
			any = true
		}
	}
	if it.Splat && k.walk(it.Body, d+1) {
		any = true
	}
	if !any {
		return false
	}
	for _, l := range it.Loops {
		if l.Part {
			k.why = "some of the traces received may be left out (a pass may end early)"
		}
	}
	if it.Part {
		k.why = "some of the traces received may be left out (a pass may end early)"
	}
	if it.Uniq {
		k.why = "some of the traces received may be left out"
	}
	for _, cd := range it.Conds {
		ok := false
		for _, f := range k.w.A.condFacts([]Cond{cd}) {
			if absent(f) {
				ok = true
			}
			k.w.A.reach(f.T, func(y *Term) bool {
				if k.allow != nil && k.w.isFlag(y, k.allow) {
					ok = true
				}
				return !ok
			})
		}
		if !ok {
			k.why = "some of the traces received may be left out"
		}
	}
	return true
}

// onlyAfterEOF: leaving the loop by this edge means an error, or that the stream has ended.
func (w *World) onlyAfterEOF(fr *Frame, b, s *ssa.BasicBlock, call *Term, d int) bool {
	ci := cfgOf(fr.Fn)
	if ci.errOnly[s] {
		return true
	}
	iff, ok := lastInstr(b).(*ssa.If)
	if ok && b.Succs[0] != b.Succs[1] {
		c := &factCtx{a: w.A}
		for _, f := range c.lit(fr.eval(iff.Cond), b.Succs[0] == s) {
			if w.isEOF(f, call) {
				return true
			}
		}
	}
	if d > 6 || len(s.Preds) != 1 || len(s.Succs) == 0 {
		return false
	}
	for _, n := range s.Succs {
		if !w.onlyAfterEOF(fr, s, n, call, d+1) {
			return false
		}
	}
	return true
}

// isEOF: the fact says that the call failed with io.EOF.
func (w *World) isEOF(f Fact, call *Term) bool {
	a := w.A
	isErr := func(t *Term) bool {
		for _, x := range a.resolve(a.peel(t)) {
			if x.Op == "phi" {
				continue // made of the others
			}
			if x.Op != "res" || x.Idx != 1 || x.Args[0] != call && !a.sameVal(x.Args[0], call) && !sameReceipt(x.Args[0], call) {
				return false
			}
		}
		return true
	}
	eof := func(t *Term) bool { return strings.Contains(t.String(), "io.EOF") }
	t := f.T
	if t.Op == "call" && f.True && (strings.HasSuffix(t.Callee, "errors.Is")) && len(t.Args) == 2 {
		return isErr(t.Args[0]) && eof(t.Args[1])
	}
	if t.Op == "binop" && (t.S == "==") == f.True {
		return isErr(t.Args[0]) && eof(t.Args[1]) || isErr(t.Args[1]) && eof(t.Args[0])
	}
	return false
}

// absent: only what is not there at all is left out.
func absent(f Fact) bool {
	t := f.T
	if t.Op != "binop" {
		return false
	}
	x, y, op := t.Args[0], t.Args[1], t.S
	if x.Op == "nil" {
		x, y = y, x
	}
	if !f.True {
		op = negOpS(op)
	}
	return y.Op == "nil" && op == "!=" && x.T != nil && !isErrorSlotT(x)
}

// sameReceipt: both receive from the same stream.
func sameReceipt(x, y *Term) bool {
	return x.Op == "call" && y.Op == "call" && x.Callee == y.Callee && len(x.Args) > 0 && len(y.Args) > 0 && x.Args[0] == y.Args[0]
}
