package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P10", "Every template the commands execute must be an html/template parsed from constant text. Every conversion to one of html/template's trusted types, anywhere in the program, must have only the embedded client files, constants or the output of json.Marshal as sources; the embedded file system is set from a go:embed variable only; and nothing else than escaped template output, constants or embedded files is written to the report file.", checkP10)
	register("P11", "Every call that creates, opens for writing, renames, or removes files in the commands is listed; the only one allowed creates (truncating) exactly the path of --output. No interaction with a database, Hasura, Jaeger or AWS may be reachable after it in control flow, every successful path of a run with a non-empty --output passes the creation and the rendering, the rendering goes to that file, and its failures (creation, rendering, closing) reach the result.", checkP11)
}

var trustedTypes = map[string]bool{"CSS": true, "HTML": true, "HTMLAttr": true, "JS": true, "JSStr": true, "URL": true, "Srcset": true}

func isTrusted(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "html/template" && trustedTypes[n.Obj().Name()]
}

// reportCmds: commands that render a report.
func (w *World) reportCmds() []*Command {
	var res []*Command
	for _, c := range w.Order {
		if c.flag("output") != nil {
			res = append(res, c)
		}
	}
	return res
}

// clientFile: the value is the content of a file of the embedded client.
func (w *World) clientFile(t *Term) bool {
	a := w.A
	switch t.Op {
	case "res":
		if t.Idx != 0 {
			return false
		}
		c := t.Args[0]
		if c.Op != "call" {
			return false
		}
		switch c.Callee {
		case "io/fs.ReadFile":
			return w.clientFS(c.Args[0])
		case "(embed.FS).ReadFile", "(*embed.FS).ReadFile", "(io/fs.ReadFileFS).ReadFile":
			return w.clientFS(c.Args[0])
		case "io.ReadAll":
			for _, f := range a.resolve(c.Args[0]) {
				if f.Op != "res" || f.Args[0].Op != "call" || !strings.HasSuffix(f.Args[0].Callee, ".Open") || !w.clientFS(f.Args[0].Args[0]) {
					return false
				}
			}
			return true
		}
	case "conv":
		for _, x := range a.resolve(t.Args[0]) {
			if !w.clientFile(x) {
				return false
			}
		}
		return true
	}
	return false
}

func (w *World) clientFS(t *Term) bool {
	rs := w.A.resolve(t)
	for _, x := range rs {
		s := x.String()
		if !strings.Contains(s, modPath+"/injection.ClientDist") && !strings.Contains(s, "embed.FS") && !(x.T != nil && strings.HasSuffix(x.T.String(), "embed.FS")) {
			return false
		}
	}
	return len(rs) > 0
}

// trusted: the value may be inserted as is.
func (w *World) trustedSource(t *Term) (bool, string) {
	for _, x := range w.A.norm(t) {
		if x.Op == "const" || x.Op == "nil" || x.Op == "zero" {
			continue
		}
		if w.clientFile(x) {
			continue
		}
		if x.Op == "res" && x.Idx == 0 && x.Args[0].Op == "call" && (x.Args[0].Callee == "encoding/json.Marshal" || x.Args[0].Callee == "encoding/json.MarshalIndent") {
			continue
		}
		if v, esc := w.A.encodedText(x); v != nil && esc {
			continue
		}
		if x.Op == "conv" || x.Op == "binop" && x.S == "+" {
			ok := true
			why := ""
			for _, y := range x.Args {
				if o, wy := w.trustedSource(y); !o {
					ok, why = false, wy
				}
			}
			if ok {
				continue
			}
			return false, why
		}
		return false, trim(x.String())
	}
	return true, ""
}

func checkP10(w *World, r *Report) {
	a := w.A
	cmds := w.reportCmds()
	if len(cmds) == 0 {
		r.missing("commands with --output")
	}
	for _, c := range cmds {
		rs := w.renderings(c)
		if len(rs) == 0 {
			r.missing("the template of the report of %q", c.Path)
		}
		for _, x := range rs {
			r.count("renderings", 1)
			if x.Pkg != "html/template" {
				r.failAt(w.P.pos(x.Ev.In.Pos()), x.Ev.Fr.String(), "the report is rendered without escaping (%s)", x.Pkg)
			}
			n := 0
			a.reach(x.Ev.Args[0], func(t *Term) bool {
				if t.Op == "call" && strings.HasPrefix(t.Callee, "(*"+x.Pkg+".Template).Parse") || t.Op == "call" && strings.HasPrefix(t.Callee, x.Pkg+".Parse") {
					n++
					for _, tm := range a.tmpls(t.Args[len(t.Args)-1]) {
						for _, h := range tm.holes() {
							if ok, why := w.trustedSource(h); !ok {
								r.failAt(w.P.pos(x.Ev.In.Pos()), x.Ev.Fr.String(), "data is made part of the template's text: %s", why)
							}
						}
					}
				}
				return true
			})
			if n == 0 {
				r.failAt(w.P.pos(x.Ev.In.Pos()), x.Ev.Fr.String(), "cannot find the text of the template")
			}
		}
		w.checkWrites(c, r)
	}
	// trusted types anywhere in the program
	for _, fn := range w.appFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var op ssa.Value
				switch x := in.(type) {
				case *ssa.Convert:
					if isTrusted(x.Type()) {
						op = x.X
					}
				case *ssa.ChangeType:
					if isTrusted(x.Type()) {
						op = x.X
					}
				case *ssa.TypeAssert:
					if isTrusted(x.AssertedType) {
						continue
					}
				}
				if op == nil {
					continue
				}
				r.count("values inserted as is", 1)
				frs := a.ByFn[fn]
				if len(frs) == 0 {
					if _, ok := op.(*ssa.Const); !ok {
						r.failAt(w.P.pos(in.Pos()), fn.String(), "a value of unknown origin may be inserted without escaping")
					}
				}
				for _, fr := range frs {
					if ok, why := w.trustedSource(fr.eval(op)); !ok {
						r.failAt(w.P.pos(in.Pos()), fr.String(), "inserted into the report without escaping: %s", why)
					}
				}
			}
		}
	}
	// structures decoded from outside must not contain trusted types
	for _, pk := range w.P.Pkgs {
		if !w.appPkgs()[pk.PkgPath] {
			continue
		}
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if isTrusted(st.Field(i).Type()) {
						r.count("members of trusted types", 1)
						if isDecoded(w, tn.Type()) {
							r.fail(st.Field(i).Pos(), "%s.%s is filled from outside and inserted without escaping", n, st.Field(i).Name())
						}
					}
				}
			}
		}
	}
	w.checkEmbedded(r)
}

func isDecoded(w *World, t types.Type) bool {
	for _, e := range w.A.Events {
		if e.Callee == "encoding/json.Unmarshal" && len(e.Args) > 1 {
			for _, x := range w.A.resolve(e.Args[1]) {
				if x.T != nil {
					if p, ok := x.T.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkEmbedded: the client's files come from the binary.
func (w *World) checkEmbedded(r *Report) {
	n := 0
	for _, fn := range w.appFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Pkg.Pkg.Path() != modPath+"/injection" || g.Name() != "ClientDist" {
					continue
				}
				n++
				v := st.Val
				if m, ok := v.(*ssa.MakeInterface); ok {
					v = m.X
				}
				if v.Type().String() != "embed.FS" {
					r.fail(st.Pos(), "the client's files are not those embedded in the program")
				}
			}
		}
	}
	r.count("sources of client files", n)
}

// fileTerms: results of creating the report file.
type fileMade struct {
	Ev   *Event
	File *Term // nil when written by the same call
	Name *Term
}

func (w *World) filesMade(c *Command) []fileMade {
	var res []fileMade
	for _, e := range c.events {
		switch e.Callee {
		case "os.Create":
			res = append(res, fileMade{e, w.A.mk("res", "", 0, nil, e.Call), e.Args[0]})
		case "os.OpenFile":
			res = append(res, fileMade{e, w.A.mk("res", "", 0, nil, e.Call), e.Args[0]})
		case "os.WriteFile", "io/ioutil.WriteFile":
			res = append(res, fileMade{e, nil, e.Args[0]})
		}
	}
	return res
}

// isWriter: the term is the file, or a buffer in front of it.
func (w *World) isWriter(t *Term, f *Term, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, x := range w.A.resolve(t) {
		if x == f {
			return true
		}
		if x.Op == "call" && (strings.HasPrefix(x.Callee, "bufio.NewWriter") || x.Callee == "io.MultiWriter") {
			if w.isWriter(x.Args[0], f, depth+1) {
				return true
			}
		}
		if x.Op == "addr" || x.Op == "obj" {
			continue
		}
	}
	return false
}

// renderedBuffer: the value is the content of a buffer holding html/template output only.
func (w *World) renderedBuffer(c *Command, t *Term) bool {
	a := w.A
	for _, x := range a.resolve(t) {
		if x.Op == "conv" {
			if !w.renderedBuffer(c, x.Args[0]) {
				return false
			}
			continue
		}
		if x.Op != "call" || x.Callee != "(*bytes.Buffer).Bytes" && x.Callee != "(*bytes.Buffer).String" && x.Callee != "(*strings.Builder).String" {
			return false
		}
		ok := false
		for _, r := range w.renderings(c) {
			if r.Pkg == "html/template" && a.sameVal(r.Out, x.Args[0]) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (w *World) checkWrites(c *Command, r *Report) {
	for _, f := range w.filesMade(c) {
		if f.File == nil {
			if !w.renderedBuffer(c, f.Ev.Args[1]) {
				if ok, why := w.trustedSource(f.Ev.Args[1]); !ok {
					r.failAt(w.P.pos(f.Ev.In.Pos()), f.Ev.Fr.String(), "written to a file without escaping: %s", why)
				}
			}
			continue
		}
		for _, e := range c.events {
			k := -1
			for i, x := range e.Args {
				if w.isWriter(x, f.File, 0) {
					k = i
				}
			}
			if k < 0 {
				continue
			}
			if len(e.Call.Inls) > 0 {
				continue
			}
			name := e.Callee[strings.LastIndex(e.Callee, ".")+1:]
			if strings.HasSuffix(e.Callee, "template.Template).Execute") || strings.HasSuffix(e.Callee, "template.Template).ExecuteTemplate") {
				continue
			}
			switch name {
			case "Close", "Sync", "Flush", "Name", "Stat", "NewWriter", "NewWriterSize", "MultiWriter", "Chmod", "Fd", "Wrap", "Wrapf":
				continue
			}
			r.count("other writes", 1)
			for i, x := range e.Args {
				if i == k {
					continue
				}
				var parts []*Term
				if els, ok := w.A.elements(x); ok {
					parts = els
				} else {
					parts = []*Term{x}
				}
				for _, p := range parts {
					if p == nil || w.renderedBuffer(c, p) {
						continue
					}
					if rd := w.A.one(p); rd != nil && rd.Op == "obj" {
						ok := false
						for _, rr := range w.renderings(c) {
							ok = ok || rr.Pkg == "html/template" && w.A.sameVal(rr.Out, p)
						}
						if ok {
							continue
						}
					}
					if ok, why := w.trustedSource(p); !ok {
						r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), "written to the report without escaping: %s", why)
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- P11

var fileEffects = map[string]bool{
	"os.Create": true, "os.OpenFile": true, "os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Rename": true, "os.Remove": true, "os.RemoveAll": true,
	"os.Mkdir": true, "os.MkdirAll": true, "os.Truncate": true, "os.Symlink": true, "os.Link": true, "os.Chmod": true, "os.Chown": true,
	"os.CreateTemp": true, "os.MkdirTemp": true, "io/ioutil.TempFile": true, "io/ioutil.TempDir": true, "os.Chdir": true, "os.Setenv": true,
	"(*os.File).Truncate": true, "syscall.Open": true, "syscall.Unlink": true, "os/exec.Command": true, "os/exec.CommandContext": true,
}

// talks: the call communicates with a database or service.
func talks(e *Event) bool {
	if queryParam(e.In.Common()) >= 0 {
		return true
	}
	n := e.Callee
	if isCloseCall(e.In.Common()) {
		return false
	}
	switch {
	case strings.HasPrefix(n, "(*net/http.Client)."), strings.HasPrefix(n, "net/http.Get"), strings.HasPrefix(n, "net/http.Post"), strings.HasPrefix(n, "net/http.Head"), strings.HasSuffix(n, "RoundTripper).RoundTrip"):
		return true
	case strings.Contains(n, "aws-sdk-go-v2/service/") && (strings.HasSuffix(n, ".NextPage") || strings.Contains(n, "Client).")):
		return true
	case strings.Contains(n, "aws-sdk-go-v2/config.Load"):
		return true
	case strings.Contains(n, "api_v3") && (strings.HasSuffix(n, ".Recv") || strings.Contains(n, "QueryServiceClient).")):
		return true
	case strings.HasPrefix(n, "google.golang.org/grpc.Dial"), strings.HasPrefix(n, "google.golang.org/grpc.NewClient"):
		return true
	case strings.HasPrefix(n, "database/sql.Open"), strings.HasPrefix(n, "github.com/jmoiron/sqlx.Open"), strings.HasPrefix(n, "github.com/jmoiron/sqlx.Connect"), strings.HasPrefix(n, "github.com/jmoiron/sqlx.MustConnect"), strings.HasSuffix(n, ".Ping"), strings.HasSuffix(n, ".PingContext"), strings.HasSuffix(n, "DB).Begin"), strings.HasSuffix(n, "DB).Beginx"):
		return true
	}
	return false
}

func checkP11(w *World, r *Report) {
	a := w.A
	cmds := w.reportCmds()
	if len(cmds) == 0 {
		r.missing("commands with --output")
	}
	for _, c := range cmds {
		out := c.flag("output")
		isOut := func(t *Term) bool {
			x := a.one(t)
			if x != nil && x.Op == "call" && x.Callee == "path/filepath.Clean" {
				t = x.Args[0]
			}
			return w.isFlag(t, out)
		}
		for _, e := range c.events {
			if !fileEffects[e.Callee] {
				continue
			}
			r.count("calls changing files", 1)
			if e.Callee == "os.Create" || e.Callee == "os.WriteFile" || e.Callee == "io/ioutil.WriteFile" || e.Callee == "os.OpenFile" {
				if !isOut(e.Args[0]) {
					r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), "writes to another path than the one of --output: %s", trim(e.Args[0].String()))
				}
				if e.Callee == "os.OpenFile" {
					n, ok := e.Args[1].isConstInt()
					if !ok || int(n)&os.O_TRUNC == 0 || int(n)&os.O_CREATE == 0 || int(n)&(os.O_WRONLY|os.O_RDWR) == 0 || int(n)&os.O_APPEND != 0 {
						r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), "an existing file at the path of --output is not replaced")
					}
				}
				continue
			}
			r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), "changes something else than the report: %s", shortCallee(e.Callee))
		}
		made := w.filesMade(c)
		if len(made) != 1 {
			if len(made) == 0 {
				r.missing("the creation of the report of %q", c.Path)
			} else {
				r.failAt(w.P.pos(made[1].Ev.In.Pos()), made[1].Ev.Fr.String(), "the report of %q is created in %d places", c.Path, len(made))
			}
			continue
		}
		m := made[0]
		// nothing is asked for once the file exists
		n := 0
		for _, e := range c.events {
			if !talks(e) {
				continue
			}
			n++
			f, x, y := w.at(m.Ev.Fr, m.Ev.In, e.Fr, e.In)
			if f == nil {
				continue
			}
			if x == y || reaches(x, y) || e.Deferred {
				r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), "the report is created before %s is done", shortCallee(e.Callee))
			}
		}
		r.count("interactions before the report", n)
		if n == 0 {
			r.missing("what %q asks a database or service for", c.Path)
		}
		// rendering goes to the file, always
		var into []*Rendering
		for _, x := range w.renderings(c) {
			if m.File != nil && w.isWriter(x.Out, m.File, 0) {
				into = append(into, x)
			} else if w.bufferWritten(c, x, m) {
				into = append(into, x)
			}
		}
		if len(into) != 1 {
			r.failAt(w.P.pos(m.Ev.In.Pos()), m.Ev.Fr.String(), "%d renderings go to the report file", len(into))
			continue
		}
		for _, ev := range []*Event{m.Ev, into[0].Ev} {
			if why, pos := w.mustHappen(c, ev, isOut); why != "" {
				r.failAt(w.P.pos(pos), ev.Fr.String(), "a successful run may leave no report: %s", why)
			}
			if call, ok := ev.In.(*ssa.Call); ok {
				w.failureReaches(r, ev.Fr, call)
			} else {
				r.failAt(w.P.pos(ev.In.Pos()), ev.Fr.String(), "the failure of writing the report is ignored")
			}
		}
		// closed, and the failure to do so counts
		if m.File != nil {
			closed := false
			for _, e := range c.events {
				if e.Callee != "(*os.File).Close" || !w.isWriter(e.Args[0], m.File, 0) {
					continue
				}
				if call, ok := e.In.(*ssa.Call); ok {
					r.count("closings", 1)
					_, at, _ := failure(e.Fr.Fn, call)
					if at == nil && w.onSuccess(m.Ev, e) {
						closed = true
					}
				}
			}
			if !closed {
				r.failAt(w.P.pos(m.Ev.In.Pos()), m.Ev.Fr.String(), "the report may be incomplete: the failure of closing it is not reported")
			}
		}
		r.fact("%s: report created at %s after %d interactions", c.Path, w.P.pos(m.Ev.In.Pos()), n)
	}
}

// onSuccess: e executes on every successful path after m (same function, or an enclosing one).
func (w *World) onSuccess(m, e *Event) bool {
	f, _, y := w.at(m.Fr, m.In, e.Fr, e.In)
	if f == nil {
		return false
	}
	if !cfgOf(f.Fn).mustExec(y.Block()) && !deferredUnconditional(f.Fn, y) {
		return false
	}
	for _, s := range pathTo(f, e.Fr, e.In)[1:] {
		if !cfgOf(s.Fr.Fn).mustExec(s.In.Block()) {
			return false
		}
	}
	return true
}

func deferredUnconditional(fn *ssa.Function, in ssa.Instruction) bool {
	_, ok := in.(*ssa.Defer)
	return ok && cfgOf(fn).mustExec(in.Block())
}

func (w *World) bufferWritten(c *Command, x *Rendering, m fileMade) bool {
	a := w.A
	usesBuf := func(t *Term) bool {
		for _, y := range a.resolve(t) {
			if y.Op == "conv" {
				y = y.Args[0]
			}
			if a.sameVal(y, x.Out) {
				return true
			}
			if y.Op == "call" && strings.HasPrefix(y.Callee, "(*bytes.Buffer).") && a.sameVal(y.Args[0], x.Out) {
				return true
			}
		}
		return false
	}
	if m.File == nil {
		return usesBuf(m.Ev.Args[1])
	}
	for _, e := range c.events {
		if len(e.Call.Inls) > 0 {
			continue
		}
		wr, src := false, false
		for _, t := range e.Args {
			wr = wr || w.isWriter(t, m.File, 0)
			src = src || usesBuf(t)
		}
		if wr && src {
			return true
		}
	}
	return false
}

// mustHappen: on every successful path of the command where --output is not empty.
func (w *World) mustHappen(c *Command, e *Event, isOut func(*Term) bool) (string, posT) {
	for _, s := range pathTo(c.Run, e.Fr, e.In) {
		ci := cfgOf(s.Fr.Fn)
		if len(ci.loopChain(s.In.Block())) > 0 {
			return "it is written in a loop", s.In.Pos()
		}
		if ci.mustExec(s.In.Block()) {
			continue
		}
		// only skipped when the path is empty
		b := s.In.Block()
		seen := map[*ssa.BasicBlock]bool{}
		st := []*ssa.BasicBlock{s.Fr.Fn.Blocks[0]}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] || x == b || ci.errOnly[x] {
				continue
			}
			seen[x] = true
			if ret, ok := lastInstr(x).(*ssa.Return); ok {
				if ci.retKind(ret) != retErr && x != s.Fr.Fn.Recover && !failsFrom(s.Fr.Fn, ret, b) {
					return "this path does not write it", ret.Pos()
				}
				continue
			}
			if iff, ok := lastInstr(x).(*ssa.If); ok {
				sn := stripNot(iff.Cond, true)
				if empty, ok := w.emptyTest(s.Fr.eval(sn.v), isOut); ok {
					k := 0 // successor taken when not empty
					if empty == sn.t {
						k = 1
					}
					st = append(st, x.Succs[k])
					continue
				}
			}
			st = append(st, x.Succs...)
		}
	}
	return "", 0
}

// failsFrom: the error returned is not nil when the return is reached without the given block.
func failsFrom(fn *ssa.Function, ret *ssa.Return, past *ssa.BasicBlock) bool {
	slot := errSlot(fn.Signature)
	if slot < 0 {
		return false
	}
	x := ret.Block()
	rv := ret.Results[slot]
	if ld, ok := rv.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if sv := lastStoreBefore(ld); sv != nil {
			rv = sv
		}
	}
	ph, ok := rv.(*ssa.Phi)
	if !ok || ph.Block() != x {
		return false
	}
	for i, p := range x.Preds {
		if p == past || past.Dominates(p) {
			continue
		}
		if errValueKind(ph.Edges[i], p, map[ssa.Value]bool{}) == retErr {
			continue
		}
		iff, ok := lastInstr(p).(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			return false
		}
		st := stripNot(iff.Cond, p.Succs[0] == x)
		v, nonNil, ok := nilTest(st.v)
		if !ok || v != ph.Edges[i] || nonNil != st.t {
			return false
		}
	}
	return true
}

// emptyTest: the condition tells whether the path of --output is empty (true: condition true means empty).
func (w *World) emptyTest(t *Term, isOut func(*Term) bool) (empty, ok bool) {
	if t.Op != "binop" {
		return false, false
	}
	x, y, op := t.Args[0], t.Args[1], t.S
	if x.Op == "const" {
		x, y = y, x
		op = swapOpS(op)
	}
	if s, okc := y.isConstString(); okc && s == "" && isOut(x) {
		switch op {
		case "==":
			return true, true
		case "!=":
			return false, true
		}
	}
	if x.Op == "call" && x.Callee == "len" && isOut(x.Args[0]) {
		if n, okc := y.isConstInt(); okc {
			switch {
			case n == 0 && (op == ">" || op == "!="), n == 1 && op == ">=":
				return false, true
			case n == 0 && (op == "==" || op == "<="), n == 1 && op == "<":
				return true, true
			}
		}
	}
	return false, false
}

// failureReaches: the failure of a call becomes the failure of the command.
func (w *World) failureReaches(r *Report, fr *Frame, call *ssa.Call) {
	for fr != nil && call != nil {
		_, at, what := failure(fr.Fn, call)
		r.count("failures followed", 1)
		if at != nil {
			r.failAt(w.P.pos(call.Pos()), fr.String(), "failure of %s: %s %s", shortCallee(calleeName(&call.Call)), w.P.pos(at.Pos()), what)
			return
		}
		if errSlot(fr.Fn.Signature) < 0 {
			return
		}
		next, _ := fr.Site.(*ssa.Call)
		if fr.Site != nil && next == nil {
			r.failAt(w.P.pos(fr.Site.Pos()), fr.String(), "the failure of writing the report is ignored")
			return
		}
		call, fr = next, fr.Parent
	}
}

var _ = constant.MakeBool
