package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P16", "Flow of the values of DB_PASSWORD and HASURA_ADMIN_SECRET (and of every text or object made of them: concatenations, formats, connection strings, structs, maps, headers, buffers) through all calling contexts: none may reach a logger, the terminal, the text of an error, a panic, a file or the report, a statement, the address or body of a request, or a flag's default. Transports given to net/http must not let the headers of a request reach those places either.", checkP16)
}

var secretNames = map[string]bool{"DB_PASSWORD": true, "HASURA_ADMIN_SECRET": true}

const secretHeader = "x-hasura-admin-secret"

// secrets decides which terms hold one of the secrets.
type secrets struct {
	a       *Analysis
	memo    map[*Term]string
	busy    map[*Term]bool
	carrier map[*Term]string // objects of libraries that were given a secret (headers, buffers, …)
	src     map[*Term]string
}

func newSecrets(a *Analysis) *secrets {
	return &secrets{a: a, memo: map[*Term]string{}, busy: map[*Term]bool{}, carrier: map[*Term]string{}, src: map[*Term]string{}}
}

// pkgOfCallee: the package of a called function or of the receiver of a called method.
func pkgOfCallee(s string) string {
	s = strings.TrimPrefix(s, "(")
	s = strings.TrimPrefix(s, "*")
	if i := strings.Index(s, "["); i >= 0 {
		s = s[:i]
	}
	j := strings.LastIndex(s, "/")
	if i := strings.Index(s[j+1:], "."); i >= 0 {
		return s[:j+1+i]
	}
	return s
}

func shortName(s string) string {
	if i := strings.Index(s, "["); i >= 0 {
		s = s[:i]
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

// holdsText: values of the type can show what they were made of.
func holdsText(t types.Type, depth int) bool {
	if t == nil || depth > 6 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "bytes", "strings", "net/url", "bufio":
			return true
		case "net/http":
			return n.Obj().Name() == "Header" || n.Obj().Name() == "Request"
		case "encoding/json", "text/template", "html/template":
			return basicInfo(t)&types.IsString != 0 || n.Obj().Name() == "RawMessage"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32) {
			return true
		}
		return holdsText(u.Elem(), depth+1)
	case *types.Array:
		return holdsText(u.Elem(), depth+1)
	case *types.Map:
		return holdsText(u.Key(), depth+1) || holdsText(u.Elem(), depth+1)
	case *types.Pointer:
		return holdsText(u.Elem(), depth+1)
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type()) && u.NumMethods() <= 1
	}
	return false
}

func errorMaker(callee string) bool {
	switch pkgOfCallee(callee) {
	case "errors", "github.com/pkg/errors":
		return true
	}
	return callee == "fmt.Errorf"
}

// of names the secret a value holds ("" for none).
func (s *secrets) of(t *Term) string {
	if t == nil {
		return ""
	}
	if v, ok := s.memo[t]; ok {
		return v
	}
	if s.busy[t] {
		return ""
	}
	s.busy[t] = true
	v := s.compute(t)
	delete(s.busy, t)
	if v != "" || len(s.busy) == 0 {
		s.memo[t] = v
	}
	return v
}

func (s *secrets) compute(t *Term) string {
	if n, ok := envName(t); ok {
		if secretNames[n] {
			return n
		}
		return ""
	}
	if v := s.src[t]; v != "" {
		return v
	}
	if v := s.carrier[t]; v != "" {
		return v
	}
	if t.T != nil && !s.mayHold(t.T) {
		return ""
	}
	rs := s.a.resolve(t)
	if len(rs) != 1 || rs[0] != t {
		for _, r := range rs {
			if v := s.of(r); v != "" {
				return v
			}
		}
		return ""
	}
	for _, f := range sortedFields(s.a.heap[t]) {
		for _, r := range s.a.heap[t][f] {
			if v := s.of(r.Val); v != "" {
				return v
			}
			if r.Key != nil && f == "[]" {
				if v := s.of(r.Key); v != "" {
					return v
				}
			}
		}
	}
	switch t.Op {
	case "binop":
		if t.S != "+" {
			return ""
		}
		return s.any(t.Args)
	case "conv", "assert", "slice", "index", "elem", "mapkey", "deref":
		return s.of(t.Args[0])
	case "mapget":
		if k, ok := t.Args[1].isConstString(); ok && s.carrier[t.Args[0]] != "" && !strings.EqualFold(k, secretHeader) {
			return ""
		}
		return s.of(t.Args[0])
	case "load":
		return s.of(t.Args[0])
	case "addr":
		// the address of a field: what the field holds
		return s.of(s.a.field(t.Args[0], t.S))
	case "iaddr":
		return s.of(t.Args[0])
	case "field":
		return ""
	case "res":
		c := t.Args[0]
		if c.Op == "call" {
			return s.ofCall(c, t.T)
		}
		return s.of(c)
	case "call":
		ty := t.T
		if tu, ok := ty.(*types.Tuple); ok {
			for i := 0; i < tu.Len(); i++ {
				if v := s.ofCall(t, tu.At(i).Type()); v != "" {
					return v
				}
			}
			return ""
		}
		return s.ofCall(t, ty)
	}
	return ""
}

// mayHold: numbers, truth values and functions show nothing of a text.
func (s *secrets) mayHold(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.Uint8 || u.Kind() == types.Int32 || u.Kind() == types.UntypedNil || u.Kind() == types.Invalid
	case *types.Signature, *types.Chan:
		return false
	}
	return true
}

func (s *secrets) any(ts []*Term) string {
	for _, t := range ts {
		if v := s.of(t); v != "" {
			return v
		}
	}
	return ""
}

// ofCall: what a library function makes of its arguments.
func (s *secrets) ofCall(c *Term, res types.Type) string {
	if len(c.Inls) > 0 {
		return ""
	}
	pkg := pkgOfCallee(c.Callee)
	if strings.HasPrefix(pkg, "crypto/") || strings.HasPrefix(pkg, "hash/") {
		return ""
	}
	if (pkg == "net/http" || pkg == "net/textproto") && (shortName(c.Callee) == "Get" || shortName(c.Callee) == "Values") && len(c.Args) == 2 {
		if k, ok := c.Args[1].isConstString(); ok && !strings.EqualFold(k, secretHeader) {
			return ""
		}
	}
	if !holdsText(res, 0) && !errorMaker(c.Callee) && pkg != "github.com/samber/lo" {
		return ""
	}
	if pkg == "github.com/jmoiron/sqlx" || pkg == "database/sql" {
		return ""
	}
	for _, cb := range c.CB {
		for i := 0; i < cb.Fn.Signature.Results().Len(); i++ {
			if v := s.any(cb.results(i)); v != "" {
				return v
			}
		}
	}
	if len(c.CB) > 0 {
		switch shortName(c.Callee) {
		case "Map", "FlatMap", "SliceToMap", "MapValues", "MapKeys", "Reduce", "FilterMap":
			return ""
		}
	}
	return s.any(c.Args)
}

// mutators: methods that put their arguments into their receiver.
func mutator(callee string) bool {
	if !strings.HasPrefix(callee, "(") {
		return false
	}
	switch pkgOfCallee(callee) {
	case "bytes", "strings", "bufio":
		return strings.HasPrefix(shortName(callee), "Write")
	case "net/http", "net/url", "net/textproto":
		switch shortName(callee) {
		case "Add", "Set", "SetBasicAuth", "AddCookie":
			return true
		}
	}
	return false
}

// carriers: the objects that are given a secret.
func (s *secrets) carriers() {
	for changed := true; changed; {
		changed = false
		for _, e := range s.a.Events {
			if len(e.Args) < 2 {
				continue
			}
			var to *Term
			var from []*Term
			switch {
			case mutator(e.Callee):
				to, from = e.Args[0], e.Args[1:]
			case strings.HasPrefix(e.Callee, "fmt.Fprint"):
				to, from = e.Args[0], e.Args[1:]
			case e.Callee == "io.WriteString":
				to, from = e.Args[0], e.Args[1:]
			default:
				continue
			}
			v := s.any(from)
			if v == "" {
				continue
			}
			for _, x := range append(s.a.resolve(to), to) {
				for x != nil {
					if s.carrier[x] == "" {
						s.carrier[x] = v
						changed = true
					}
					// a header belongs to its request
					if (x.Op == "field" || x.Op == "addr") && (x.S == "Header" || x.S == "User") {
						x = x.Args[0]
						continue
					}
					break
				}
			}
		}
		if changed {
			s.memo = map[*Term]string{}
		}
	}
}

// revealing: the places where the arguments of a call can be seen, and which arguments.
func revealing(e *Event) (string, []*Term) {
	c := e.Callee
	pkg, name := pkgOfCallee(c), shortName(c)
	switch {
	case strings.HasPrefix(pkg, "github.com/rs/zerolog") || pkg == "log" || pkg == "log/slog":
		return "the log", e.Args
	case pkg == "fmt" && strings.HasPrefix(name, "Print"):
		return "the terminal", e.Args
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"), c == "io.WriteString":
		if len(e.Args) > 1 && !inMemory(e, 0) {
			return "what is written", e.Args[1:]
		}
	case c == "fmt.Errorf" || pkg == "errors" && name == "New" || pkg == "github.com/pkg/errors":
		return "the text of an error", e.Args
	case pkg == "github.com/spf13/cobra" && strings.Contains(name, "Print"):
		return "the terminal", e.Args
	case pkg == "github.com/spf13/pflag":
		return "the help of a flag", e.Args
	case pkg == "os/exec":
		return "another program", e.Args
	case pkg == "os" && (name == "WriteFile" || strings.HasPrefix(name, "Write") && strings.HasPrefix(c, "(")):
		return "a file", e.Args
	case pkg == "io" && (name == "Copy" || name == "Write") && len(e.Args) > 1:
		return "what is written", e.Args[1:]
	case (pkg == "html/template" || pkg == "text/template") && strings.HasPrefix(name, "Execute"):
		return "the report", e.Args
	case c == "(*encoding/json.Encoder).Encode":
		return "what is written", e.Args[1:]
	case pkg == "database/sql" || pkg == "github.com/jmoiron/sqlx":
		if name == "Open" || name == "Connect" || name == "MustConnect" || name == "MustOpen" || name == "ConnectContext" || name == "OpenDB" || name == "NewDb" {
			return "", nil
		}
		return "a statement", e.Args
	case pkg == "net/http" && (name == "NewRequest" || name == "NewRequestWithContext" || name == "Get" || name == "Post" || name == "PostForm") && !strings.HasPrefix(c, "(net/http.Header"):
		return "the address or body of a request", e.Args
	}
	return "", nil
}

// inMemory: an argument is a buffer (seen only when it is used).
func inMemory(e *Event, i int) bool {
	args := e.In.Common().Args
	if i >= len(args) {
		return false
	}
	v := args[i]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	t := v.Type().String()
	return strings.HasSuffix(t, "bytes.Buffer") || strings.HasSuffix(t, "strings.Builder") || strings.HasSuffix(t, "bufio.Writer") || strings.HasSuffix(t, "tabwriter.Writer")
}

func (s *secrets) check(w *World, r *Report, where func(*Frame) string) {
	a := s.a
	s.carriers()
	for _, e := range a.Events {
		place, args := revealing(e)
		if place == "" {
			continue
		}
		r.count("places_where_values_are_seen", 1)
		for _, x := range args {
			if v := s.of(x); v != "" {
				r.failAt(w.P.pos(e.In.Pos()), where(e.Fr), "%s reaches %s (%s)", v, place, e.Callee)
				break
			}
		}
	}
	for _, fr := range a.Frames {
		for _, b := range fr.Fn.Blocks {
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Panic)
				if !ok {
					continue
				}
				if t := fr.env[p.X]; t != nil {
					if v := s.of(t); v != "" {
						r.failAt(w.P.pos(p.Pos()), where(fr), "%s reaches a panic", v)
					}
				}
			}
		}
		slot := errSlot(fr.Fn.Signature)
		if slot < 0 {
			continue
		}
		for _, rt := range fr.rets {
			if slot >= len(rt.Results) {
				continue
			}
			for _, x := range a.resolve(fr.eval(rt.Results[slot])) {
				if x.Op != "obj" {
					continue
				}
				r.count("errors_made", 1)
				if v := s.of(x); v != "" {
					r.failAt(w.P.pos(rt.Pos()), where(fr), "%s is part of the error returned", v)
				}
			}
		}
	}
}

func checkP16(w *World, r *Report) {
	a := w.A
	s := newSecrets(a)
	read := map[string]int{}
	for _, e := range a.Events {
		if n, ok := envName(e.Call); ok && secretNames[n] {
			read[n]++
		}
	}
	for _, n := range []string{"DB_PASSWORD", "HASURA_ADMIN_SECRET"} {
		if read[n] == 0 {
			r.missing("the environment variable %q is read", n)
		}
	}
	s.check(w, r, func(f *Frame) string { return fnName(f.Fn) })
	for _, v := range s.carrier {
		_ = v
		r.count("objects_given_a_secret", 1)
	}
	// transports: called by net/http with the request, secret included
	for _, fn := range w.P.Funcs {
		if fn.Name() != "RoundTrip" || !isAppFn(fn) || len(fn.Blocks) == 0 || fn.Signature.Recv() == nil || len(fn.Params) != 2 {
			continue
		}
		if fn.Params[1].Type().String() != "*net/http.Request" {
			continue
		}
		a2 := newAnalysis(w.P)
		fr := a2.root(fn)
		s2 := newSecrets(a2)
		req := fr.eval(fn.Params[1])
		s2.carrier[req] = "HASURA_ADMIN_SECRET"
		s2.carrier[a2.field(req, "Header")] = "HASURA_ADMIN_SECRET"
		r.count("transports", 1)
		s2.check(w, r, func(f *Frame) string { return fnName(f.Fn) })
	}
}
