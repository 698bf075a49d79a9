package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is one interaction with a database (or Hasura) in one calling context.
type Op struct {
	Cmd  *Command
	Ev   *Event
	Chan string // "sql" (driver), "graphql", "explain", "run_sql", "http"
	SQL  *Term  // statement text (or GraphQL document)
	Args []*Term
	Tm   []Tmpl
	Kind string // explain, select, create-index, drop-index, query, other
	// read only flag of Hasura's run_sql
	ReadOnly bool
	Body     map[string]*Term
	// Top is the outermost frame of the operation's infrastructure (infra/*), Site the call into it
	Top  *Frame
	Site ssa.CallInstruction
	// In is the frame containing Site
	In *Frame
}

func (o *Op) String() string {
	var ss []string
	for _, t := range o.Tm {
		ss = append(ss, strings.Join(strings.Fields(t.String()), " "))
	}
	return fmt.Sprintf("%s/%s %s", o.Chan, o.Kind, strings.Join(ss, " || "))
}

func isInfra(fn *ssa.Function) bool {
	return strings.HasPrefix(pkgPathOf(fn), modPath+"/infra/")
}

// queryParam: index (in Event.Args) of the statement text of a database call, or -1.
func queryParam(c *ssa.CallCommon) int {
	var sig *types.Signature
	var pkg, name string
	off := 0
	if c.IsInvoke() {
		sig = c.Method.Type().(*types.Signature)
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		name = c.Method.Name()
		off = 1
	} else if f := c.StaticCallee(); f != nil {
		sig = f.Signature
		pkg = pkgPathOf(f)
		name = f.Name()
		if sig.Recv() != nil {
			off = 1
		}
	} else {
		return -1
	}
	if pkg != "database/sql" && pkg != "github.com/jmoiron/sqlx" && pkg != "database/sql/driver" {
		return -1
	}
	switch name {
	case "In", "Rebind", "Named", "BindMap", "BindNamed", "Rebind2":
		return -1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if n := sig.Params().At(i).Name(); n == "query" {
			return i + off
		}
	}
	return -1
}

// opsOf lists the interactions of a command.
func (w *World) opsOf(c *Command) []*Op {
	if c.ops != nil {
		return c.ops
	}
	a := w.A
	for _, e := range c.events {
		var o *Op
		if k := queryParam(e.In.Common()); k >= 0 && k < len(e.Args) {
			o = &Op{Cmd: c, Ev: e, Chan: "sql", SQL: e.Args[k], Args: e.Args[k+1:]}
		} else if url, body, ok := w.httpCall(e); ok {
			o = &Op{Cmd: c, Ev: e, Chan: "http"}
			paths := a.constPaths(url)
			for _, p := range paths {
				switch {
				case strings.HasSuffix(p, "/v1/graphql"):
					o.Chan = "graphql"
				case strings.HasSuffix(p, "/v1/graphql/explain"):
					o.Chan = "explain"
				case strings.HasSuffix(p, "/v2/query"):
					o.Chan = "run_sql"
				}
			}
			if len(paths) != 1 {
				o.Chan = "http"
			}
			o.Body = a.jsonBody(body)
			switch o.Chan {
			case "graphql":
				o.SQL = o.Body["query"]
			case "explain":
				if q := o.Body["query"]; q != nil {
					o.SQL = a.jsonFields(q)["query"]
				}
			case "run_sql":
				if ar := o.Body["args"]; ar != nil {
					fs := a.jsonFields(ar)
					o.SQL = fs["sql"]
					if ro := fs["read_only"]; ro != nil {
						o.ReadOnly = true
						for _, x := range a.resolve(ro) {
							vs := a.resolve(a.deref(x))
							if len(vs) != 1 {
								o.ReadOnly = false
								continue
							}
							b, ok := vs[0].isConstBool()
							o.ReadOnly = o.ReadOnly && ok && b
						}
					}
				}
			}
		} else {
			continue
		}
		if o.SQL != nil {
			o.Tm = a.tmpls(o.SQL)
		}
		o.classify(w)
		// boundary
		f, site := e.Fr, ssa.CallInstruction(e.In)
		for f != nil && isInfra(rootFn(f.Fn)) && f.Parent != nil {
			o.Top = f
			site = f.Site
			f = f.Parent
		}
		o.Site, o.In = site, f
		c.ops = append(c.ops, o)
	}
	return c.ops
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func (o *Op) classify(w *World) {
	o.Kind = "other"
	kinds := map[string]bool{}
	for _, t := range o.Tm {
		kinds[w.sqlKind(o, t)] = true
	}
	if o.Chan == "graphql" {
		o.Kind = "query"
		return
	}
	if o.Chan == "explain" {
		o.Kind = "explain"
		return
	}
	if len(kinds) == 1 {
		for k := range kinds {
			o.Kind = k
		}
	}
}

func (w *World) sqlKind(o *Op, t Tmpl) string {
	words := strings.Fields(strings.ToUpper(strings.NewReplacer("`", " ", "\"", " ", "(", " ( ").Replace(t.prefix())))
	if len(words) == 0 {
		if len(t) == 1 && t[0].Hole != nil && w.isFlag(t[0].Hole, o.Cmd.flag("query")) {
			return "query"
		}
		return "other"
	}
	all := strings.ToUpper(t.String())
	switch words[0] {
	case "EXPLAIN", "SELECT":
		return strings.ToLower(words[0])
	case "CREATE":
		if strings.Contains(all, "INDEX") {
			return "create-index"
		}
	case "DROP":
		if len(words) > 1 && words[1] == "INDEX" {
			return "drop-index"
		}
	case "ALTER":
		x := strings.Join(strings.Fields(all), " ")
		switch {
		case strings.Contains(x, " ADD "):
			return "create-index"
		case strings.Contains(x, " DROP "):
			return "drop-index"
		}
	}
	return "other"
}

// httpCall: event sends an HTTP request; returns the URL and the body given.
func (w *World) httpCall(e *Event) (url, body *Term, ok bool) {
	a := w.A
	switch e.Callee {
	case "(*net/http.Client).Do", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
		for _, r := range a.resolve(e.Args[1]) {
			c := r
			if c.Op == "res" {
				c = c.Args[0]
			}
			if c.Op == "call" {
				switch c.Callee {
				case "net/http.NewRequest":
					return c.Args[1], c.Args[2], true
				case "net/http.NewRequestWithContext":
					return c.Args[2], c.Args[3], true
				}
			}
		}
		if strings.HasSuffix(e.Callee, "RoundTrip") {
			return nil, nil, false
		}
		return e.Args[1], a.none(), true
	case "net/http.Post":
		return e.Args[0], e.Args[2], true
	case "(*net/http.Client).Post":
		return e.Args[1], e.Args[3], true
	case "net/http.Get":
		return e.Args[0], a.none(), true
	}
	return nil, nil, false
}

// constPaths collects the constant URL paths a URL is made of.
func (a *Analysis) constPaths(t *Term) []string {
	set := map[string]bool{}
	a.reach(t, func(x *Term) bool {
		if s, ok := x.isConstString(); ok && strings.HasPrefix(s, "/") && len(s) > 1 {
			set[s] = true
		} else if ok && strings.HasPrefix(s, "v1/") || ok && strings.HasPrefix(s, "v2/") {
			set["/"+s] = true
		}
		return true
	})
	return sortedKeys(set)
}

// reach visits everything a value is computed from, in its calling context: operands, arguments, contents of objects.
func (a *Analysis) reach(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		rs := a.resolve(t)
		if len(rs) != 1 || rs[0] != t {
			for _, r := range rs {
				visit(r)
			}
			if t.Op == "call" || t.Op == "res" || t.Op == "phi" || t.Op == "load" || t.Op == "field" {
				return
			}
		}
		if t.Op == "obj" || t.Op == "makemap" || t.Op == "makeslice" {
			for _, fn := range sortedFields(a.heap[t]) {
				for _, r := range a.heap[t][fn] {
					visit(r.Val)
				}
			}
		}
		for _, x := range t.Args {
			visit(x)
		}
		for _, cb := range t.CB {
			for i := 0; i < cb.Fn.Signature.Results().Len(); i++ {
				for _, r := range cb.results(i) {
					visit(r)
				}
			}
		}
	}
	visit(t)
}

func sortedFields(m map[string][]*StoreRec) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return sortedKeys(s)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

// jsonBody finds the value encoded as JSON in a request body.
func (a *Analysis) jsonBody(t *Term) map[string]*Term {
	var v *Term
	a.reach(t, func(x *Term) bool {
		if x.Op == "call" && (x.Callee == "encoding/json.Marshal" || x.Callee == "encoding/json.MarshalIndent") {
			v = x.Args[0]
			return false
		}
		return true
	})
	if v == nil {
		// json.NewEncoder(buf).Encode(v)
		for _, o := range a.resolve(t) {
			for _, e := range a.Events {
				if e.Callee == "(*encoding/json.Encoder).Encode" {
					for _, enc := range a.resolve(e.Args[0]) {
						if enc.Op == "call" && len(enc.Args) > 0 {
							for _, b := range a.resolve(enc.Args[0]) {
								if b == o {
									v = e.Args[1]
								}
							}
						}
					}
				}
			}
		}
	}
	if v == nil {
		return nil
	}
	return a.jsonFields(v)
}

// jsonFields: members of the JSON object a value is encoded as.
func (a *Analysis) jsonFields(t *Term) map[string]*Term {
	res := map[string]*Term{}
	merge := func(k string, v *Term) {
		if old := res[k]; old != nil && old != v {
			v = a.mk("alts", "", 0, nil, old, v)
		}
		res[k] = v
	}
	for _, x := range a.resolve(t) {
		switch x.Op {
		case "makemap":
			for _, r := range a.heap[x]["[]"] {
				if k, ok := r.Key.isConstString(); ok {
					merge(k, r.Val)
				}
			}
		default:
			st := structOf(x.T)
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Anonymous() && strings.Split(reflectTag(st.Tag(i), "json"), ",")[0] == "" && structOf(f.Type()) != nil {
					for k, v := range a.jsonFields(a.withType(a.field(x, f.Name()), f.Type())) {
						if res[k] == nil {
							merge(k, v)
						}
					}
					continue
				}
				name, _ := jsonName(st, i)
				if name == "" {
					continue
				}
				merge(name, a.field(x, st.Field(i).Name()))
			}
		}
	}
	return res
}

// withType notes the static type of a term that has none.
func (a *Analysis) withType(t *Term, ty types.Type) *Term {
	if t.T == nil {
		t.T = ty
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// jsonName is the JSON member name of a struct field ("" when not encoded).
func jsonName(st *types.Struct, i int) (string, []string) {
	f := st.Field(i)
	if !f.Exported() {
		return "", nil
	}
	tag := reflectTag(st.Tag(i), "json")
	parts := strings.Split(tag, ",")
	if parts[0] == "-" {
		return "", nil
	}
	if parts[0] == "" {
		return f.Name(), parts[1:]
	}
	return parts[0], parts[1:]
}
