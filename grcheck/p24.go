package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P24", "Each HTTP request of the Hasura command: its method, its address (a copy of the parsed HASURA_URL whose path is extended by an API path), the admin secret header set unconditionally before it is sent, HASURA_URL and HASURA_ADMIN_SECRET known to be set; and what is known whenever the client function returns without error: the status is 2xx, and for GraphQL the list of errors is empty.", checkP24)
}

// success: what is known whenever the function returned without an error.
func (a *Analysis) success(fr *Frame) []Fact {
	c := &factCtx{a: a}
	slot := errSlot(fr.Fn.Signature)
	var fs []Fact
	first := true
	ci := cfgOf(fr.Fn)
	for _, r := range fr.rets {
		if ci.retKind(r) == retErr {
			continue
		}
		one := c.local(fr, r.Block())
		if slot >= 0 && ci.retKind(r) == retMaybe {
			one = append(one, c.errNil(fr.eval(r.Results[slot]))...)
		}
		if first {
			fs, first = one, false
		} else {
			fs = meet(fs, one)
		}
	}
	return fs
}

func checkP24(w *World, r *Report) {
	a := w.A
	c := w.Cmds["db suggest hasura postgres"]
	if c == nil {
		r.missing("command %q", "db suggest hasura postgres")
		return
	}
	n := map[string]int{}
	for _, o := range w.opsOf(c) {
		if o.Chan == "sql" {
			continue
		}
		bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Ev.In.Pos()), c.Path, f, args...) }
		r.count("requests", 1)
		n[o.Chan]++
		req := w.httpRequest(o.Ev)
		if req == nil || o.Chan == "http" {
			bad("a request is not to one of Hasura's known APIs")
			continue
		}
		if m := a.one(req.method); m == nil {
			bad("the method of the request is unknown")
		} else if s, ok := m.isConstString(); !ok || s != "POST" {
			bad("the request is not sent with POST")
		}
		if why := w.hasuraURL(req.url); why != "" {
			bad("%s", why)
		}
		if o.SQL == nil {
			bad("the request does not hold the query where the API expects it")
		}
		if o.Chan == "run_sql" {
			ty := o.Body["type"]
			if ty != nil {
				ty = a.one(ty)
			}
			if ty == nil {
				bad("the request does not say that it runs SQL")
			} else if s, ok := ty.isConstString(); !ok || s != "run_sql" {
				bad("the request does not say that it runs SQL")
			}
		}
		if why := w.secretHeader(c, o, req.term); why != "" {
			bad("%s", why)
		}
		fs := a.factsOnPath(o.Ev.Fr, o.Ev.In.Block(), c.Run)
		for _, env := range []string{"HASURA_URL", "HASURA_ADMIN_SECRET"} {
			if _, set := w.envKnown(fs, env); !set {
				bad("a request is sent although %s may be missing", env)
			}
		}
		if o.Top == nil {
			bad("the request is not sent by the infrastructure")
			continue
		}
		ok := a.success(o.Top)
		lo, hi := int64(0), int64(1)<<40
		for _, f := range ok {
			if len(f.Loops) > 0 || f.T.Op != "binop" {
				continue
			}
			x, y, op := f.T.Args[0], f.T.Args[1], f.T.S
			if x.Op == "const" {
				x, y, op = y, x, swapOpS(op)
			}
			if !f.True {
				op = negOpS(op)
			}
			if k, isN := y.isConstInt(); isN && x.Op == "field" && x.S == "StatusCode" && w.sameRes(x.Args[0], o.Ev.Call) {
				lo, hi = narrow(lo, hi, op, k)
			}
			// integer division: StatusCode/100 == 2
			if k, isN := y.isConstInt(); isN && x.Op == "binop" && x.S == "/" && op == "==" {
				if d, isD := x.Args[1].isConstInt(); isD && d > 0 && x.Args[0].Op == "field" && x.Args[0].S == "StatusCode" && w.sameRes(x.Args[0].Args[0], o.Ev.Call) {
					lo, hi = max64(lo, k*d), min64(hi, k*d+d-1)
				}
			}
		}
		if lo < 200 || hi > 299 {
			bad("an answer with another status than success is taken for success")
		}
		if o.Chan == "graphql" {
			good := false
			for _, f := range ok {
				if len(f.Loops) > 0 {
					continue
				}
				e, is := w.emptyTest(f.T, func(t *Term) bool { return w.jsonMemberOf(t, "errors", o) })
				if is && e == f.True {
					good = true
				}
				// errors == nil
				if t := f.T; t.Op == "binop" && t.Args[1].Op == "nil" && w.jsonMemberOf(t.Args[0], "errors", o) && (t.S == "==") == f.True {
					good = true
				}
			}
			if !good {
				bad("errors reported by GraphQL are taken for success")
			}
			r.count("GraphQL requests", 1)
		}
	}
	for _, ch := range []string{"graphql", "explain", "run_sql"} {
		if n[ch] == 0 {
			r.missing("requests of the kind %s", ch)
		}
	}
}

func narrow(lo, hi int64, op string, n int64) (int64, int64) {
	switch op {
	case "==":
		return max64(lo, n), min64(hi, n)
	case "<":
		return lo, min64(hi, n-1)
	case "<=":
		return lo, min64(hi, n)
	case ">":
		return max64(lo, n+1), hi
	case ">=":
		return max64(lo, n), hi
	}
	return lo, hi
}

type httpReq struct{ term, method, url *Term }

func (w *World) httpRequest(e *Event) *httpReq {
	if len(e.Args) < 2 {
		return nil
	}
	x := w.A.val(e.Args[1])
	if x == nil || x.Op != "res" || x.Args[0].Op != "call" {
		return nil
	}
	cl := x.Args[0]
	switch cl.Callee {
	case "net/http.NewRequest":
		return &httpReq{x, cl.Args[0], cl.Args[1]}
	case "net/http.NewRequestWithContext":
		return &httpReq{x, cl.Args[1], cl.Args[2]}
	}
	return nil
}

// sameRes: the value is the first result of this call.
func (w *World) sameRes(t, call *Term) bool {
	vs := w.A.values(t)
	for _, x := range vs {
		if x.Op == "obj" && len(w.A.heap[x]["*"]) > 0 && isCell(x) { // a variable that closures share
			for _, rec := range w.A.heap[x]["*"] {
				if !w.sameRes(rec.Val, call) {
					return false
				}
			}
			continue
		}
		if x.Op != "res" || x.Idx != 0 || x.Args[0] != call {
			return false
		}
	}
	return len(vs) > 0
}

// jsonMemberOf: the value is the member of an object decoded from the answer to the request.
func (w *World) jsonMemberOf(t *Term, name string, o *Op) bool {
	if t.Op != "field" {
		if v := w.A.val(t); v != nil && v.Op == "field" {
			t = v
		} else {
			return false
		}
	}
	b := t.Args[0]
	for _, x := range append([]*Term{b}, w.A.values(b)...) {
		st := structOf(x.T)
		if st == nil && x.Val != nil {
			st = structOf(x.Val.Type())
		}
		if st == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == t.S {
				n, _ := jsonName(st, i)
				if n != name {
					return false
				}
			}
		}
		// decoded from the answer
		for _, rec := range w.A.heap[x]["*"] {
			hit := false
			w.A.reach(rec.Val, func(y *Term) bool {
				if y == o.Ev.Call {
					hit = true
				}
				return !hit
			})
			if hit {
				return true
			}
		}
	}
	return false
}

var apiPaths = map[string]bool{"v1/graphql": true, "v1/graphql/explain": true, "v2/query": true}

func isAPI(parts []string) bool {
	return apiPaths[strings.Trim(strings.Join(parts, "/"), "/")]
}

// hasuraURL: the address is HASURA_URL with an API's path after its own.
func (w *World) hasuraURL(t *Term) string {
	a := w.A
	n := 0
	for _, x := range a.values(t) {
		n++
		if x.Op == "res" && x.Idx == 0 {
			x = x.Args[0]
		}
		if x.Op == "call" {
			switch x.Callee {
			case "(*net/url.URL).String":
				if why := w.urlObj(x.Args[0]); why != "" {
					return why
				}
				continue
			case "net/url.JoinPath":
				ps, ok := w.consts(x.Args[1])
				if !w.envIs(x.Args[0], "HASURA_URL") || !ok || !isAPI(ps) {
					return "the address is not HASURA_URL with the path of an API"
				}
				continue
			}
		}
		for _, tm := range a.tmpls(x) {
			if len(tm) != 2 || tm[0].Hole == nil || tm[1].Lit == "" || !isAPI([]string{tm[1].Lit}) || !strings.HasPrefix(tm[1].Lit, "/") {
				return "the address is not HASURA_URL with the path of an API"
			}
			h := a.val(tm[0].Hole)
			if h == nil || h.Op != "call" || h.Callee != "strings.TrimRight" && h.Callee != "strings.TrimSuffix" {
				return "the address is not HASURA_URL with the path of an API"
			}
			if s, ok := h.Args[1].isConstString(); !ok || s != "/" || !w.envIs(h.Args[0], "HASURA_URL") && !w.parsedText(h.Args[0]) {
				return "the address is not HASURA_URL with the path of an API"
			}
		}
	}
	if n == 0 {
		return "the address is unknown"
	}
	return ""
}

func (w *World) parsedText(t *Term) bool {
	x := w.A.val(t)
	return x != nil && x.Op == "call" && x.Callee == "(*net/url.URL).String" && w.parsedURL(x.Args[0])
}

func (w *World) parsedURL(t *Term) bool {
	vs := w.A.values(t)
	for _, x := range vs {
		if x.Op == "res" && x.Idx == 0 && x.Args[0].Op == "call" && (x.Args[0].Callee == "net/url.Parse" || x.Args[0].Callee == "net/url.ParseRequestURI") && w.envIs(x.Args[0].Args[0], "HASURA_URL") {
			continue
		}
		return false
	}
	return len(vs) > 0
}

func (w *World) consts(t *Term) ([]string, bool) {
	els, ok := w.A.elements(t)
	if !ok {
		return nil, false
	}
	var res []string
	for _, e := range els {
		x := w.A.one(e)
		if x == nil {
			return nil, false
		}
		s, ok := x.isConstString()
		if !ok {
			return nil, false
		}
		res = append(res, s)
	}
	return res, true
}

func (w *World) urlObj(t *Term) string {
	a := w.A
	for _, x := range a.values(t) {
		if x.Op == "call" && x.Callee == "(*net/url.URL).JoinPath" {
			ps, ok := w.consts(x.Args[1])
			if !w.parsedURL(x.Args[0]) || !ok || !isAPI(ps) {
				return "the address is not HASURA_URL with the path of an API"
			}
			continue
		}
		if x.Op != "obj" {
			return "requests change the address shared by all requests, or it is unknown"
		}
		whole, path := 0, 0
		for f, recs := range a.heap[x] {
			for _, rec := range recs {
				if rec.Zero {
					continue
				}
				switch f {
				case "*":
					v := rec.Val
					if !w.loadsParsed(v) {
						return "the address is not that of HASURA_URL"
					}
					whole++
				case "Path":
					if !w.apiPath(rec.Val) {
						return "the path of the address is not HASURA_URL's with the path of an API"
					}
					path++
				default:
					if !w.parsedField(rec.Val, f) {
						return "the address differs from HASURA_URL in " + f
					}
				}
			}
		}
		if whole != 1 || path != 1 {
			return "the address is not that of HASURA_URL with the path of an API"
		}
	}
	return ""
}

func (w *World) loadsParsed(v *Term) bool {
	if v.Op == "load" {
		return w.parsedURL(v.Args[0])
	}
	for _, x := range w.A.values(v) {
		if x.Op == "load" && w.parsedURL(x.Args[0]) {
			return true
		}
		if x.Op == "field" && x.S == "*" && w.parsedURL(x.Args[0]) {
			return true
		}
	}
	return false
}

func (w *World) parsedField(v *Term, f string) bool {
	for _, x := range append([]*Term{v}, w.A.values(v)...) {
		if x.Op == "field" && x.S == f && w.parsedURL(x.Args[0]) {
			return true
		}
	}
	return false
}

// apiPath: path.Join of the base's path and an API's path.
func (w *World) apiPath(v *Term) bool {
	a := w.A
	vs := a.values(v)
	for _, x := range vs {
		var parts []*Term
		switch {
		case x.Op == "call" && (x.Callee == "path.Join"):
			els, ok := a.elements(x.Args[0])
			if !ok {
				return false
			}
			parts = els
		case x.Op == "binop" && x.S == "+":
			l := a.val(x.Args[0])
			if l == nil || l.Op != "call" || l.Callee != "strings.TrimRight" && l.Callee != "strings.TrimSuffix" {
				return false
			}
			if s, ok := l.Args[1].isConstString(); !ok || s != "/" {
				return false
			}
			parts = []*Term{l.Args[0], x.Args[1]}
		default:
			return false
		}
		if len(parts) < 2 || !w.basePath(parts[0]) {
			return false
		}
		var cs []string
		for _, p := range parts[1:] {
			o := a.one(p)
			if o == nil {
				return false
			}
			s, ok := o.isConstString()
			if !ok {
				return false
			}
			cs = append(cs, strings.Trim(s, "/"))
		}
		if !isAPI(cs) {
			return false
		}
	}
	return len(vs) > 0
}

// basePath: the path of HASURA_URL (read from the parsed URL or a copy of it before it is changed).
func (w *World) basePath(t *Term) bool {
	if w.parsedField(t, "Path") {
		return true
	}
	for _, x := range append([]*Term{t}, w.A.values(t)...) {
		if x.Op == "field" && x.S == "Path" {
			for _, rec := range w.A.heap[x.Args[0]]["*"] {
				if w.loadsParsed(rec.Val) {
					return true
				}
			}
		}
	}
	return false
}

const secretKey = "x-hasura-admin-secret"

// secretHeader: the request carries the admin secret.
func (w *World) secretHeader(c *Command, o *Op, req *Term) string {
	a := w.A
	isHeader := func(t *Term) bool {
		for _, x := range append([]*Term{t}, a.values(t)...) {
			if x.Op == "field" && x.S == "Header" && a.val(x.Args[0]) == req {
				return true
			}
		}
		return false
	}
	found := false
	why := "a request is sent without the admin secret"
	for _, e := range c.events {
		if e.Callee != "(net/http.Header).Set" && e.Callee != "(net/http.Header).Add" && e.Callee != "(net/http.Header).Del" || !isHeader(e.Args[0]) {
			continue
		}
		key := a.one(e.Args[1])
		hit := false
		if e.Callee == "(net/http.Header).Del" {
			return "the admin secret may be removed from a request"
		}
		if key != nil {
			if s, ok := key.isConstString(); ok && strings.EqualFold(s, secretKey) {
				if !w.envIs(e.Args[2], "HASURA_ADMIN_SECRET") {
					return "the admin secret sent is not HASURA_ADMIN_SECRET"
				}
				hit = true
			}
		}
		k := a.val(e.Args[1])
		v := e.Args[2]
		var lp *LoopCtx
		if k != nil && (k.Op == "mapkey" && v.Op == "elem" && k.Loop == v.Loop || (k.Op == "mapkey" || k.Op == "elem") && v.Op == "mapget" && a.val(v.Args[1]) == k) {
			from := k.Args[0]
			if v.Op == "mapget" {
				from = v.Args[0]
			}
			for _, m := range a.values(from) {
				if m.Op != "makemap" {
					continue
				}
				for _, rec := range a.heap[m]["[]"] {
					if s, ok := rec.Key.isConstString(); ok && strings.EqualFold(s, secretKey) {
						if !w.envIs(rec.Val, "HASURA_ADMIN_SECRET") {
							return "the admin secret sent is not HASURA_ADMIN_SECRET"
						}
						if ch := a.execChain(rec.In, rec.Fr, m.Fr, m.Val.(ssa.Instruction).Block()); len(ch.Conds) == 0 && len(ch.Loops) == 0 {
							hit = true
							lp = k.Loop
						}
					}
				}
			}
		}
		if !hit {
			continue
		}
		f := lca(e.Fr, o.Ev.Fr)
		if f == nil {
			continue
		}
		home := f.Fn.Blocks[0]
		ch := a.execChain(e.In, e.Fr, f, home)
		if len(ch.Conds) > 0 || lp == nil && len(ch.Loops) > 0 || lp != nil && (len(ch.Loops) != 1 || ch.Loops[0].Part || ch.Loops[0] != lp) {
			why = "the admin secret is set only in some cases"
			continue
		}
		// before it is sent
		_, x, y := w.at(e.Fr, e.In, o.Ev.Fr, o.Ev.In)
		if lp != nil && lp.L != nil && lp.Fr == f {
			if lp.L.Header.Dominates(y.Block()) && !lp.L.Blocks[y.Block()] {
				found = true
			}
		} else if instrDominates(x, y) {
			found = true
		}
		if !found {
			why = "the admin secret is set too late"
		}
	}
	for _, t := range []*Term{a.mk("field", "Header", 0, nil, req)} {
		for _, rec := range a.heap[t]["[]"] {
			if s, ok := rec.Key.isConstString(); ok && s == "X-Hasura-Admin-Secret" {
				els, ok := a.elements(rec.Val)
				_, x, y := w.at(rec.Fr, rec.In, o.Ev.Fr, o.Ev.In)
				if ok && len(els) == 1 && w.envIs(els[0], "HASURA_ADMIN_SECRET") && instrDominates(x, y) {
					found = true
				}
			}
		}
	}
	if found {
		return ""
	}
	return why
}
