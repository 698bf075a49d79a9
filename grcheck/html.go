package main

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rendering is one execution of an HTML template.
type Rendering struct {
	Ev   *Event
	Text string // template source
	Data *Term
	Out  *Term
	Pkg  string // html/template or text/template
}

// renderings lists the template executions of a command.
func (w *World) renderings(c *Command) []*Rendering {
	var res []*Rendering
	a := w.A
	for _, e := range c.events {
		for _, pkg := range []string{"html/template", "text/template"} {
			pre := "(*" + pkg + ".Template)."
			if e.Callee != pre+"Execute" && e.Callee != pre+"ExecuteTemplate" {
				continue
			}
			r := &Rendering{Ev: e, Out: e.Args[1], Data: e.Args[len(e.Args)-1], Pkg: pkg}
			a.reach(e.Args[0], func(x *Term) bool {
				if x.Op == "call" && x.Callee == pre+"Parse" && len(x.Args) > 1 {
					for _, t := range a.tmpls(x.Args[1]) {
						if s, ok := t.isConst(); ok {
							r.Text += s
						} else {
							r.Text += t.String()
						}
					}
				}
				return true
			})
			res = append(res, r)
		}
	}
	return res
}

var grParamReg = regexp.MustCompile(`window\.grParam\s*=\s*\{\{\s*\.(\w+)\s*\}\}`)

// reportRoots: the values assigned to window.grParam in the reports of a command.
func (w *World) reportRoots(c *Command) []*Term {
	var res []*Term
	for _, r := range w.renderings(c) {
		m := grParamReg.FindStringSubmatch(r.Text)
		if m == nil {
			continue
		}
		if v := w.A.member(r.Data, m[1]); v != nil {
			res = append(res, w.A.unmarshalled(v))
		}
	}
	return res
}

// unmarshalled: the value behind json.Marshal and conversions of its result.
func (a *Analysis) unmarshalled(t *Term) *Term {
	x := a.one(t)
	for x != nil && x.Op == "conv" {
		x = a.one(x.Args[0])
	}
	if x != nil && x.Op == "res" && x.Idx == 0 && x.Args[0].Op == "call" && strings.HasPrefix(x.Args[0].Callee, "encoding/json.Marshal") {
		return x.Args[0].Args[0]
	}
	if v, _ := a.encodedText(x); v != nil {
		return v
	}
	return t
}

// encodedText: the value whose JSON text a buffer holds, when an encoder is all that writes to it.
func (a *Analysis) encodedText(x *Term) (v *Term, escaped bool) {
	if x == nil || x.Op != "call" || len(x.Args) == 0 {
		return nil, false
	}
	switch x.Callee {
	case "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*strings.Builder).String":
	default:
		return nil, false
	}
	objs := a.resolve(x.Args[0])
	if len(objs) != 1 {
		return nil, false
	}
	encs := map[*Term]bool{}
	for _, e := range a.Events {
		if e.Callee == "encoding/json.NewEncoder" {
			for _, o := range a.resolve(e.Args[0]) {
				if o == objs[0] {
					encs[e.Call] = true
				}
			}
			continue
		}
		for _, y := range e.Args {
			if strings.HasPrefix(e.Callee, "(*bytes.Buffer).Write") || strings.HasPrefix(e.Callee, "(*bytes.Buffer).Read") ||
				strings.HasPrefix(e.Callee, "(*strings.Builder).Write") || strings.HasPrefix(e.Callee, "fmt.Fprint") {
				for _, o := range a.resolve(y) {
					if o == objs[0] {
						return nil, false
					}
				}
			}
		}
	}
	escaped = true
	for _, e := range a.Events {
		if !strings.HasPrefix(e.Callee, "(*encoding/json.Encoder).") {
			continue
		}
		mine := false
		for _, enc := range a.resolve(e.Args[0]) {
			mine = mine || encs[enc]
		}
		if !mine {
			continue
		}
		switch {
		case strings.HasSuffix(e.Callee, ".Encode"):
			if v != nil && v != e.Args[1] {
				return nil, false
			}
			v = e.Args[1]
		case strings.HasSuffix(e.Callee, ".SetEscapeHTML"):
			if b, ok := e.Args[1].isConstBool(); !ok || !b {
				escaped = false
			}
		}
	}
	return v, escaped
}

// member: what .name means in a template for this data.
func (a *Analysis) member(t *Term, name string) *Term {
	var vs []*Term
	for _, x := range a.resolve(t) {
		if x.Op == "makemap" {
			for _, r := range a.heap[x]["[]"] {
				if k, ok := r.Key.isConstString(); ok && k == name {
					vs = append(vs, r.Val)
				}
			}
			continue
		}
		if structOf(x.T) != nil {
			vs = append(vs, a.field(x, name))
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return a.alts(vs...)
}

// jsonAt follows a path of JSON members ("a.b.c").
func (a *Analysis) jsonAt(t *Term, path string) *Term {
	for _, p := range strings.Split(path, ".") {
		if t == nil {
			return nil
		}
		t = a.jsonFields(t)[p]
	}
	return t
}

var _ ssa.Value
