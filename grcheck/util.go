package main

import (
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pkgPathOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

func sortFuncs(p *Program) {
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.SSA.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		ps.Filename = r
	}
	return ps.String()
}

func sortStrings(s []string) { sort.Strings(s) }

func reflectTag(tag, key string) string { return reflect.StructTag(tag).Get(key) }

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
