package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (w *World) assumption(s string) {
	w.mu.Lock()
	w.usedAssumptions[s] = true
	w.mu.Unlock()
}

func (w *World) noteInlined(fn string, f *ssa.Function) {
	w.mu.Lock()
	if w.inlined[fn] == nil {
		w.inlined[fn] = map[string]bool{}
	}
	w.inlined[fn][f.RelString(f.Pkg.Pkg)] = true
	w.mu.Unlock()
}

func (w *World) noteCall(fn string, c *Contract) {
	w.mu.Lock()
	if w.calledContracts[fn] == nil {
		w.calledContracts[fn] = map[string]bool{}
	}
	w.calledContracts[fn][c.Name] = true
	w.mu.Unlock()
}

func (w *World) noteExternal(name string) {
	w.mu.Lock()
	w.externals[name] = true
	w.mu.Unlock()
}

// ghostType replaces library types by the prelude's model of them.
func (w *World) ghostType(t types.Type) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	name := ""
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bufio.Reader":
		name = "ghostReader"
	case "bytes.Buffer", "strings.Builder":
		name = "ghostBuffer"
	default:
		return nil
	}
	o := w.pkgs["root"].Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (w *World) isGhostReader(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "ghostReader"
}

func (w *World) isGhostBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "ghostBuffer"
}

func (w *World) ownedPtr(elem types.Type) bool {
	n, ok := types.Unalias(elem).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bufio" && n.Obj().Name() == "Reader"
}
