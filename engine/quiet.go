package main

// A branch whose body does nothing but write a log line and then joins the other
// side has no effect on the program: it is skipped without forking. Its operands
// are locals, constants and values computed before the branch, so nothing in it
// can panic.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func quietFunc(f *ssa.Function, depth int) bool {
	if f == nil || f.Pkg == nil || depth > 3 {
		return false
	}
	p := f.Pkg.Pkg.Path()
	if p == "log" {
		return strings.HasPrefix(f.Name(), "Print") && f.Signature.Recv() == nil
	}
	if strings.HasSuffix(p, "transcriptaze/midiasm/log") {
		switch f.Name() {
		case "Debugf", "Infof", "Warnf", "Errorf":
			return true
		}
		return false
	}
	if len(f.Blocks) != 1 || f.Signature.Results().Len() > 0 {
		return false
	}
	return quietInstrs(f.Blocks[0], depth)
}

// localAddr: the address of a variable, or of a part of one.
func localAddr(v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(a.X)
	case *ssa.IndexAddr:
		if _, ok := a.Index.(*ssa.Const); ok {
			_, ok := a.X.(*ssa.Alloc)
			return ok
		}
	}
	return false
}

func quietInstrs(b *ssa.BasicBlock, depth int) bool {
	calls := 0
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.DebugRef, *ssa.Alloc, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Jump, *ssa.Return, *ssa.Field:
		case *ssa.Convert:
		case *ssa.FieldAddr:
			if !localAddr(i) {
				return false
			}
		case *ssa.IndexAddr:
			if !localAddr(i) {
				return false
			}
		case *ssa.UnOp:
			if i.Op != token.MUL || !localAddr(i.X) {
				return false
			}
		case *ssa.Store:
			// the argument list of the call
			a, ok := i.Addr.(*ssa.IndexAddr)
			if !ok || !localAddr(a) {
				return false
			}
			if al, ok := a.X.(*ssa.Alloc); !ok || al.Block() != b {
				return false
			}
		case *ssa.Slice:
			if _, ok := i.X.(*ssa.Alloc); !ok || i.Low != nil || i.High != nil {
				return false
			}
		case *ssa.Call:
			if i.Call.IsInvoke() || !quietFunc(i.Call.StaticCallee(), depth+1) {
				return false
			}
			calls++
		default:
			return false
		}
	}
	return calls > 0
}

// quietSkip is the index of the successor an If may go to whatever its condition,
// or -1.
func quietSkip(in *ssa.If) int {
	b := in.Block()
	for k := 0; k < 2; k++ {
		body, join := b.Succs[k], b.Succs[1-k]
		if len(body.Preds) != 1 || len(body.Succs) != 1 || body.Succs[0] != join || body == join {
			continue
		}
		if len(join.Instrs) > 0 {
			if _, ok := join.Instrs[0].(*ssa.Phi); ok {
				continue
			}
		}
		if quietInstrs(body, 0) {
			return 1 - k
		}
	}
	return -1
}
