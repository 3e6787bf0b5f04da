package main

import "golang.org/x/tools/go/ssa"

func (in *Interp) tryFold(fr *frame, l *loop, cur *pending, it int) map[*ssa.BasicBlock]*pending {
	return nil
}
