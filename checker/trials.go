package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trial functions: what decrypts a message with one session state.
// DecryptWithState is one; so is any function of the same kind that the
// decryption with a record reaches without passing through it. All of them are
// held to the same rules, and stood for in the same way.

const mainTrial = "session.Cipher.DecryptWithState"

func (p *program) trials() []*ssa.Function {
	main := p.fnNamed(mainTrial)
	r := []*ssa.Function{main}
	seen := map[*ssa.Function]bool{main: true}
	var todo []*ssa.Function
	for _, n := range []string{"DecryptWithRecord", "DecryptMessageReturnKey", "DecryptAndGetKey"} {
		todo = append(todo, p.fnNamed("session.Cipher."+n))
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if p.isTrial(f) && !p.reaches(f, main) {
			r = append(r, f)
			continue
		}
		todo = append(todo, p.callees(f)...)
	}
	return r
}

// callees are the functions of the same module that a function names.
func (p *program) callees(f *ssa.Function) (r []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if g, ok := (*o).(*ssa.Function); ok && g.Pkg == f.Pkg && g.Pkg != nil {
					r = append(r, g)
				}
			}
		}
	}
	return
}

func (p *program) reaches(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == g {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, h := range p.callees(f) {
			if walk(h) {
				return true
			}
		}
		return false
	}
	return walk(f)
}

// trialArgs are the places of the cipher, the state and the message among a
// function's values, -1 for none.
func trialArgs(f *ssa.Function) (cipher, state, msg int, ok bool) {
	cipher, state, msg = -1, -1, -1
	for i, q := range f.Params {
		var at *int
		switch strings.ReplaceAll(q.Type().String(), modPath+"/", "") {
		case "*session.Cipher", "session.Cipher":
			at = &cipher
		case "*state/record.State":
			at = &state
		case "*protocol.SignalMessage":
			at = &msg
		default:
			return cipher, state, msg, false
		}
		if *at >= 0 {
			return cipher, state, msg, false
		}
		*at = i
	}
	return cipher, state, msg, state >= 0 && msg >= 0
}

func (p *program) isTrial(f *ssa.Function) bool {
	if _, _, _, ok := trialArgs(f); !ok || f.Parent() != nil {
		return false
	}
	a, b := f.Signature.Results(), p.fnNamed(mainTrial).Signature.Results()
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !types.Identical(a.At(i).Type(), b.At(i).Type()) {
			return false
		}
	}
	return true
}

// withTrials repeats a rule for every trial function.
func withTrials(f func(c *ctx)) func(c *ctx) {
	return func(c *ctx) {
		for i, t := range c.p.trials() {
			c.trial = t
			if i > 0 {
				c.trialNote = " by " + relName(t)
			}
			f(c)
		}
		c.trial, c.trialNote = nil, ""
	}
}

// tryWith decrypts with the trial function that is looked at.
func (s *scn) tryWith(cipher, st, msg *Term) *Term {
	f := s.trial
	if f == nil {
		f = s.fn(mainTrial)
	}
	ci, si, mi, ok := trialArgs(f)
	if !ok {
		panic(undecided("the values " + relName(f) + " takes"))
	}
	a := make([]*Term, len(f.Params))
	a[si], a[mi] = st, msg
	if ci >= 0 {
		a[ci] = cipher
		if _, ok := f.Params[ci].Type().Underlying().(*types.Struct); ok {
			a[ci] = load(s.st.h, cipher)
		}
	}
	return s.callFn(f, relName(f), a...)
}
