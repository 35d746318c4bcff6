package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: what fails inside an operation makes the operation fail.

// failuresReported: each failed call during an operation means that the
// operation fails.
func failuresReported(s *scn, f *ssa.Function, from int, r *Term) {
	if s.st.g == tFalse {
		return
	}
	n := f.Signature.Results().Len()
	for _, e := range s.in.events[from:] {
		if !strings.HasPrefix(e.name, "failed:") || strings.HasPrefix(e.name, "failed:errors.") || e.name == "failed:fmt.Errorf" {
			continue // making an error is not a failure yet
		}
		if e.name == "failed:crypto/rand.Read" {
			continue // ends the program instead, since Go 1.24
		}
		g := and(s.st.g, and(e.g, asBoolT(e.res)))
		if g == tFalse {
			continue
		}
		q := s.p.prog.Fset.Position(e.pos)
		what := fmt.Sprintf("%s: %s fails when %s does, called in %s at %s:%d", s.name, relName(f), strings.TrimPrefix(e.name, "failed:"), e.where, relFile(q.Filename), q.Line)
		ok := false
		if n > 0 && isErr(f.Signature.Results().At(n-1).Type()) {
			amb = g
			g = witness(g, r, e.iter, map[*Term]bool{})
			amb = g
			ok = g == tFalse || simp(not(isNil(lastRes(simp(r, g)))), g) == tTrue
			amb = s.st.g
		} else if n > 0 {
			// an operation without an error result yields nothing then
			amb = g
			got, want := simp(lastRes(simp(r, g)), g), zeroOf(f.Signature.Results().At(n-1).Type())
			ok = got == want || simp(asBoolT(tEq(got, want)), g) == tTrue
			amb = s.st.g
		}
		s.quiet = false
		s.ob("failure.reported", what, e.pos, ok, func() string {
			return "the error is lost: the operation can go on and succeed" + debugText(g, r, e.iter)
		})
		s.quiet = true
	}
}

// witness adds to g what exists because it holds for one of the indices is.
func witness(g, t *Term, is []*Term, done map[*Term]bool) *Term {
	if len(is) == 0 {
		return g
	}
	var es []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OExists, OFilt:
			if !done[t] {
				es = append(es, t)
			}
			return
		case OGen, OFirst, OIter:
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	for _, e := range es {
		done[e] = true
		for n, i := range is {
			b := asBoolT(bindOpen(e.args[1], e.k, i))
			rest := append(append([]*Term{}, is[:n]...), is[n+1:]...)
			g2 := witness(g, b, rest, map[*Term]bool{})
			amb = g2
			if and(g2, not(and(b, asBoolT(le(addi(i, 1), e.args[0]))))) == tFalse {
				if e.op == OFilt {
					g = and(g2, asBoolT(le(tOne, tLen(e))))
					break
				}
				g = and(g2, asBDD(e))
				amb = g
				g = and(g, asBoolT(bindOpen(e.args[1], e.k, mk(&Term{op: OFirst, k: e.k, args: e.args}))))
				break
			}
		}
		amb = g
	}
	return g
}

var fromParts = []string{
	"state/record.NewUnackPreKeyMessageItemsFromStruct",
	"state/record.NewPendingPreKeyFromStruct",
	"state/record.NewPreKeyFromStruct",
	"state/record.NewSignedPreKeyFromStruct",
	"state/record.NewStateFromStructure",
	"state/record.NewChainFromStructure",
	"groups/state/record.NewSenderKeyStateFromStructure",
	"protocol.NewSignalMessageFromStruct",
	"protocol.NewPreKeySignalMessageFromStruct",
	"protocol.NewSenderKeyMessageFromStruct",
	"protocol.NewSenderKeyDistributionMessageFromStruct",
}

func c33(c *ctx) {
	if k := c.p.byP["util/errorhelper"]; k != nil && k.Func("NewMultiError") != nil {
		c.scenario("several errors", severalErrors)
	}
	c.quiet = true
	c.called = failuresReported
	c.everything()
	// what is built from the parts of a record or message, each on its own
	for _, n := range fromParts {
		n := n
		c.scenario(n+" on unknown inputs", func(s *scn) {
			f := s.fn(n)
			var a []*Term
			for _, p := range f.Params {
				v := inputValue(p.Name(), p.Type(), nil, false, false)
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					s.assume(not(isNil(v)))
				}
				a = append(a, v)
			}
			s.callFn(f, n, a...)
		})
	}
	c.quiet, c.called = false, nil
}

func init() {
	reg("C33", 60, "each call that can fail during an operation on unknown inputs", c33)
}

func debugText(g, r *Term, is []*Term) string {
	if os.Getenv("VERIF_STACK") == "" {
		return ""
	}
	return fmt.Sprint(len(is)) + "\n  when " + dag(g, 1500) + "\n  result " + dag(simp(lastRes(r), g), 9000)
}

// severalErrors: of several errors kept together, the first is told.
func severalErrors(s *scn) {
	m := s.call("util/errorhelper.NewMultiError")
	s.holds("errors.several", "none at first", not(asBoolT(s.method(m, "HasErrors"))))
	s.method(m, "Add", tNil)
	s.holds("errors.several", "nil is no error", not(asBoolT(s.method(m, "HasErrors"))))
	e1, e2 := res(s.call("ecc.DecodePoint", s.slice(tBytes("")), tZero), 1), res(s.call("ecc.DecodePoint", s.slice(tCat(tBytes("\x06"), tRep(tZero, tInt(32)))), tZero), 1)
	text := func(what string) {
		s.eq("errors.several", what, s.method(m, "Error"), fnL("errtext", e1))
	}
	s.method(m, "Add", e1)
	s.holds("errors.several", "one", asBoolT(s.method(m, "HasErrors")))
	text("the text of the one")
	s.method(m, "Add", tNil)
	s.method(m, "Add", e2)
	s.holds("errors.several", "two", asBoolT(s.method(m, "HasErrors")))
	text("the text of the first")
}
