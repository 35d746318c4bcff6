package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: what reaches a log, the standard output or the text of an error.

func isSink(name string) bool {
	return strings.HasPrefix(name, "log:") || name == "print" || name == "errors.New" || name == "fmt.Errorf" || name == "panic"
}

// shown collects the parts of a value that are readable when it is printed:
// pointers below the top are printed as addresses.
func shown(v *Term, typ types.Type, depth int, exported bool, out func(*Term)) {
	leaves(v, tTrue, func(v, _ *Term) {
		switch v.op {
		case ONil, OTrue, OFalse, OFunc, OInt, OLin, OLe, OEq, OIsNil, OExists:
			return
		case OIface:
			shown(v.args[0], v.typ, depth, exported, out)
			return
		}
		if typ == nil {
			out(v)
			return
		}
		if (depth == 0 || exported) && printsItself(typ) {
			out(v)
			return
		}
		switch u := typ.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				out(v)
			}
		case *types.Pointer:
			if v.op != OObj {
				if depth == 0 && v.op != OPtr && v.op != OFAddr && v.op != OIAddr {
					out(v)
				}
				return
			}
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				if depth == 0 {
					shown(v.args[0], u.Elem(), depth+1, exported, out)
				}
			}
		case *types.Struct:
			if v.op != OStruct || len(v.args) != u.NumFields() {
				out(v)
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				shown(v.args[i], u.Field(i).Type(), depth+1, exported && u.Field(i).Exported(), out)
			}
		case *types.Slice:
			q := v
			if v.op == OSeqv {
				q = v.args[1]
			}
			shownSeq(q, u.Elem(), depth, exported, out)
		case *types.Array:
			shownSeq(v, u.Elem(), depth, exported, out)
		case *types.Chan, *types.Signature:
		case *types.Interface:
			if v.op == OObj {
				return // an address, below the top
			}
			if depth == 0 || exported {
				out(v)
			}
		default:
			out(v)
		}
	})
}

func shownSeq(q *Term, elem types.Type, depth int, exported bool, out func(*Term)) {
	switch u := elem.Underlying().(type) {
	case *types.Basic:
		if k := u.Kind(); k == types.Uint8 || k == types.Int8 || u.Info()&types.IsString != 0 || u.Info()&types.IsInteger != 0 {
			out(q)
		}
		return
	case *types.Pointer:
		if !exported || !printsItself(elem) {
			return
		}
	}
	switch q.op {
	case OUnit:
		shown(q.args[0], elem, depth+1, exported, out)
	case OCat:
		for _, p := range q.args {
			shownSeq(p, elem, depth, exported, out)
		}
	case OIte:
		leaves(q, tTrue, func(q, _ *Term) { shownSeq(q, elem, depth, exported, out) })
	case OBytes:
	default:
		out(q)
	}
}

// printsItself: fmt calls a method of the value.
func printsItself(t types.Type) bool {
	for _, n := range []string{"Error", "String", "Format", "GoString"} {
		for i, ms := 0, types.NewMethodSet(t); i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

// the names of inputs that hold secrets, by the fields they are reached through
var secretPath = regexp.MustCompile(`(?i)(private|privkey|rootkey|chainkey|cipherkey|mackey|messagekey|keymaterial|secret|plaintext|seed)|\.key$|\.iv$|\.keys\[`)
var publicPath = regexp.MustCompile(`(?i)(public|version|index|iteration|keyid|registrationid|timestamp|signature|remoteidentity|senderbasekey)[a-z]*$`)

// secretIn finds a secret in a printed value.
func secretIn(t *Term, seen map[*Term]bool) string {
	if t == nil || seen[t] {
		return ""
	}
	seen[t] = true
	switch t.op {
	case OInt, OLin, OTrue, OFalse, OLe, OEq, OIsNil, OExists, OFirst, OBound, OBytes, ONil, OFunc:
		return ""
	case OIte:
		for _, a := range t.args[1:] {
			if s := secretIn(a, seen); s != "" {
				return s
			}
		}
		return ""
	case OSub:
		if h := t.args[0]; h.op == OFn && strings.HasPrefix(h.name, "hmac:") {
			return secretIn(h, seen)
		}
		return secretIn(t.args[0], seen)
	case OFn:
		n := t.name
		switch {
		case isInt(t) || boolFns[n]:
			return ""
		case n == "x25519base" || n == "cbcenc" || n == "errtext" || strings.HasPrefix(n, "error:") || strings.HasPrefix(n, "edw") || strings.Contains(n, "edwards25519"):
			return ""
		case n == "cbcdec":
			return "decrypted text"
		case strings.HasPrefix(n, "x25519"):
			return "an agreed secret"
		case n == "hkdf":
			return "a derived key"
		case strings.HasPrefix(n, "hmac:"):
			if d := t.args[1]; d.op == OBytes {
				return "a key derived from a chain key" // not a code for a message
			}
			return ""
		case strings.HasPrefix(n, "rnd:"):
			return "fresh random bytes"
		case strings.HasPrefix(n, "fmt."):
			r := ""
			for _, a := range t.args {
				var typ types.Type
				if a.op == OSeqv {
					typ = types.NewSlice(types.NewInterfaceType(nil, nil))
				}
				if typ == nil {
					continue
				}
				for _, p := range elementsOf(a.args[1]) {
					shown(p, nil, 0, true, func(x *Term) {
						if s := secretIn(x, seen); s != "" {
							r = s
						}
					})
				}
			}
			return r
		case strings.HasPrefix(n, "in:"):
			if secretPath.MatchString(n) && !publicPath.MatchString(n) {
				return n
			}
		case strings.HasPrefix(n, "ser:"):
			switch k := strings.TrimPrefix(n, "ser:"); {
			case strings.HasPrefix(k, "protocol.SignalMessage"), strings.HasPrefix(k, "protocol.PreKeySignalMessage"), strings.HasPrefix(k, "protocol.SenderKeyMessage"):
			default:
				return "what " + k + " yields"
			}
			return ""
		}
	}
	for _, a := range t.args {
		if s := secretIn(a, seen); s != "" {
			return s
		}
	}
	return ""
}

// elementsOf are the elements of a sequence, as far as they are known.
func elementsOf(q *Term) []*Term {
	var r []*Term
	switch q.op {
	case OUnit:
		return q.args
	case OCat:
		for _, p := range q.args {
			r = append(r, elementsOf(p)...)
		}
	case OIte:
		r = append(elementsOf(q.args[1]), elementsOf(q.args[2])...)
	default:
		if q != tEmpty {
			r = []*Term{q}
		}
	}
	return r
}

// printed checks everything that the analysed code hands to a log.
func (s *scn) printed(reached map[string]bool) {
	amb = tTrue
	for _, e := range s.in.events {
		if !isSink(e.name) {
			continue
		}
		q := s.p.prog.Fset.Position(e.pos)
		reached[fmt.Sprintf("%s:%d", relFile(q.Filename), q.Line)] = true
		if simp(e.g, tTrue) == tFalse {
			continue
		}
		bad := ""
		look := func(v *Term) {
			if os.Getenv("VERIF_LOGS") != "" {
				fmt.Printf("%s:%d %s %s\n", relFile(q.Filename), q.Line, e.name, dag(v, 160))
			}
			if x := secretIn(v, map[*Term]bool{}); x != "" {
				bad = x
			}
		}
		for _, a := range e.args {
			d := shallow(e.h, simp(a, e.g))
			leaves(d, tTrue, func(d, _ *Term) {
				if d.op == OSeqv {
					for _, p := range elementsOf(d.args[1]) {
						leaves(p, tTrue, func(p, _ *Term) {
							if p.op == OIface {
								shown(p.args[0], p.typ, 0, true, look)
							} else {
								look(p)
							}
						})
					}
					return
				}
				if d.op == OIface {
					shown(d.args[0], d.typ, 0, true, look)
					return
				}
				look(d)
			})
		}
		s.quiet = false
		s.ob("printed", fmt.Sprintf("%s: %s at %s:%d", s.name, e.name, relFile(q.Filename), q.Line), e.pos, bad == "", func() string { return "shows " + bad })
		s.quiet = true
	}
}

// sinkSites are all places in the module that print, log or make error texts.
func (p *program) sinkSites() map[string]ssa.CallInstruction {
	r := map[string]ssa.CallInstruction{}
	mod := map[*ssa.Package]bool{}
	for _, k := range p.mod {
		mod[k] = true
	}
	for f := range p.all {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg == nil || !mod[top.Pkg] || p.isGenerated(f) || top.Pkg.Pkg.Path() == modPath+"/logger" || strings.HasPrefix(p.fileOf(f), "serialize/protocol_fingerprint") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := ""
				if g := c.Common().StaticCallee(); g != nil {
					n = g.String()
				} else if x, ok := c.Common().Value.(*ssa.Builtin); ok {
					n = x.Name()
				}
				if strings.HasPrefix(n, "fmt.Fprint") && len(c.Common().Args) > 0 {
					// text made in a buffer is not printed
					if w, ok := c.Common().Args[0].(*ssa.MakeInterface); ok && bufField(w.X.Type()) >= 0 {
						continue
					}
				}
				switch {
				case strings.HasPrefix(n, modPath+"/logger."), strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"), n == "fmt.Errorf",
					strings.HasPrefix(n, "log."), strings.HasPrefix(n, "(*log.Logger)"), n == "errors.New", n == "print", n == "println":
					q := p.prog.Fset.Position(i.Pos())
					r[fmt.Sprintf("%s:%d", relFile(q.Filename), q.Line)] = c
				}
			}
		}
	}
	return r
}

// harmless: a value that shows no secret, whatever happens: a constant, a
// number, a truth value or an error.
func harmless(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return harmless(x.X, depth+1)
	case *ssa.ChangeInterface:
		return harmless(x.X, depth+1)
	case *ssa.BinOp:
		if x.Op == token.ADD && harmless(x.X, depth+1) && harmless(x.Y, depth+1) {
			return true
		}
	case *ssa.Call:
		// a number written out
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool":
				return true
			}
		}
	}
	if p, ok := v.(*ssa.Parameter); ok && harmlessParam(p, depth) {
		return true
	}
	t := v.Type()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString == 0
}

// harmlessParam: an unexported function gets harmless values only.
func harmlessParam(p *ssa.Parameter, depth int) bool {
	f := p.Parent()
	if f.Object() == nil || f.Object().Exported() || theProgram == nil || f.Signature.Recv() != nil {
		return false
	}
	n, k := 0, -1
	for i, q := range f.Params {
		if q == p {
			k = i
		}
	}
	for g := range theProgram.all {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if ok && c.Common().StaticCallee() == f {
					n++
					if !harmless(c.Common().Args[k], depth+1) {
						return false
					}
					continue
				}
				for _, o := range i.Operands(nil) {
					if *o == ssa.Value(f) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// theProgram is what is being analysed.
var theProgram *program

// harmlessArgs looks at the values of a call, those of a variable list too.
func harmlessArgs(c ssa.CallInstruction) bool {
	for _, a := range c.Common().Args {
		if harmless(a, 0) {
			continue
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			return false
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, u := range *ia.Referrers() {
				if s, ok := u.(*ssa.Store); ok && !harmless(s.Val, 0) {
					return false
				}
			}
		}
	}
	return true
}

func c21(c *ctx) {
	reached := map[string]bool{}
	c.quiet = true
	c.after = func(s *scn) { s.printed(reached) }
	c.everything()
	theProgram = c.p
	sites := c.p.sinkSites()
	tried := map[*ssa.Function]bool{}
	for k, x := range sites {
		f := x.Parent()
		for f.Parent() != nil {
			f = f.Parent()
		}
		if reached[k] || tried[f] || harmlessArgs(x) {
			continue
		}
		tried[f] = true
		bad, nOb, rules := len(c.bad), c.nOb, c.rules["decided"]
		c.scenario(relName(f)+" on unknown inputs", func(s *scn) {
			var a []*Term
			for _, p := range f.Params {
				v := inputValue(p.Name(), p.Type(), nil, false, false)
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					s.assume(not(isNil(v)))
				}
				a = append(a, v)
			}
			s.callFn(f, relName(f), a...)
		})
		if len(c.bad) > bad && c.bad[len(c.bad)-1].Rule == "decided" {
			// the site stays one that was not looked at
			c.bad, c.nOb, c.rules["decided"] = c.bad[:bad], nOb, rules
		}
	}
	c.quiet, c.after = false, nil
	var ks []string
	for k := range sites {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if reached[k] {
			c.ob("printed.site", "what is printed at "+k+" was looked at", token.NoPos, true, nil)
			continue
		}
		x := sites[k]
		c.ob("printed.site", "what is printed at "+k, x.Pos(), harmlessArgs(x), func() string {
			return "a value is printed where no analysed path leads, and it is more than a constant, a number or an error"
		})
	}
}

// everything runs the operations of the library on unknown inputs, for rules
// that look at all that happens.
func (c *ctx) everything() {
	c15(c)
	c15use(c)
	c22(c)
	c20(c)
	c24(c)
	c01(c)
	c02(c)
	eff := c.decryptEffects()
	for _, fresh := range []bool{true, false} {
		fresh := fresh
		for _, kind := range offers {
			kind := kind
			c.scenario(fmt.Sprint("process a bundle: ", kind, fresh), func(s *scn) { s.offer(kind, fresh) })
		}
		c.scenario(fmt.Sprint("process a prekey message: ", fresh), func(s *scn) { s.process(fresh) })
	}
	_ = eff
	c.scenario("create a group session", func(s *scn) {
		x := s.group()
		s.method(x.builder, "Create", x.name)
	})
	for _, k := range serializerStructs {
		k := k
		for _, kind := range serializerKinds {
			if kind == "any" {
				continue
			}
			kind := kind
			c.scenario("serializer "+kind+" of "+k.field, func(s *scn) {
				ser := s.serializerOf(kind, k.field, k.build, 1)
				v := s.input("structure", "*"+k.typ)
				s.assume(not(isNil(v)))
				s.method(ser, "Serialize", v)
				s.method(ser, "Deserialize", s.input(dataName(k.field), "[]byte"))
			})
		}
	}
}

var serializerStructs = []struct{ field, build, typ string }{
	{"SignalMessage", "protocol.NewSignalMessageFromBytes", "protocol.SignalMessageStructure"},
	{"PreKeySignalMessage", "protocol.NewPreKeySignalMessageFromBytes", "protocol.PreKeySignalMessageStructure"},
	{"SenderKeyMessage", "protocol.NewSenderKeyMessageFromBytes", "protocol.SenderKeyMessageStructure"},
	{"SenderKeyDistributionMessage", "protocol.NewSenderKeyDistributionMessageFromBytes", "protocol.SenderKeyDistributionMessageStructure"},
	{"PreKeyRecord", "state/record.NewPreKeyFromBytes", "state/record.PreKeyStructure"},
	{"SignedPreKeyRecord", "state/record.NewSignedPreKeyFromBytes", "state/record.SignedPreKeyStructure"},
	{"Session", "state/record.NewSessionFromBytes", "state/record.SessionStructure"},
	{"State", "state/record.NewStateFromBytes", "state/record.StateStructure"},
	{"SenderKeyRecord", "groups/state/record.NewSenderKeyFromBytes", "groups/state/record.SenderKeyStructure"},
	{"SenderKeyState", "groups/state/record.NewSenderKeyStateFromBytes", "groups/state/record.SenderKeyStateStructure"},
}

func init() {
	reg("C21", 60, "all that the operations hand to the logger, the standard output or an error text, on unknown inputs; every other call site that prints", c21)
}
