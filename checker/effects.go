package main

// What functions write, and to whose memory: an interprocedural effect
// analysis over the SSA form of every function of the module, without regard
// to the order of instructions. An origin says whose memory a value refers to.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origins is a set: bit 0 for memory of package variables, bit 1+i for memory
// reachable from parameter i (then from the free variables).
type origins uint64

const global origins = 1

func paramBit(i int) origins {
	if i > 60 {
		return 0
	}
	return 2 << uint(i)
}

type effSummary struct {
	ret     []origins          // of each result
	writes  origins            // memory written
	appends origins            // memory appended to: written where a capacity is left
	fields  map[string]origins // stored into a field of a type, or into elements of a type
}

type effSite struct {
	f     *ssa.Function
	i     ssa.Instruction
	what  string
	app   bool
	glob  map[*ssa.Global]bool
	value ssa.Value
}

type effAnalysis struct {
	p       *program
	fns     []*ssa.Function
	sum     map[*ssa.Function]*effSummary
	val     map[ssa.Value]origins
	field   map[string]bool // may hold memory of package variables
	changed bool
	sites   map[string]*effSite
	calls   int
	writes  int
	callers map[*ssa.Function][]ssa.CallInstruction
	byName  map[string][]*ssa.Function // methods, by name and signature
	taken   []*ssa.Function            // functions used as values
	onlyIni map[*ssa.Function]bool
	final   bool
	shared  map[*ssa.Function][]*effSite // changes of shareable values
}

// refers reports whether values of a type can refer to memory.
func refers(t types.Type) bool { return refersD(t, 0) }

func refersD(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refersD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refersD(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (p *program) effects() *effAnalysis {
	a := &effAnalysis{p: p, sum: map[*ssa.Function]*effSummary{}, val: map[ssa.Value]origins{}, field: map[string]bool{},
		sites: map[string]*effSite{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, byName: map[string][]*ssa.Function{}, onlyIni: map[*ssa.Function]bool{}, shared: map[*ssa.Function][]*effSite{}}
	mod := map[*ssa.Package]bool{}
	for _, k := range p.mod {
		mod[k] = true
	}
	inMod := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Pkg != nil && mod[f.Pkg]
	}
	for f := range p.all {
		if f.Blocks != nil && (inMod(f) || f.Pkg == nil && f.Synthetic != "" && a.wraps(f, mod)) {
			a.fns = append(a.fns, f)
		}
	}
	sort.Slice(a.fns, func(i, j int) bool {
		x, y := a.fns[i], a.fns[j]
		if x.String() != y.String() {
			return x.String() < y.String()
		}
		return x.Pos() < y.Pos()
	})
	for _, f := range a.fns {
		a.sum[f] = &effSummary{fields: map[string]origins{}}
	}
	isTaken := map[*ssa.Function]bool{}
	for _, f := range a.fns {
		if f.Signature.Recv() != nil {
			a.byName[f.Name()] = append(a.byName[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee ssa.Value
				if c, ok := i.(ssa.CallInstruction); ok {
					callee = c.Common().Value
					if g := c.Common().StaticCallee(); g != nil {
						a.callers[g] = append(a.callers[g], c)
					}
				}
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && ssa.Value(g) != callee && a.sum[g] != nil && !isTaken[g] {
						isTaken[g] = true
						a.taken = append(a.taken, g)
					}
				}
			}
		}
	}
	// functions that run only while packages are initialised
	ini := func(f *ssa.Function) bool {
		return f.Parent() == nil && (f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#"))
	}
	for _, f := range a.fns {
		a.onlyIni[f] = true
	}
	for again := true; again; {
		again = false
		for _, f := range a.fns {
			if !a.onlyIni[f] || ini(f) {
				continue
			}
			only := f.Parent() != nil && a.onlyIni[f.Parent()]
			if f.Parent() == nil && !isTaken[f] && f.Object() != nil && !f.Object().Exported() && f.Signature.Recv() == nil && len(a.callers[f]) > 0 {
				only = true
				for _, c := range a.callers[f] {
					if !a.onlyIni[c.Parent()] {
						only = false
					}
				}
			}
			if !only {
				a.onlyIni[f] = false
				again = true
			}
		}
	}
	for n := 0; ; n++ {
		a.changed = false
		a.pass()
		if !a.changed {
			break
		}
		if n > 200 {
			panic(undecided("the effect analysis does not settle"))
		}
	}
	a.final = true
	a.calls, a.writes = 0, 0
	a.pass()
	return a
}

// wraps: a wrapper of a method of the module.
func (a *effAnalysis) wraps(f *ssa.Function, mod map[*ssa.Package]bool) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && mod[g.Pkg] {
					return true
				}
			}
		}
	}
	return false
}

func (a *effAnalysis) get(v ssa.Value) origins {
	switch v := v.(type) {
	case *ssa.Global:
		return global
	case *ssa.Const, *ssa.Builtin:
		return 0
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return paramBit(i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				return paramBit(len(v.Parent().Params) + i)
			}
		}
	}
	return a.val[v]
}

func (a *effAnalysis) set(v ssa.Value, o origins) {
	if o == 0 || v == nil {
		return
	}
	if !refers(v.Type()) {
		if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
			return
		}
	}
	if a.val[v]|o != a.val[v] {
		a.val[v] |= o
		a.changed = true
	}
}

// place names what a store into an address changes.
func place(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return t.String() + "." + t.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return "elements of " + x.X.Type().String()
	}
	return ""
}

// held: what a load from an address may yield beyond the memory it is in.
func (a *effAnalysis) held(addr ssa.Value) origins {
	if p := place(addr); p != "" && a.field[p] {
		return global
	}
	return 0
}

func (a *effAnalysis) keep(f *ssa.Function, p string, o origins) {
	if p == "" || o == 0 {
		return
	}
	s := a.sum[f]
	if s.fields[p]|o != s.fields[p] {
		s.fields[p] |= o
		a.changed = true
	}
	if o&global != 0 && !a.field[p] {
		a.field[p] = true
		a.changed = true
	}
}

func (a *effAnalysis) write(f *ssa.Function, i ssa.Instruction, v ssa.Value, app bool, what string) {
	if a.final {
		a.writes++
		if t := a.through(v, 0); t != "" && !a.guardedBy(i, 0, true) {
			a.shared[f] = append(a.shared[f], &effSite{f: f, i: i, what: what + " to " + strings.TrimPrefix(t, modPath+"/")})
		}
	}
	o := a.get(v)
	if o == 0 {
		return
	}
	if app && o&global != 0 && fullSlice(a.p, v) {
		o &^= global
	}
	s := a.sum[f]
	w := &s.writes
	if app {
		w = &s.appends
	}
	if *w|o != *w {
		*w |= o
		a.changed = true
	}
	if a.final && o&global != 0 {
		pos := a.p.prog.Fset.Position(i.Pos())
		k := fmt.Sprint(f, pos, what)
		if a.sites[k] == nil {
			g := map[*ssa.Global]bool{}
			roots(v, g, map[ssa.Value]bool{})
			a.sites[k] = &effSite{f: f, i: i, what: what, app: app, glob: g, value: v}
		}
	}
}

// roots: the package variables that a value comes from, as far as they show.
func roots(v ssa.Value, out map[*ssa.Global]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if g, ok := v.(*ssa.Global); ok {
		out[g] = true
		return
	}
	if i, ok := v.(ssa.Instruction); ok {
		for _, o := range i.Operands(nil) {
			if *o != nil {
				roots(*o, out, seen)
			}
		}
	}
}

// fullSlice: a slice without spare capacity, loaded from a package variable
// that is set once, to a literal or to a whole made slice.
func fullSlice(p *program, v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	n, full := 0, true
	for f := range p.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					n++
					switch x := s.Val.(type) {
					case *ssa.Slice:
						_, lit := x.X.(*ssa.Alloc)
						full = full && lit && x.Low == nil && x.High == nil && x.Max == nil
					case *ssa.Const:
					case *ssa.MakeSlice:
						full = full && x.Len == x.Cap
					default:
						full = false
					}
				}
			}
		}
	}
	return n <= 1 && full
}

func (a *effAnalysis) pass() {
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				a.instr(f, i)
			}
		}
	}
}

// contents: the origins of what a local variable holds are those of the
// variable itself, since a local variable's own memory is nobody else's.
func local(addr ssa.Value) *ssa.Alloc {
	for {
		switch x := addr.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		default:
			return nil
		}
	}
}

func (a *effAnalysis) instr(f *ssa.Function, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.Store:
		if al := local(x.Addr); al != nil {
			if refers(x.Val.Type()) {
				a.hold(al, a.get(x.Val))
				a.keep(f, place(x.Addr), a.get(x.Val))
			}
			return
		}
		a.write(f, i, x.Addr, false, "assignment")
		if refers(x.Val.Type()) {
			a.keep(f, place(x.Addr), a.get(x.Val))
			// what is stored can be loaded again by way of the same root
			if r := origin(x.Addr); r != nil {
				a.set(r, a.get(x.Val))
			}
		}
	case *ssa.MapUpdate:
		a.write(f, i, x.Map, false, "assignment to a map")
		if refers(x.Value.Type()) {
			a.keep(f, "elements of "+x.Map.Type().String(), a.get(x.Value))
			a.set(x.Map, a.get(x.Value))
		}
	case *ssa.Send:
		a.set(x.Chan, a.get(x.X))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			o := a.held(x.X)
			if al := local(x.X); al != nil {
				o |= a.in(al)
			} else {
				o |= a.get(x.X)
			}
			a.set(x, o)
		case token.ARROW:
			a.set(x, a.get(x.X))
		}
	case *ssa.FieldAddr:
		if local(x) == nil {
			a.set(x, a.get(x.X))
		}
	case *ssa.IndexAddr:
		if local(x) == nil {
			a.set(x, a.get(x.X))
		}
	case *ssa.Slice:
		o := a.get(x.X)
		if al := local(x.X); al != nil && refers(x.Type().Underlying().(interface{ Elem() types.Type }).Elem()) {
			o |= a.in(al)
		}
		a.set(x, o)
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(x, a.get(e))
		}
	case *ssa.Convert:
		if refers(x.X.Type()) && refers(x.Type()) {
			a.set(x, a.get(x.X))
		}
	case *ssa.MakeInterface:
		a.set(x, a.get(x.X)|a.inOf(x.X))
	case *ssa.ChangeInterface:
		a.set(x, a.get(x.X))
	case *ssa.ChangeType:
		a.set(x, a.get(x.X))
	case *ssa.SliceToArrayPointer:
		a.set(x, a.get(x.X))
	case *ssa.TypeAssert:
		a.set(x, a.get(x.X))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			a.set(x, a.result(c, x.Index))
		} else {
			a.set(x, a.get(x.Tuple))
		}
	case *ssa.Field:
		o := a.get(x.X)
		if a.field[x.X.Type().String()+"."+x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()] {
			o |= global
		}
		a.set(x, o)
	case *ssa.Index:
		a.set(x, a.get(x.X))
	case *ssa.Lookup:
		o := a.get(x.X)
		if a.field["elements of "+x.X.Type().String()] {
			o |= global
		}
		a.set(x, o)
	case *ssa.Range:
		a.set(x, a.get(x.X))
	case *ssa.Next:
		a.set(x, a.get(x.Iter))
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		var o origins
		for _, b := range x.Bindings {
			o |= a.get(b) | a.inOf(b)
		}
		a.set(x, o)
		if s := a.sum[g]; s != nil {
			for k, b := range x.Bindings {
				bit := paramBit(len(g.Params) + k)
				if s.writes&bit != 0 {
					a.write(f, i, b, false, "assignment in a function literal")
				}
				if s.appends&bit != 0 {
					a.write(f, i, b, true, "append in a function literal")
				}
			}
		}
	case ssa.CallInstruction:
		a.call(f, x)
	case *ssa.Return:
		s := a.sum[f]
		for k, r := range x.Results {
			if len(s.ret) <= k {
				s.ret = append(s.ret, 0)
			}
			if o := a.get(r) | a.inOf(r); refers(r.Type()) && s.ret[k]|o != s.ret[k] {
				s.ret[k] |= o
				a.changed = true
			}
		}
	}
}

// hold and in: the contents of a local variable, kept apart from the value of
// its address.
type contentsOf struct{ *ssa.Alloc }

func (a *effAnalysis) hold(al *ssa.Alloc, o origins) {
	k := contents(al)
	if a.val[k]|o != a.val[k] {
		a.val[k] |= o
		a.changed = true
	}
}

func (a *effAnalysis) in(al *ssa.Alloc) origins { return a.val[contents(al)] | a.val[al] }

func contents(al *ssa.Alloc) ssa.Value { return contentsOf{al} }

// inOf: what a pointer to a local variable leads to.
func (a *effAnalysis) inOf(v ssa.Value) origins {
	if al := local(v); al != nil {
		return a.in(al)
	}
	if s, ok := v.(*ssa.Slice); ok {
		if al := local(s.X); al != nil {
			return a.in(al)
		}
	}
	return 0
}

// origin: the value that an address is computed from.
func origin(addr ssa.Value) ssa.Value {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.MakeSlice, *ssa.MakeMap, *ssa.TypeAssert:
			return x
		default:
			return nil
		}
	}
}

// callees of a call within the module; out reports that others may be called.
func (a *effAnalysis) callees(c *ssa.CallCommon) (in []*ssa.Function, out bool) {
	if c.IsInvoke() {
		for _, g := range a.byName[c.Method.Name()] {
			if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(g.Signature.Recv().Type(), it) {
				in = append(in, g)
			}
		}
		return in, true
	}
	if g := c.StaticCallee(); g != nil {
		if a.sum[g] != nil {
			return []*ssa.Function{g}, false
		}
		return nil, true
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, true
	}
	for _, g := range a.taken {
		if types.Identical(g.Signature, c.Signature()) {
			in = append(in, g)
		}
	}
	return in, true
}

func (a *effAnalysis) result(c *ssa.Call, k int) origins {
	return a.val[resultOf{c, k}]
}

type resultOf struct {
	*ssa.Call
	k int
}

func (a *effAnalysis) setResult(c ssa.CallInstruction, k int, t types.Type, o origins) {
	v, ok := c.(*ssa.Call)
	if !ok || !refers(t) {
		return
	}
	r := resultOf{v, k}
	if a.val[r]|o != a.val[r] {
		a.val[r] |= o
		a.changed = true
	}
	if c.Common().Signature().Results().Len() == 1 {
		a.set(v, o)
	}
}

// safeReceivers may be used from several goroutines without further ado, or
// are not changed by their methods.
func safeReceiver(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	for _, p := range []string{"sync.", "sync/atomic.", "encoding/base64.", "encoding/hex.", "encoding/binary.", "crypto/cipher.Block", "crypto/cipher.AEAD",
		"log.Logger", "os.File", "time.", "reflect.", "regexp.", "strings.Replacer", "context.", "github.com/golang/protobuf/", "google.golang.org/protobuf/",
		"crypto/elliptic.Curve", "math/big.Word", "net.", "error"} {
		if strings.HasPrefix(s, p) && s != "crypto/cipher.BlockMode" {
			return true
		}
	}
	return false
}

// outParams are the arguments that functions outside the module write to.
func outParams(name string, sig *types.Signature) (writes, appends []int) {
	short := name[strings.LastIndex(name, ".")+1:]
	isBytes := func(k int) bool {
		if k >= sig.Params().Len() {
			return false
		}
		s, ok := sig.Params().At(k).Type().Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8])
	}
	switch {
	case strings.HasPrefix(short, "Append"), short == "Sum" && isBytes(0), short == "Seal", short == "Open":
		appends = append(appends, 0)
	case strings.HasPrefix(short, "PutUint"), strings.HasPrefix(short, "PutVar"), short == "XORKeyStream", short == "CryptBlocks",
		short == "Encode" && isBytes(0), short == "Decode" && isBytes(0), short == "Encrypt" && isBytes(0), short == "Decrypt" && isBytes(0),
		short == "Read" && isBytes(0), strings.HasPrefix(short, "ScalarMult"), short == "ScalarBaseMult", short == "FillBytes", short == "XORBytes":
		writes = append(writes, 0)
	case short == "ReadFull", short == "ReadAtLeast", short == "Unmarshal", short == "ConstantTimeCopy":
		writes = append(writes, 1)
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "slices.Reverse"), strings.HasPrefix(name, "container/"):
		writes = append(writes, 0)
	case name == "encoding/binary.Read":
		writes = append(writes, 2)
	case strings.HasPrefix(name, "math/rand."):
	}
	if name == "crypto/subtle.ConstantTimeCopy" {
		writes = []int{1}
	}
	for k := 0; k < sig.Params().Len(); k++ {
		if sig.Params().At(k).Type().String() == "io.Writer" || sig.Params().At(k).Type().String() == "io.Reader" {
			writes = append(writes, k)
		}
	}
	return
}

func (a *effAnalysis) call(f *ssa.Function, c ssa.CallInstruction) {
	if a.final {
		a.calls++
	}
	i := c.(ssa.Instruction)
	cc := c.Common()
	args := append([]ssa.Value{}, cc.Args...)
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	sig := cc.Signature()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			a.write(f, i, args[0], true, "append")
			if v, ok := c.(*ssa.Call); ok {
				a.set(v, a.get(args[0]))
				if len(args) > 1 && refers(args[0].Type().Underlying().(*types.Slice).Elem()) {
					o := a.get(args[1]) | a.inOf(args[1])
					a.set(v, o)
					a.keep(f, "elements of "+args[0].Type().String(), o)
				}
			}
		case "copy":
			a.write(f, i, args[0], false, "copy")
			if refers(args[0].Type().Underlying().(*types.Slice).Elem()) {
				a.keep(f, "elements of "+args[0].Type().String(), a.get(args[1])|a.inOf(args[1]))
			}
		case "delete", "clear":
			a.write(f, i, args[0], false, b.Name())
		}
		return
	}
	in, out := a.callees(cc)
	org := func(k int) origins {
		if k >= len(args) {
			return 0
		}
		return a.get(args[k]) | a.inOf(args[k])
	}
	for _, g := range in {
		s := a.sum[g]
		up := func(o origins) (r origins) {
			r = o & global
			for k := range args {
				if o&paramBit(k) != 0 {
					r |= org(k)
				}
			}
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for k, b := range mc.Bindings {
					if o&paramBit(len(g.Params)+k) != 0 {
						r |= a.get(b) | a.inOf(b)
					}
				}
			}
			return
		}
		for k := range args {
			if s.writes&paramBit(k) != 0 {
				a.write(f, i, args[k], false, "call of "+relName(g)+", which changes what it is given")
			}
			if s.appends&paramBit(k) != 0 {
				a.write(f, i, args[k], true, "call of "+relName(g)+", which appends to what it is given")
			}
		}
		for k, o := range s.ret {
			a.setResult(c, k, sig.Results().At(k).Type(), up(o))
		}
		for p, o := range s.fields {
			a.keep(f, p, up(o))
		}
		if c.Value() == nil && cc.StaticCallee() == nil {
			continue
		}
	}
	if !out {
		return
	}
	name := ""
	if cc.IsInvoke() {
		name = cc.Value.Type().String() + "." + cc.Method.Name()
	} else if g := cc.StaticCallee(); g != nil {
		name = g.String()
	}
	if cc.IsInvoke() && a.ours(cc.Value.Type()) {
		// an implementation of the application: what it does with its own
		// state is its own affair
		return
	}
	recv := cc.IsInvoke() || cc.StaticCallee() != nil && cc.StaticCallee().Signature.Recv() != nil
	off := 0
	if recv && len(args) > 0 {
		off = 1
		t := args[0].Type()
		_, ptr := t.Underlying().(*types.Pointer)
		_, ifc := t.Underlying().(*types.Interface)
		if (ptr || ifc) && !safeReceiver(t) && !readerGlobal(args[0]) {
			a.write(f, i, args[0], false, "call of "+name+" on a shared value")
		}
	}
	w, ap := outParams(name, sig)
	for _, k := range w {
		if k+off < len(args) && !readerGlobal(args[k+off]) {
			a.write(f, i, args[k+off], false, "call of "+name)
		}
	}
	for _, k := range ap {
		if k+off < len(args) {
			a.write(f, i, args[k+off], true, "call of "+name)
		}
	}
	var o origins
	for k := range args {
		o |= org(k)
	}
	for k := 0; k < sig.Results().Len(); k++ {
		t := sig.Results().At(k).Type()
		if t.String() != "error" {
			a.setResult(c, k, t, o)
		}
	}
}

// ours: an interface of the module, which the application implements.
func (a *effAnalysis) ours(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && isModPath(n.Obj().Pkg().Path())
}

// readerGlobal: the system's random source, which may be shared, and its like.
func readerGlobal(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Global:
			return x.Pkg != nil && (x.Pkg.Pkg.Path() == "crypto/rand" || x.Pkg.Pkg.Path() == "os" || x.Pkg.Pkg.Path() == "io")
		default:
			return false
		}
	}
}

// guarded: the instruction runs with a package-level lock held, or once.
func (a *effAnalysis) guarded(i ssa.Instruction, depth int) bool { return a.guardedBy(i, depth, false) }

func (a *effAnalysis) guardedBy(i ssa.Instruction, depth int, anyLock bool) bool {
	f := i.Parent()
	if depth > 4 {
		return false
	}
	lock := func(j ssa.Instruction, names ...string) bool {
		c, ok := j.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			return false
		}
		n := c.Call.StaticCallee().String()
		for _, m := range names {
			if n == "(*sync.Mutex)."+m || n == "(*sync.RWMutex)."+m {
				return len(c.Call.Args) > 0 && (anyLock || a.get(c.Call.Args[0])&global != 0)
			}
		}
		return false
	}
	at := func(j ssa.Instruction) int {
		for k, x := range j.Block().Instrs {
			if x == j {
				return k
			}
		}
		return -1
	}
	dominates := func(j, k ssa.Instruction) bool {
		if j.Block() == k.Block() {
			return at(j) < at(k)
		}
		return j.Block().Dominates(k.Block())
	}
	for _, b := range f.Blocks {
		for _, j := range b.Instrs {
			if !lock(j, "Lock", "RLock") || !dominates(j, i) {
				continue
			}
			free := false
			for _, b2 := range f.Blocks {
				for _, u := range b2.Instrs {
					// an unlock on some way from the lock to the access
					if lock(u, "Unlock", "RUnlock") && dominates(j, u) && !dominates(i, u) && reaches(u, i, j) {
						free = true
					}
				}
			}
			if !free {
				return true
			}
		}
	}
	// a literal given to sync.Once, or called under the lock
	if f.Parent() != nil {
		for _, b := range f.Parent().Blocks {
			for _, j := range b.Instrs {
				c, ok := j.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				for _, x := range c.Call.Args {
					if m, ok := x.(*ssa.MakeClosure); ok && m.Fn == f || x == ssa.Value(f) {
						return g != nil && g.String() == "(*sync.Once).Do" && (anyLock || a.get(c.Call.Args[0])&global != 0)
					}
				}
			}
		}
		return false
	}
	if f.Object() != nil && f.Object().Exported() || len(a.callers[f]) == 0 {
		return false
	}
	for _, c := range a.callers[f] {
		if !a.guardedBy(c.(ssa.Instruction), depth+1, anyLock) {
			return false
		}
	}
	return true
}

// reaches: i can run after u without j in between.
func reaches(u, i, j ssa.Instruction) bool {
	idx := func(x ssa.Instruction) int {
		for k, y := range x.Block().Instrs {
			if y == x {
				return k
			}
		}
		return -1
	}
	if u.Block() == i.Block() && idx(u) < idx(i) && !(j.Block() == u.Block() && idx(u) < idx(j) && idx(j) < idx(i)) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if b == i.Block() && !(j.Block() == b && idx(j) < idx(i)) {
			return true
		}
		if b == j.Block() {
			return false
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range u.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

// c27: nothing that a call does to one object shows in another.
func c27(c *ctx) {
	a := c.p.effects()
	c.shared(a)
}

func (c *ctx) shared(a *effAnalysis) {
	for _, f := range a.fns {
		c.fns[relName(f)] = true
	}
	c.calls += a.calls
	c.sites += a.writes
	bad := map[*ssa.Function][]*effSite{}
	var keys []string
	for k := range a.sites {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	locked := map[*ssa.Global]bool{}
	for _, k := range keys {
		s := a.sites[k]
		if a.onlyIni[s.f] || s.f.Name() == "init" || relName(s.f) == "logger.Setup" || relName(s.f) == "logger.Configure" {
			continue
		}
		if a.guarded(s.i, 0) {
			for g := range s.glob {
				locked[g] = true
			}
			continue
		}
		bad[s.f] = append(bad[s.f], s)
	}
	for _, f := range a.fns {
		if a.onlyIni[f] {
			continue
		}
		c.ob("global.written", relName(f)+" changes no memory of a package variable", f.Pos(), len(bad[f]) == 0, func() string {
			d := []string{}
			for _, s := range bad[f] {
				g := []string{}
				for x := range s.glob {
					g = append(g, x.Name())
				}
				sort.Strings(g)
				p := a.p.prog.Fset.Position(s.i.Pos())
				d = append(d, fmt.Sprintf("%s at %s:%d (%s)", s.what, relFile(p.Filename), p.Line, strings.Join(g, ", ")))
			}
			return strings.Join(d, "; ")
		})
	}
	for _, f := range a.fns {
		if a.onlyIni[f] || c.p.isGenerated(f) {
			continue
		}
		c.ob("shared.written", relName(f)+" changes no value that unrelated sessions share", f.Pos(), len(a.shared[f]) == 0, func() string {
			d := []string{}
			for _, s := range a.shared[f] {
				p := a.p.prog.Fset.Position(s.i.Pos())
				d = append(d, fmt.Sprintf("%s at %s:%d", s.what, relFile(p.Filename), p.Line))
			}
			return strings.Join(d, "; ")
		})
	}
	// what is written under a lock is read under it
	for _, f := range a.fns {
		if a.onlyIni[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok || !locked[g] || isSync(g) {
						continue
					}
					if fa, ok := i.(*ssa.FieldAddr); ok && strings.HasPrefix(fa.Type().(*types.Pointer).Elem().String(), "sync.") {
						continue // the lock itself, beside what it guards
					}
					c.ob("global.locked", fmt.Sprintf("%s uses %s with the lock held", relName(f), g.Name()), i.Pos(), a.guarded(i, 0), nil)
				}
			}
		}
	}
}

func isSync(g *ssa.Global) bool {
	return strings.HasPrefix(g.Type().(*types.Pointer).Elem().String(), "sync.")
}

func init() {
	reg("C27", 1, "every function of the module: the memory it may write, by origin", c27)
}

// fresh: a value that only the running function knows.
func (a *effAnalysis) fresh(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return a.fresh(x.X, depth+1)
	case *ssa.Extract:
		return a.fresh(x.Tuple, depth+1)
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || a.sum[g] == nil {
			return false
		}
		for _, o := range a.sum[g].ret {
			if o != 0 {
				return false
			}
		}
		return a.makes(g, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); !a.fresh(e, depth+1) && !(ok && c.IsNil()) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() == nil || f.Object().Exported() || len(a.callers[f]) == 0 {
			return false
		}
		for k, p := range f.Params {
			if p != x {
				continue
			}
			for _, c := range a.callers[f] {
				if k >= len(c.Common().Args) || !a.fresh(c.Common().Args[k], depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// makes: every pointer that a function returns is to a new object.
func (a *effAnalysis) makes(g *ssa.Function, depth int) bool {
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				c, isConst := v.(*ssa.Const)
				_, ptr := v.Type().Underlying().(*types.Pointer)
				if ptr && !(isConst && c.IsNil()) && !a.fresh(v, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

// shareable types are of values that unrelated sessions have in common:
// keys, names, serializers, bundles and stored prekeys.
func shareable(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isModPath(n.Obj().Pkg().Path()) {
		return false
	}
	p := strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/")
	switch p + "." + n.Obj().Name() {
	case "protocol.SignalAddress", "protocol.SenderKeyName", "state/record.PreKey", "state/record.SignedPreKey", "groups.SessionBuilder":
		return true
	}
	switch p {
	case "serialize", "ecc", "keys/identity", "keys/prekey", "util/optional", "fingerprint":
		return true
	}
	return false
}

// through finds a field of a shareable type that a written value is part of,
// or was loaded from.
func (a *effAnalysis) through(v ssa.Value, depth int) string {
	if depth > 12 || v == nil {
		return ""
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if shareable(x.X.Type().Underlying().(*types.Pointer).Elem()) && !a.fresh(x.X, 0) {
			return place(x)
		}
		return a.through(x.X, depth+1)
	case *ssa.IndexAddr:
		return a.through(x.X, depth+1)
	case *ssa.Slice:
		return a.through(x.X, depth+1)
	case *ssa.UnOp:
		return a.through(x.X, depth+1)
	case *ssa.MakeInterface:
		return a.through(x.X, depth+1)
	case *ssa.ChangeInterface:
		return a.through(x.X, depth+1)
	case *ssa.ChangeType:
		return a.through(x.X, depth+1)
	case *ssa.TypeAssert:
		return a.through(x.X, depth+1)
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return a.through(x.Tuple, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v {
				if s := a.through(e, depth+4); s != "" {
					return s
				}
			}
		}
	}
	return ""
}
