package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

type bigInt = big.Int

var fnBoundsNat = [2]*big.Int{big.NewInt(0), big.NewInt(1 << 48)}
var byteT = types.Typ[types.Byte]

func tuple(a ...*Term) *Term { return mk(&Term{op: OTuple, args: a}) }

func errTerm(name string, args ...*Term) *Term {
	nonNilFns["error:"+name] = true
	return fnL("error:"+name, args...)
}

// fixed declares an uninterpreted byte-sequence function of fixed length.
func fixed(name string, n int, args ...*Term) *Term {
	seqInfos[name] = seqInfo{n: n, elem: byteT}
	return fnL(name, args...)
}

// term constructors used by models and rules

func tHMAC(hash string, key, data *Term) *Term {
	n := map[string]int{"sha256": 32, "sha512": 64}[hash]
	if n == 0 {
		n = -1
	}
	return fixed("hmac:"+hash, n, key, data)
}

func tHKDF(ikm, salt, info, n *Term) *Term {
	seqInfos["hkdf"] = seqInfo{n: -1, elem: byteT}
	return fnL("hkdf", ikm, salt, info, n)
}

// extracted is the salt and key material a pseudorandom key was made of.
func extracted(prk *Term, h string) (salt, ikm *Term) {
	switch {
	case prk.op == OFn && prk.name == "hmac:"+h:
		return prk.args[0], prk.args[1]
	case prk.op == OIte:
		s1, k1 := extracted(prk.args[1], h)
		s2, k2 := extracted(prk.args[2], h)
		if k1 != nil && k2 != nil {
			return ite(asBDD(prk.args[0]), s1, s2), ite(asBDD(prk.args[0]), k1, k2)
		}
	}
	return nil, nil
}

func tHash(hash string, data *Term) *Term {
	return fixed("hash:"+hash, map[string]int{"sha256": 32, "sha512": 64}[hash], data)
}

// tDH is the agreement of a private key with a public key. With the public key
// of another private key it is the same whichever side computes it.
func tDH(pub, priv *Term) *Term {
	if pub.op == OFn && pub.name == "x25519base" {
		a, b := priv, pub.args[0]
		if a.id > b.id {
			a, b = b, a
		}
		return fixed("x25519s", 32, a, b)
	}
	return fixed("x25519", 32, priv, pub)
}
func tPub(priv *Term) *Term { return fixed("x25519base", 32, priv) }

func tCBC(dir string, key, iv, data *Term) *Term {
	nm := "cbc" + dir
	seqInfos[nm] = seqInfo{n: -1, elem: byteT}
	fnLens[nm] = cbcLen
	if dir == "dec" {
		return lift(func(x []*Term) *Term {
			if d := x[2]; d.op == OFn && d.name == "cbcenc" && d.args[0] == x[0] && d.args[1] == x[1] {
				return d.args[2]
			}
			return fn(nm, x...)
		}, key, iv, data)
	}
	return fnL(nm, key, iv, data)
}

func cbcLen(t *Term) *Term { return tLen(t.args[2]) }

var models map[string]modelFn

// hash objects keep their algorithm, key and the data written so far
// hash, cipher and reader objects of the models are structures on the heap
var modelObj = types.NewNamed(types.NewTypeName(0, nil, "modelObject", nil), types.NewStruct([]*types.Var{
	types.NewField(0, nil, "a", types.Typ[types.String], false),
	types.NewField(0, nil, "b", types.Typ[types.String], false),
	types.NewField(0, nil, "c", types.Typ[types.String], false),
	types.NewField(0, nil, "d", types.Typ[types.String], false),
}, nil), nil)

func (in *interp) mobj(st *state, key, kind string, a, b, c *Term) *Term {
	z := func(t *Term) *Term {
		if t == nil {
			return tEmpty
		}
		return t
	}
	p := in.newObj(st, key, modelObj, mk(&Term{op: OStruct, typ: modelObj, args: []*Term{tBytes(kind), z(a), z(b), z(c)}}))
	return fnL("mobj", p)
}

// mobjOf gives the object behind a model value.
func mobjOf(t *Term) *Term {
	if t.op == OFn && t.name == "mobj" {
		return t.args[0]
	}
	if t.op == OIte {
		panic(undecided("gated library object"))
	}
	return nil
}

func hashName(f *Term) string {
	if f.op == OFunc && f.fn != nil {
		switch f.fn.String() {
		case "crypto/sha256.New":
			return "sha256"
		case "crypto/sha512.New":
			return "sha512"
		}
		return f.fn.String()
	}
	panic(undecided("hash function"))
}

func (in *interp) bytesOf(st *state, a *Term) *Term { return sliceSeq(st.h, a) }

func init() {
	nonNilFns["mobj"] = true
	models = map[string]modelFn{}
	m := func(name string, f modelFn) { models[name] = f }
	ret := func(f func(in *interp, st *state, a []*Term) *Term) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term { return f(in, st, c.args) }
	}
	sq := func(st *state, t *Term) *Term { return sliceSeq(st.h, t) }

	// --- errors and text
	for _, pk := range []string{"github.com/golang/protobuf/proto", "google.golang.org/protobuf/proto"} {
		for _, n := range []string{"Bool", "Int32", "Int64", "Uint32", "Uint64", "String"} {
			m(pk+"."+n, func(in *interp, st *state, c *callCtx) *Term {
				return in.newObj(st, c.key, c.sig.Params().At(0).Type(), c.args[0])
			})
		}
	}
	m("errors.New", func(in *interp, st *state, c *callCtx) *Term {
		in.emit(st, "errors.New", c.pos, nil, c.args...)
		return errTerm("new", c.args[0])
	})
	text := func(name string) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term {
			d := []*Term{}
			for _, a := range c.args {
				d = append(d, deep(st.h, a))
			}
			in.emit(st, name, c.pos, nil, c.args...)
			if name == "fmt.Errorf" {
				return errTerm("fmt", d...)
			}
			if name == "fmt.Sprintf" && c.args[0].op == OBytes {
				if t := sprintf(in, st, c); t != nil {
					return t
				}
			}
			if name != "fmt.Sprint" {
			} else if a := sliceSeq(st.h, c.args[0]); a.op == OUnit {
				if v := ifaceVal(a.args[0]); plainText(a.args[0], types.IsInteger) {
					return decimal(v)
				} else if plainText(a.args[0], types.IsString) {
					return v
				}
			}
			seqInfos[name] = seqInfo{-1, byteT}
			return fnL(name, d...)
		}
	}
	m("fmt.Errorf", text("fmt.Errorf"))
	m("fmt.Sprintf", text("fmt.Sprintf"))
	m("fmt.Sprint", text("fmt.Sprint"))
	m("fmt.Sprintln", text("fmt.Sprintln"))
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "log.Println", "log.Printf", "log.Print"} {
		n := n
		m(n, func(in *interp, st *state, c *callCtx) *Term {
			if strings.HasPrefix(n, "fmt.F") && c.args[0].op == OIface && bufField(c.args[0].typ) >= 0 {
				c2 := *c
				c2.args = c.args[1:]
				s := models["fmt.S"+n[len("fmt.F"):]](in, st, &c2)
				in.bufAppend(st, c.args[0].args[0], bufField(c.args[0].typ), s, c)
				return tuple(tLen(s), tNil)
			}
			in.emit(st, "print", c.pos, nil, c.args...)
			if c.sig.Results().Len() == 2 {
				return tuple(fn("int:printed"), tNil)
			}
			return tNil
		})
	}
	m("error.Error", ret(func(in *interp, st *state, a []*Term) *Term {
		seqInfos["errtext"] = seqInfo{-1, byteT}
		return fnL("errtext", a[0])
	}))
	str1 := func(name string) {
		m(name, ret(func(in *interp, st *state, a []*Term) *Term {
			seqInfos[name] = seqInfo{-1, byteT}
			var d []*Term
			for _, x := range a {
				d = append(d, x)
			}
			return fnL(name, d...)
		}))
	}
	m("strconv.Itoa", ret(func(in *interp, st *state, a []*Term) *Term { return decimal(a[0]) }))
	base10 := ret(func(in *interp, st *state, a []*Term) *Term {
		if a[1].op == OInt && a[1].i64() == 10 {
			return decimal(a[0])
		}
		seqInfos["strconv.Format"] = seqInfo{-1, byteT}
		return fnL("strconv.Format", a...)
	})
	m("strconv.FormatUint", base10)
	m("strconv.FormatInt", base10)
	m("strings.Repeat", func(in *interp, st *state, c *callCtx) *Term {
		in.require(st, le(tZero, c.args[1]), "strings: negative Repeat count", c.pos)
		a := []*Term{c.args[0], simp(c.args[1], st.g)}
		if a[0].op == OBytes && len(a[0].name) == 1 {
			return tRep(tInt(int64(a[0].name[0])), a[1])
		}
		seqInfos["strings.Repeat"] = seqInfo{-1, byteT}
		return fnL("strings.Repeat", a...)
	})
	str1("encoding/hex.EncodeToString!")
	m("encoding/hex.EncodeToString", ret(func(in *interp, st *state, a []*Term) *Term {
		seqInfos["hex"] = seqInfo{-1, byteT}
		return fnL("hex", sq(st, a[0]))
	}))
	m("(*encoding/base64.Encoding).EncodeToString", ret(func(in *interp, st *state, a []*Term) *Term {
		seqInfos["base64"] = seqInfo{-1, byteT}
		return fnL("base64", deepName(a[0]), sq(st, a[1]))
	}))
	m("(*encoding/base64.Encoding).DecodeString", func(in *interp, st *state, c *callCtx) *Term {
		seqInfos["unbase64"] = seqInfo{-1, byteT}
		return lift(func(x []*Term) *Term {
			s := x[0]
			if s.op == OFn && s.name == "base64" && s.args[0] == deepName(c.args[0]) {
				return tuple(in.newSlice(st, c.key, byteT, s.args[1], nil), tNil)
			}
			ok := fnBool("ok:base64", deepName(c.args[0]), s)
			// on failure the decoder returns what it had so far
			fnBounds["int:base64len"] = fnBoundsNat
			v := in.newSlice(st, c.key, byteT, fnL("unbase64", deepName(c.args[0]), s), nil)
			return tuple(v, ite(ok, tNil, errTerm("base64", s)))
		}, c.args[1])
	})

	// --- bytes
	m("bytes.Compare", ret(func(in *interp, st *state, a []*Term) *Term { return cmpSeq(sq(st, a[0]), sq(st, a[1])) }))
	m("bytes.Equal", ret(func(in *interp, st *state, a []*Term) *Term { return tEq(sq(st, a[0]), sq(st, a[1])) }))
	m("crypto/hmac.Equal", func(in *interp, st *state, c *callCtx) *Term {
		r := tEq(sq(st, c.args[0]), sq(st, c.args[1]))
		in.emit(st, "hmac.Equal", c.pos, r, sq(st, c.args[0]), sq(st, c.args[1]))
		return r
	})
	m("crypto/subtle.ConstantTimeCompare", func(in *interp, st *state, c *callCtx) *Term {
		r := tEq(sq(st, c.args[0]), sq(st, c.args[1]))
		in.emit(st, "hmac.Equal", c.pos, r, sq(st, c.args[0]), sq(st, c.args[1]))
		return ite(r, tOne, tZero)
	})
	m("bytes.Repeat", func(in *interp, st *state, c *callCtx) *Term {
		in.require(st, le(tZero, c.args[1]), "bytes: negative Repeat count", c.pos)
		s := sq(st, c.args[0])
		if tLen(s) == tOne {
			return in.newSlice(st, c.key, byteT, tRep(tAt(s, tZero), simp(c.args[1], st.g)), nil)
		}
		seqInfos["bytes.Repeat"] = seqInfo{-1, byteT}
		return in.newSlice(st, c.key, byteT, fnL("bytes.Repeat", s, c.args[1]), nil)
	})
	prefix := func(suffix bool) modelFn {
		return ret(func(in *interp, st *state, a []*Term) *Term {
			x, y := a[0], a[1]
			if x.op == OSlc || x.op == ONil || x.op == OIte && !isSeq(x) {
				x, y = sq(st, a[0]), sq(st, a[1])
			}
			lx, ly := tLen(x), tLen(y)
			return lift(func(c []*Term) *Term {
				if c[0] == tFalse {
					return tFalse
				}
				if suffix {
					return tEq(tSub(x, sub(lx, ly), ly), y)
				}
				return tEq(tSub(x, tZero, ly), y)
			}, le(ly, lx))
		})
	}
	m("bytes.HasPrefix", prefix(false))
	m("bytes.HasSuffix", prefix(true))
	m("strings.HasPrefix", prefix(false))
	trim := func(suffix bool) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term {
			x, y := sq(st, c.args[0]), sq(st, c.args[1])
			lx, ly := tLen(x), tLen(y)
			has := tFalse
			if h := simp(le(ly, lx), st.g); h != tFalse {
				from, to := tZero, ly
				if suffix {
					from, to = sub(lx, ly), lx
				}
				has = and(h, tEq(tSub(x, from, sub(to, from)), y))
			}
			off, n := ite(has, ly, tZero), sub(lx, ite(has, ly, tZero))
			if suffix {
				off = tZero
			}
			return lift(func(a []*Term) *Term {
				if a[0].op == ONil {
					return a[0]
				}
				return slc(a[0].args[0], add(a[0].args[1], a[1]), a[2], sub(a[0].args[3], a[1]))
			}, simp(c.args[0], st.g), simp(off, st.g), simp(n, st.g))
		}
	}
	m("bytes.TrimPrefix", trim(false))
	m("bytes.TrimSuffix", trim(true))
	m("bytes.Count", ret(func(in *interp, st *state, a []*Term) *Term {
		x, y := sq(st, a[0]), sq(st, a[1])
		if tLen(y) == tOne {
			i := freshInt("c")
			n := tLen(x)
			other := tExists(n, not(tEq(tAt(x, i), tAt(y, tZero))), i)
			some := fn("bytes.Count", x, y)
			return ite(other, ite(lt(some, n), some, addi(n, -1)), n)
		}
		return fn("bytes.Count", x, y)
	}))
	fnBounds["bytes.Count"] = [2]*big.Int{big.NewInt(0), big.NewInt(1 << 48)}
	clone := func(in *interp, st *state, c *callCtx) *Term {
		s := c.args[0]
		r := in.newSlice(st, c.key, byteT, sq(st, s), nil)
		return ite(isNil(s), tNil, r)
	}
	m("bytes.Clone", clone)

	// --- buffers
	for _, w := range []struct {
		typ string
		f   int
	}{{"strings.Builder", 1}, {"bytes.Buffer", 0}} {
		w := w
		add2 := func(data func(st *state, a *Term) *Term, res int) modelFn {
			return func(in *interp, st *state, c *callCtx) *Term {
				d := data(st, c.args[1])
				in.bufAppend(st, c.args[0], w.f, d, c)
				switch res {
				case 2:
					return tuple(tLen(d), tNil)
				}
				return tNil
			}
		}
		buf := func(in *interp, st *state, p *Term) *Term {
			if w.f == 0 {
				if off := load(st.h, lift(func(x []*Term) *Term { return mk(&Term{op: OFAddr, k: 1, args: []*Term{x[0]}}) }, p)); off != tZero {
					panic(undecided("a buffer that was read from"))
				}
			}
			return load(st.h, lift(func(x []*Term) *Term { return mk(&Term{op: OFAddr, k: w.f, args: []*Term{x[0]}}) }, p))
		}
		n := "(*" + w.typ + ")."
		m(n+"Write", add2(sq, 2))
		m(n+"WriteString", add2(func(_ *state, a *Term) *Term { return a }, 2))
		m(n+"WriteByte", add2(func(_ *state, a *Term) *Term { return tUnit(a) }, 1))
		m(n+"WriteRune", add2(func(_ *state, a *Term) *Term {
			if decide(and(le(tZero, a), lt(a, tInt(128)))) != 1 {
				panic(undecided("text outside ASCII"))
			}
			return tUnit(a)
		}, 2))
		m(n+"String", func(in *interp, st *state, c *callCtx) *Term { return sq(st, buf(in, st, c.args[0])) })
		m(n+"Len", func(in *interp, st *state, c *callCtx) *Term { return sliceLen(buf(in, st, c.args[0])) })
		m(n+"Grow", func(in *interp, st *state, c *callCtx) *Term {
			in.require(st, le(tZero, c.args[1]), "negative Grow count", c.pos)
			return tNil
		})
		m(n+"Reset", func(in *interp, st *state, c *callCtx) *Term {
			buf(in, st, c.args[0])
			in.bufSet(st, c.args[0], w.f, tNil, c)
			return tNil
		})
		m(n+"Bytes", func(in *interp, st *state, c *callCtx) *Term { return buf(in, st, c.args[0]) })
	}
	newBuf := func(str bool) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term {
			v := c.args[0]
			if str {
				v = in.newSlice(st, c.key+"$", byteT, v, nil)
			}
			t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			return in.newObj(st, c.key, t, setField(zeroOf(t), 0, v))
		}
	}
	m("bytes.NewBuffer", newBuf(false))
	m("bytes.NewBufferString", newBuf(true))
	join := func(str bool) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term {
			l := sq(st, c.args[0])
			sep := c.args[1]
			if !str {
				sep = sq(st, sep)
			}
			var out []*Term
			for _, p := range partsOf(l) {
				if p.op != OUnit {
					panic(undecided("joining a list of unknown length"))
				}
				e := p.args[0]
				if !str {
					e = sq(st, e)
				}
				if len(out) > 0 {
					out = append(out, sep)
				}
				out = append(out, e)
			}
			if str {
				return tCat(out...)
			}
			return in.newSlice(st, c.key, byteT, tCat(out...), nil)
		}
	}
	m("bytes.Join", join(false))
	m("strings.Join", join(true))
	same := ret(func(in *interp, st *state, a []*Term) *Term { return ite(eqInt(a[0], a[1]), tOne, tZero) })
	m("crypto/subtle.ConstantTimeByteEq", same)
	m("crypto/subtle.ConstantTimeEq", same)
	m("crypto/subtle.ConstantTimeSelect", ret(func(in *interp, st *state, a []*Term) *Term { return ite(eqInt(a[0], tOne), a[1], a[2]) }))
	nothing := func(in *interp, st *state, c *callCtx) *Term { return tNil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC"} {
		m(n, nothing)
	}

	// --- hashes
	m("crypto/hmac.New", func(in *interp, st *state, c *callCtx) *Term {
		return in.mobj(st, c.key, "hmac:"+hashName(c.args[0]), sq(st, c.args[1]), tEmpty, nil)
	})
	m("crypto/sha256.New", func(in *interp, st *state, c *callCtx) *Term {
		return in.mobj(st, c.key, "hash:sha256", nil, tEmpty, nil)
	})
	m("crypto/sha512.New", func(in *interp, st *state, c *callCtx) *Term {
		return in.mobj(st, c.key, "hash:sha512", nil, tEmpty, nil)
	})
	sum := func(h string) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term { return tHash(h, sq(st, c.args[0])) }
	}
	m("crypto/sha256.Sum256", sum("sha256"))
	m("crypto/sha512.Sum512", sum("sha512"))
	write := func(in *interp, st *state, c *callCtx) *Term {
		p := mobjOf(c.args[0])
		if p == nil {
			panic(undecided("write to an unknown writer"))
		}
		v := st.h.content(p)
		data := sq(st, c.args[1])
		st.h.set(p, setField(v, 2, tCat(v.args[2], data)), tTrue)
		return tuple(tLen(data), tNil)
	}
	m("hash.Hash.Write", write)
	m("io.Writer.Write", write)
	m("io.WriteString", func(in *interp, st *state, c *callCtx) *Term {
		p := mobjOf(c.args[0])
		if p == nil {
			panic(undecided("write to an unknown writer"))
		}
		v := st.h.content(p)
		st.h.set(p, setField(v, 2, tCat(v.args[2], c.args[1])), tTrue)
		return tuple(tLen(c.args[1]), tNil)
	})
	m("hash.Hash.Reset", func(in *interp, st *state, c *callCtx) *Term {
		p := mobjOf(c.args[0])
		st.h.set(p, setField(st.h.content(p), 2, tEmpty), tTrue)
		return tNil
	})
	m("hash.Hash.Size", func(in *interp, st *state, c *callCtx) *Term {
		k := st.h.content(mobjOf(c.args[0])).args[0].name
		if strings.HasSuffix(k, "512") {
			return tInt(64)
		}
		return tInt(32)
	})
	m("hash.Hash.Sum", func(in *interp, st *state, c *callCtx) *Term {
		p := mobjOf(c.args[0])
		v := st.h.content(p)
		kind := v.args[0].name
		var d *Term
		if strings.HasPrefix(kind, "hmac:") {
			d = tHMAC(kind[5:], v.args[1], v.args[2])
		} else {
			d = tHash(kind[5:], v.args[2])
		}
		return in.appendSeq(st, c.args[1], d, byteT, c.key, c.pos)
	})

	// --- key derivation
	m("golang.org/x/crypto/hkdf.New", func(in *interp, st *state, c *callCtx) *Term {
		if h := hashName(c.args[0]); h != "sha256" {
			return in.mobj(st, c.key, "hkdf:"+h, sq(st, c.args[1]), sq(st, c.args[2]), sq(st, c.args[3]))
		}
		return in.mobj(st, c.key, "hkdf", sq(st, c.args[1]), sq(st, c.args[2]), sq(st, c.args[3]))
	})
	// HKDF is defined as an HMAC (extract) and an expansion of it; New is both
	m("golang.org/x/crypto/hkdf.Extract", func(in *interp, st *state, c *callCtx) *Term {
		return in.newSlice(st, c.key, byteT, tHMAC(hashName(c.args[0]), sq(st, c.args[2]), sq(st, c.args[1])), nil)
	})
	m("golang.org/x/crypto/hkdf.Expand", func(in *interp, st *state, c *callCtx) *Term {
		h := hashName(c.args[0])
		kind, prk := "hkdf", sq(st, c.args[1])
		if h != "sha256" {
			kind += ":" + h
		}
		if salt, ikm := extracted(prk, h); ikm != nil {
			return in.mobj(st, c.key, kind, ikm, salt, sq(st, c.args[2]))
		}
		return in.mobj(st, c.key, "hkdf:expand:"+h, prk, tBytes(""), sq(st, c.args[2]))
	})
	readFull := func(in *interp, st *state, c *callCtx) *Term {
		rd, buf := c.args[0], c.args[1]
		n := sliceLen(buf)
		if p := mobjOf(rd); p != nil {
			v := st.h.content(p)
			kind := v.args[0].name
			if strings.HasPrefix(kind, "hkdf") {
				// a second read continues the stream
				out := tHKDF(v.args[1], v.args[2], v.args[3], n)
				if kind != "hkdf" {
					seqInfos[kind] = seqInfo{-1, byteT}
					fnLens[kind] = func(t *Term) *Term { return t.args[3] }
					out = fnL(kind, v.args[1], v.args[2], v.args[3], n)
				}
				ok := le(n, tInt(255*32))
				in.writeSlice(st, buf, out, c.pos)
				st.h.set(p, setField(v, 0, tBytes("hkdf:used:"+c.key)), tTrue)
				fnBounds["int:short"] = fnBoundsNat
				return tuple(ite(ok, n, fn("int:short", n)), ite(ok, tNil, errTerm("hkdf", n)))
			}
			panic(undecided("read from " + kind))
		}
		return in.readRandom(st, c, rd, buf)
	}
	m("io.ReadFull", readFull)
	m("io.ReadAtLeast", func(in *interp, st *state, c *callCtx) *Term {
		if decide(eqInt(c.args[2], sliceLen(c.args[1]))) == 1 {
			return readFull(in, st, c)
		}
		return in.shortRead(st, c, c.args[0], c.args[1])
	})
	m("io.Reader.Read", func(in *interp, st *state, c *callCtx) *Term {
		if mobjOf(c.args[0]) != nil {
			return readFull(in, st, c)
		}
		return in.shortRead(st, c, c.args[0], c.args[1])
	})
	m("crypto/rand.Read", func(in *interp, st *state, c *callCtx) *Term {
		rd := fn("in:crypto/rand.Reader")
		return in.readRandom(st, c, rd, c.args[0])
	})

	// --- curve25519
	m("golang.org/x/crypto/curve25519.ScalarMult", func(in *interp, st *state, c *callCtx) *Term {
		in.noteWrite(st, c.args[0], c.pos)
		store(st.h, c.args[0], tDH(load(st.h, c.args[2]), load(st.h, c.args[1])))
		return tNil
	})
	m("golang.org/x/crypto/curve25519.ScalarBaseMult", func(in *interp, st *state, c *callCtx) *Term {
		in.noteWrite(st, c.args[0], c.pos)
		store(st.h, c.args[0], tPub(load(st.h, c.args[1])))
		return tNil
	})
	m("golang.org/x/crypto/curve25519.X25519", func(in *interp, st *state, c *callCtx) *Term {
		sc, pt := sq(st, c.args[0]), sq(st, c.args[1])
		ok := fnBool("ok:x25519", sc, pt)
		return tuple(ite(ok, in.newSlice(st, c.key, byteT, tDH(pt, sc), nil), tNil), ite(ok, tNil, errTerm("x25519", sc, pt)))
	})
	m("crypto/ed25519.Verify", func(in *interp, st *state, c *callCtx) *Term {
		pk, msg, sig := sq(st, c.args[0]), sq(st, c.args[1]), sq(st, c.args[2])
		in.require(st, eqInt(tLen(pk), tInt(32)), "ed25519: bad public key length", c.pos)
		r := fnBool("ed25519.Verify", pk, msg, sig)
		in.emit(st, "ed25519.Verify", c.pos, r, pk, msg, sig)
		return r
	})

	// --- AES-CBC
	m("crypto/aes.NewCipher", func(in *interp, st *state, c *callCtx) *Term {
		k := sq(st, c.args[0])
		n := tLen(k)
		ok := lift(func(x []*Term) *Term {
			if x[0].op == OInt {
				return tBool(x[0].i64() == 16 || x[0].i64() == 24 || x[0].i64() == 32)
			}
			return fnBool("ok:aeskey", x[0])
		}, n)
		return tuple(ite(ok, in.mobj(st, c.key, "aes", k, nil, nil), tNil), ite(ok, tNil, errTerm("aes", n)))
	})
	mode := func(dir string) modelFn {
		return func(in *interp, st *state, c *callCtx) *Term {
			p := mobjOf(simp(c.args[0], st.g))
			iv := sq(st, c.args[1])
			in.require(st, eqInt(tLen(iv), tInt(16)), "cipher: IV length must equal block size", c.pos)
			if p == nil {
				panic(undecided("block cipher"))
			}
			return in.mobj(st, c.key, "cbc"+dir, st.h.content(p).args[1], iv, nil)
		}
	}
	m("crypto/cipher.NewCBCEncrypter", mode("enc"))
	m("crypto/cipher.NewCBCDecrypter", mode("dec"))
	m("crypto/cipher.Block.BlockSize", ret(func(in *interp, st *state, a []*Term) *Term { return tInt(16) }))
	m("crypto/cipher.BlockMode.BlockSize", ret(func(in *interp, st *state, a []*Term) *Term { return tInt(16) }))
	m("crypto/cipher.BlockMode.CryptBlocks", func(in *interp, st *state, c *callCtx) *Term {
		p := mobjOf(c.args[0])
		v := st.h.content(p)
		src := sq(st, c.args[2])
		n := tLen(src)
		in.require(st, eqInt(modc(n, 16), tZero), "cipher: input not full blocks", c.pos)
		in.require(st, le(n, sliceLen(c.args[1])), "cipher: output smaller than input", c.pos)
		if st.g == tFalse {
			return tNil
		}
		amb = st.g
		dir := strings.TrimPrefix(v.args[0].name, "cbc")
		out := tCBC(dir, v.args[1], v.args[2], src)
		leaves(c.args[1], tTrue, func(d, g *Term) {
			if d.op == OSlc {
				in.writeSlice(st, slc(d.args[0], d.args[1], n, n), out, c.pos)
			}
		})
		st.h.set(p, setField(v, 0, tBytes("cbcused:"+c.key)), tTrue)
		return tNil
	})

	// --- time
	m("time.Now", func(in *interp, st *state, c *callCtx) *Term {
		r := inputValue("time.Now@"+c.key, c.sig.Results().At(0).Type(), in.iter, false, false)
		return r
	})
	m("(time.Time).Unix", ret(func(in *interp, st *state, a []*Term) *Term {
		fnBounds["int:unix"] = [2]*big.Int{big.NewInt(0), big.NewInt(1 << 62)}
		return fnL("int:unix", a[0])
	}))

	// --- encoding
	m("github.com/golang/protobuf/proto.Marshal", marshal("proto"))
	m("google.golang.org/protobuf/proto.Marshal", marshal("proto"))
	m("encoding/json.Marshal", marshal("json"))
	m("github.com/golang/protobuf/proto.Unmarshal", unmarshal("proto"))
	m("encoding/json.Unmarshal", unmarshal("json"))
	m("encoding/binary.Read", func(in *interp, st *state, c *callCtx) *Term {
		rd, order, data := c.args[0], c.args[1], c.args[2]
		ok := fnBool("rngok:"+c.key, in.iter...)
		if data.op == OIface {
			if pt, isP := data.typ.Underlying().(*types.Pointer); isP {
				b, isB := pt.Elem().Underlying().(*types.Basic)
				n := map[types.BasicKind]int64{types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}
				if !isB || n[b.Kind()] == 0 {
					panic(undecided("binary.Read into " + pt.String()))
				}
				bs := in.lenFn(rndName(rd, c.key), byteT, append([]*Term{}, in.iter...), tInt(n[b.Kind()]))
				big := order.op == OIface && strings.HasSuffix(order.typ.String(), "bigEndian")
				if !big && !(order.op == OIface && strings.HasSuffix(order.typ.String(), "littleEndian")) {
					panic(undecided("byte order"))
				}
				v := wordOf(bs, n[b.Kind()], big)
				in.emit(st, "random", c.pos, bs, rd, data, tInt(n[b.Kind()]), ok)
				old := load(st.h, data.args[0])
				store(st.h, data.args[0], ite(ok, v, old))
				return ite(ok, tNil, errTerm("rng", in.iter...))
			}
		}
		panic(undecided("binary.Read"))
	})

	m("github.com/RadicalApp/complete.NewResult", ret(func(in *interp, st *state, a []*Term) *Term {
		return fnL("complete.Result", deep(st.h, a[0]))
	}))
	nonNilFns["complete.Result"] = true
	m("runtime.Caller", nil)
	delete(models, "runtime.Caller")
}

func deepName(t *Term) *Term { return t }

// decimal is the decimal text of an integer.
func decimal(v *Term) *Term {
	seqInfos["decimal"] = seqInfo{-1, byteT}
	return lift(func(x []*Term) *Term {
		if x[0].op == OInt {
			return tBytes(x[0].n.String())
		}
		return fn("decimal", x[0])
	}, v)
}

// plainText reports whether fmt prints a value the obvious way.
func plainText(a *Term, info types.BasicInfo) bool {
	t := dynType(a)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0 && types.NewMethodSet(t).Len() == 0
}

func sprintf(in *interp, st *state, c *callCtx) *Term {
	if len(c.args) != 2 || c.args[1].op != OSlc {
		return nil
	}
	s := sliceSeq(st.h, c.args[1])
	f := c.args[0].name
	var out []*Term
	n := int64(0)
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, tBytes(f[i:i+1]))
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("0123456789.-+ #", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			return nil
		}
		if f[j] == '%' {
			out = append(out, tBytes("%"))
			i = j + 1
			continue
		}
		a := tAt(s, tInt(n))
		n++
		v := ifaceVal(a)
		spec := f[i : j+1]
		i = j + 1
		switch {
		case (spec == "%d" || spec == "%v") && plainText(a, types.IsInteger):
			out = append(out, decimal(v))
		case (spec == "%s" || spec == "%v") && plainText(a, types.IsString):
			out = append(out, v)
		default:
			seqInfos["format"] = seqInfo{-1, byteT}
			out = append(out, fnL("format", tBytes(spec), deep(st.h, v)))
		}
	}
	return tCat(out...)
}

// bufField is the field of a library buffer that holds its content.
func bufField(t types.Type) int {
	switch t.String() {
	case "*strings.Builder":
		return 1
	case "*bytes.Buffer":
		return 0
	}
	return -1
}

func (in *interp) bufSet(st *state, p *Term, f int, v *Term, c *callCtx) {
	p = in.nonNil(st, p, "dereference", c.pos)
	if st.g == tFalse {
		return
	}
	in.noteWrite(st, p, c.pos)
	store(st.h, lift(func(x []*Term) *Term { return mk(&Term{op: OFAddr, k: f, args: []*Term{x[0]}}) }, p), v)
}

func (in *interp) bufAppend(st *state, p *Term, f int, data *Term, c *callCtx) {
	a := lift(func(x []*Term) *Term { return mk(&Term{op: OFAddr, k: f, args: []*Term{x[0]}}) }, p)
	// a buffer without content may hold nil or nothing
	old := lift(func(x []*Term) *Term {
		if x[0] == tNil {
			return in.newSlice(st, c.key+"$0", byteT, tEmpty, nil)
		}
		return x[0]
	}, load(st.h, a))
	in.bufSet(st, p, f, in.appendSeq(st, old, data, types.NewSlice(byteT).Elem(), c.key, c.pos), c)
}

// wordOf is the integer some bytes spell.
func wordOf(b *Term, n int64, big_ bool) *Term {
	v := tZero
	for i := int64(0); i < n; i++ {
		k := i
		if big_ {
			k = n - 1 - i
		}
		v = add(v, mulc(tAt(b, tInt(k)), new(big.Int).Lsh(big.NewInt(1), uint(8*i))))
	}
	return v
}

// rndName names what comes from a random source.
func rndName(rd *Term, key string) string {
	if rd != fn("in:crypto/rand.Reader") {
		return "othersource:" + key
	}
	return "rnd:" + key
}

// readRandom fills a buffer from a random source, or fails.
func (in *interp) readRandom(st *state, c *callCtx, rd, buf *Term) *Term {
	n := sliceLen(buf)
	ok := fnBool("rngok:"+c.key, in.iter...)
	nm := rndName(rd, c.key)
	out := in.lenFn(nm, byteT, append([]*Term{}, in.iter...), n)
	pn := "partial:" + c.key
	part := in.lenFn(pn, byteT, append([]*Term{}, in.iter...), n)
	in.emit(st, "random", c.pos, out, rd, buf, n, ok)
	in.writeSlice(st, buf, ite(ok, out, part), c.pos)
	fnBounds["int:short"] = fnBoundsNat
	return tuple(ite(ok, n, fn("int:short", n)), ite(ok, tNil, errTerm("rng", in.iter...)))
}

// shortRead may fill less than the buffer.
func (in *interp) shortRead(st *state, c *callCtx, rd, buf *Term) *Term {
	n := sliceLen(buf)
	pn := "partial:" + c.key
	part := in.lenFn(pn, byteT, append([]*Term{}, in.iter...), n)
	in.emit(st, "random-short", c.pos, part, rd, buf, n)
	in.writeSlice(st, buf, part, c.pos)
	ok := fnBool("rngok:"+c.key, in.iter...)
	fnBounds["int:read:"+c.key] = fnBoundsNat
	return tuple(fn("int:read:"+c.key, in.iter...), ite(ok, tNil, errTerm("rng", in.iter...)))
}

// ---------- encoders ----------

// exported reports whether an encoder carries a field.
func carried(kind string, f *types.Var, tag string) bool {
	if kind == "json" {
		t := reflect.StructTag(tag).Get("json")
		return f.Exported() && t != "-"
	}
	return reflect.StructTag(tag).Get("protobuf") != ""
}

// wire keeps from a deep content what the encoding carries.
func wire(kind string, v *Term) *Term {
	return lift(func(x []*Term) *Term {
		v := x[0]
		switch v.op {
		case OStruct:
			s, ok := v.typ.Underlying().(*types.Struct)
			args := make([]*Term, len(v.args))
			for i, a := range v.args {
				if ok && !carried(kind, s.Field(i), s.Tag(i)) {
					args[i] = zeroOf(s.Field(i).Type())
					continue
				}
				args[i] = wire(kind, a)
			}
			return mk(&Term{op: OStruct, typ: v.typ, args: args})
		case OObj, OUnit:
			return mk(&Term{op: v.op, args: []*Term{wire(kind, v.args[0])}})
		case OSeqv:
			return mk(&Term{op: OSeqv, args: []*Term{v.args[0], wire(kind, v.args[1])}})
		case OCat:
			ps := make([]*Term, len(v.args))
			for i, p := range v.args {
				ps[i] = wire(kind, p)
			}
			return tCat(ps...)
		case OGen:
			i := freshInt("d")
			fnBounds[i.name] = fnBoundsNat
			return tGen(v.args[0], wire(kind, bindOpen(v.args[1], v.k, i)), i)
		case OIface:
			return mk(&Term{op: OIface, typ: v.typ, args: []*Term{wire(kind, v.args[0])}})
		}
		return v
	}, v)
}

func marshal(kind string) modelFn {
	return func(in *interp, st *state, c *callCtx) *Term {
		v := c.args[0]
		t := dynType(v)
		if t == nil {
			panic(undecided("encoding an unknown value"))
		}
		d := wire(kind, deep(st.h, ifaceVal(v)))
		if kind == "proto" && decide(isNil(ifaceVal(v))) != -1 {
			in.require(st, not(isNil(ifaceVal(v))), "proto: Marshal called with nil", c.pos)
		}
		if kind == "json" {
			// a value and a pointer to it look the same
			if _, ptr := t.Underlying().(*types.Pointer); ptr {
				t = bare(t)
			} else {
				d = mk(&Term{op: OObj, args: []*Term{d}})
			}
		}
		nm := "enc:" + kind + ":" + typeKey(t)
		seqInfos[nm] = seqInfo{-1, byteT}
		fnBounds["int:encrest"] = fnBoundsNat
		fnLens[nm] = func(t *Term) *Term {
			if least := leastEnc(kind, t.args[0]); least > 0 {
				return addi(fn("int:encrest", t), least)
			}
			return fn("len", t)
		}
		encTypes[nm] = t
		s := mk(&Term{op: OFn, name: nm, args: []*Term{d}})
		in.emit(st, "marshal:"+kind, c.pos, s, v)
		return tuple(in.newSlice(st, c.key, byteT, s, nil), tNil)
	}
}

// leastEnc bounds the length of an encoding from below.
func leastEnc(kind string, d *Term) int64 {
	if kind == "json" {
		return 2 // {}
	}
	if d.op == OObj && d.args[0].op == OStruct {
		for _, a := range d.args[0].args {
			if a.op == OObj || a.op == OSeqv && a.args[0] == tFalse {
				return 2 // a tag and a value
			}
		}
	}
	return 0
}

// bare strips the pointers of a type.
func bare(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

var encTypes = map[string]types.Type{}

func unmarshal(kind string) modelFn {
	return func(in *interp, st *state, c *callCtx) *Term {
		data := sliceSeq(st.h, c.args[0])
		dst := c.args[1]
		t := dynType(dst)
		if t == nil {
			panic(undecided("decoding into an unknown value"))
		}
		p := ifaceVal(dst)
		pt := t.Underlying().(*types.Pointer)
		nm := "enc:" + kind + ":" + typeKey(t)
		if kind == "json" {
			nm = "enc:json:" + typeKey(bare(t))
		}
		g := st.g
		r := in.split(st, data, func(st *state, data *Term) *Term {
			if data.op == OFn && data.name == nm {
				v := data.args[0]
				if v.op == OObj {
					if in := v.args[0]; in.op == OObj || in.op == ONil {
						panic(undecided("decoding nested pointers"))
					}
					if _, ptr := pt.Elem().Underlying().(*types.Pointer); ptr {
						store(st.h, p, in.inflate(st, c.key, pt.Elem(), v))
						return tNil
					}
					store(st.h, p, in.inflate(st, c.key, pt.Elem(), v.args[0]))
					return tNil
				}
			}
			ok := fnBool("ok:dec:"+kind+":"+typeKey(t), data)
			v := decodedValue("dec:"+c.key, pt.Elem(), in.iter)
			if v.op == OPtr || v.op == OFAddr {
				panic(undecided("decoding"))
			}
			// a failed decoding may leave anything behind
			store(st.h, p, v)
			return ite(ok, tNil, errTerm("dec:"+kind, data))
		})
		after := st.g
		st.g = g
		in.emit(st, "unmarshal:"+kind, c.pos, r, data, dst)
		st.g = after
		return r
	}
}

func decodedValue(path string, t types.Type, idx []*Term) *Term {
	return inputValue(path, t, idx, true, true)
}

// inflate builds fresh objects with the given deep content.
func (in *interp) inflate(st *state, key string, t types.Type, v *Term) *Term {
	return lift(func(x []*Term) *Term {
		v := x[0]
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if v.op == ONil {
				return tNil
			}
			if v.op == OObj {
				return in.newObj(st, key+"*", u.Elem(), in.inflate(st, key+"*", u.Elem(), v.args[0]))
			}
		case *types.Struct:
			if v.op == OStruct {
				args := make([]*Term, len(v.args))
				for i, a := range v.args {
					args[i] = in.inflate(st, fmt.Sprintf("%s.%d", key, i), u.Field(i).Type(), a)
				}
				return mk(&Term{op: OStruct, typ: t, args: args})
			}
		case *types.Slice:
			if v.op == ONil {
				return tNil
			}
			if v.op == OSeqv {
				s := in.newSlice(st, key+"[]", u.Elem(), in.inflateSeq(st, key+"[]", u.Elem(), v.args[1]), nil)
				return ite(v.args[0], tNil, s)
			}
		case *types.Array:
			return in.inflateSeq(st, key+"[]", u.Elem(), v)
		case *types.Basic:
			return v
		}
		panic(undecided("decoding into " + t.String() + " from " + str(v)))
	}, v)
}

func (in *interp) inflateSeq(st *state, key string, elem types.Type, s *Term) *Term {
	if !isRef(elem) {
		return s
	}
	return lift(func(x []*Term) *Term {
		s := x[0]
		switch s.op {
		case OCat:
			ps := make([]*Term, len(s.args))
			for i, p := range s.args {
				ps[i] = in.inflateSeq(st, fmt.Sprintf("%s%d", key, i), elem, p)
			}
			return tCat(ps...)
		case OUnit:
			return tUnit(in.inflate(st, key+"u", elem, s.args[0]))
		case OGen:
			kn := fmt.Sprintf("k:infl:%s", key)
			fnBounds[kn] = fnBoundsNat
			k := fn(kn, in.iter...)
			in.iter = append(in.iter, k)
			before := map[int]*cell{}
			for b, c := range st.h.cells {
				before[b] = c
			}
			e := in.inflate(st, key+"g", elem, bindOpen(s.args[1], s.k, k))
			in.iter = in.iter[:len(in.iter)-1]
			tn := "t:infl:" + key
			fnBounds[tn] = fnBoundsNat
			ts := fn(tn)
			for b, c := range st.h.cells {
				if before[b] != c && bases[b].madeIn(k, len(in.iter)) {
					st.h.cells[b] = templateOf(st.h, b, k, ts)
				}
			}
			return tGen(s.args[0], e, k)
		}
		panic(undecided("decoding a sequence " + str(s)))
	}, s)
}
