import re
F="ecc/edwards25519/edwards25519.go"
S=open("/repo/"+F).read()
def body(name):
    i=S.index("func "+name)
    j=S.index("\n}\n",i)+3
    return S[i:j]
REFS=[]
def ref(id,*edits): REFS.append(dict(id=id,edits=[(F,a,b) for a,b in edits]))
def one(id,name,new,*more): ref(id,(body(name),new),*more)

one("a01-add-loop","FeAdd(","""func FeAdd(dst, a, b *FieldElement) {
	for i := range dst {
		dst[i] = a[i] + b[i]
	}
}
""")
one("a02-mul-loops","FeMul(","""func FeMul(h, f, g *FieldElement) {
	var t [19]int64
	for i := 0; i < 10; i++ {
		for j := 0; j < 10; j++ {
			x := int64(f[i]) * int64(g[j])
			if i%2 == 1 && j%2 == 1 {
				x *= 2
			}
			t[i+j] += x
		}
	}
	for i := 10; i < 19; i++ {
		t[i-10] += 19 * t[i]
	}
	FeCombine(h, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9])
}
""")
fc=body("FeCombine(")
def carryform(m):
    return "%s, %s = carryInto(%s, %s, %s)\n"%(m.group(3) and "h"+m.group(2),"h"+m.group(5),"h"+m.group(2),"h"+m.group(5),m.group(4))
n=re.sub(r"(c\d) = \(h(\d) \+ \(1 << \d+\)\) >> (())?(\d+)\n\th(\d) \+= c\d\n\th\d -= c\d << \d+\n",lambda m:"h%s, h%s = carryInto(h%s, h%s, %s)\n"%(m.group(2),m.group(6),m.group(2),m.group(6),m.group(5)),fc)
n=n.replace("	var c0, c1, c2, c3, c4, c5, c6, c7, c8, c9 int64\n","	var c9 int64\n")
ref("a03-carry-helper",(fc,n+"""
// carryInto moves the rounded high part of x into y.
func carryInto(x, y int64, n uint) (int64, int64) {
	c := (x + 1<<(n-1)) >> n
	return x - c<<n, y + c
}
"""))
fi=body("FeInvert(")
n=re.sub(r"for i = 1; i < (\d+); i\+\+ \{[^\n]*\n\t\tFeSquare\(&(t\d), &t\d\)\n\t\}",lambda m:"feSquareTimes(&%s, &%s, %d)"%(m.group(2),m.group(2),int(m.group(1))-1),fi).replace("	var i int\n","")
ref("a04-square-times",(fi,n+"""
func feSquareTimes(out, z *FieldElement, n int) {
	FeCopy(out, z)
	for ; n > 0; n-- {
		FeSquare(out, out)
	}
}
"""))
ref("a05-binary",(body("load4("),"""func load4(in []byte) int64 {
	return int64(binary.LittleEndian.Uint32(in))
}
"""),(body("load3("),"""func load3(in []byte) int64 {
	return int64(binary.LittleEndian.Uint16(in)) + int64(in[2])<<16
}
"""),("package edwards25519\n","package edwards25519\n\nimport \"encoding/binary\"\n"))
tb=body("FeToBytes(")
ref("a06-local-copy",(tb,tb.replace("func FeToBytes(s *[32]byte, h *FieldElement) {","func FeToBytes(s *[32]byte, f *FieldElement) {\n	var h FieldElement\n	FeCopy(&h, f)\n")))
ref("a07-double-loop",("""	h.Double(&r)
	r.ToProjective(&s)
	s.Double(&r)
	r.ToProjective(&s)
	s.Double(&r)
	r.ToProjective(&s)
	s.Double(&r)
	r.ToExtended(h)
""","""	h.ToProjective(&s)
	for n := 0; ; n++ {
		s.Double(&r)
		if n == 3 {
			break
		}
		r.ToProjective(&s)
	}
	r.ToExtended(h)
"""))
ref("a08-subtle",(body("equal("),"""func equal(b, c int32) int32 {
	return int32(subtle.ConstantTimeEq(b, c))
}
"""),(body("negative("),"""func negative(b int32) int32 {
	return int32(uint32(b) >> 31)
}
"""),("package edwards25519\n","package edwards25519\n\nimport \"crypto/subtle\"\n"))
one("a09-select","selectPoint(","""func selectPoint(t *PreComputedGroupElement, pos int32, b int32) {
	sign := negative(b)
	magnitude := (b ^ -sign) + sign

	t.Zero()
	row := &base[pos]
	for i := range row {
		entry := row[i]
		PreComputedGroupElementCMove(t, &entry, equal(magnitude, int32(i)+1))
	}
	negateIf(t, sign)
}

func negateIf(t *PreComputedGroupElement, sign int32) {
	m := PreComputedGroupElement{yPlusX: t.yMinusX, yMinusX: t.yPlusX}
	FeNeg(&m.xy2d, &t.xy2d)
	PreComputedGroupElementCMove(t, &m, sign)
}
""")
sr=body("ScReduce(")
n=re.sub(r"\bs(\d+)\b",r"t[\1]",sr)
n=re.sub(r"t\[(\d+)\] := ",r"t[\1] = ",n).replace("	t[0] = ","	var t [24]int64\n	t[0] = ",1)
n=n.replace("var carry [17]int64","var carry [17]int64")
ref("a10-reduce-array",(sr,n))
one("a11-mixed-add","geMixedAdd(","""func geMixedAdd(r *CompletedGroupElement, p *ExtendedGroupElement, q *PreComputedGroupElement) {
	var a, b, c, d FieldElement

	FeSub(&a, &p.Y, &p.X)
	FeAdd(&b, &p.Y, &p.X)
	FeMul(&a, &q.yMinusX, &a)
	FeMul(&b, &q.yPlusX, &b)
	FeMul(&c, &p.T, &q.xy2d)
	FeAdd(&d, &p.Z, &p.Z)
	FeSub(&r.T, &d, &c)
	FeSub(&r.X, &b, &a)
	FeAdd(&r.Y, &b, &a)
	FeAdd(&r.Z, &d, &c)
}
""")
one("a12-cmove-loop","FeCMove(","""func FeCMove(f, g *FieldElement, b int32) {
	mask := -b
	for i, x := range g {
		f[i] ^= mask & (f[i] ^ x)
	}
}
""")
one("a13-neg-sub","FeNeg(","""func FeNeg(h, f *FieldElement) {
	for i := range h {
		h[i] = 0 - f[i]
	}
}
""")
ref("a14-zero-copy",(body("FeZero("),"""func FeZero(fe *FieldElement) {
	*fe = FieldElement{}
}
"""),(body("FeCopy("),"""func FeCopy(dst, src *FieldElement) {
	*dst = *src
}
"""),(body("FeOne("),"""func FeOne(fe *FieldElement) {
	*fe = FieldElement{1}
}
"""))
REFS.append(dict(id="a15-renamed",edits=[(F,S,S.replace("geMixedAdd","addMixed").replace("selectPoint(t *PreComputedGroupElement, pos int32, b int32)","lookup(t *PreComputedGroupElement, pos int, b int32)").replace("selectPoint(&t, i/2, ","lookup(&t, int(i/2), "))]))
one("a16-square-mul","FeSquare(","""func FeSquare(h, f *FieldElement) {
	FeMul(h, f, f)
}
""")
gs=body("GeScalarMultBase(")
ref("a17-digits",(gs,gs.replace("""	var e [64]int8

	for i, v := range a {
		e[2*i] = int8(v & 15)
		e[2*i+1] = int8((v >> 4) & 15)
	}

	// each e[i] is between 0 and 15 and e[63] is between 0 and 7.

	carry := int8(0)
	for i := 0; i < 63; i++ {
		e[i] += carry
		carry = (e[i] + 8) >> 4
		e[i] -= carry << 4
	}
	e[63] += carry
	// each e[i] is between -8 and 8.
""","""	e := digits(a)
""").replace("""	for i := int32(1); i < 64; i += 2 {
		selectPoint(&t, i/2, int32(e[i]))
		geMixedAdd(&r, h, &t)
		r.ToExtended(h)
	}
""","""	step := func(i int32) {
		selectPoint(&t, i>>1, int32(e[i]))
		geMixedAdd(&r, h, &t)
		r.ToExtended(h)
	}
	for i := int32(1); i < 64; i += 2 {
		step(i)
	}
""",1).replace("""	for i := int32(0); i < 64; i += 2 {
		selectPoint(&t, i/2, int32(e[i]))
		geMixedAdd(&r, h, &t)
		r.ToExtended(h)
	}
""","""	for i := int32(62); i >= 0; i -= 2 {
		step(i)
	}
""")+"""
func digits(a *[32]byte) (e [64]int8) {
	carry := 0
	for i := range e {
		d := int(a[i/2])
		if i%2 == 1 {
			d >>= 4
		}
		d = d%16 + carry
		carry = 0
		if i < 63 {
			carry = (d + 8) / 16
		}
		e[i] = int8(d - 16*carry)
	}
	return e
}
"""))
ref("a18-encode-helper",("""func (p *ExtendedGroupElement) ToBytes(s *[32]byte) {
	var recip, x, y FieldElement

	FeInvert(&recip, &p.Z)
	FeMul(&x, &p.X, &recip)
	FeMul(&y, &p.Y, &recip)
	FeToBytes(s, &y)
	s[31] ^= FeIsNegative(&x) << 7
}
""","""func (p *ExtendedGroupElement) ToBytes(s *[32]byte) {
	var q ProjectiveGroupElement
	p.ToProjective(&q)
	q.ToBytes(s)
}
"""))
