package main

import (
	"fmt"
	"strings"
)

// dag prints a term with shared parts named, cut at a length.
func dag(t *Term, limit int) string {
	uses := map[*Term]int{}
	var count func(*Term)
	count = func(x *Term) {
		uses[x]++
		if uses[x] > 1 {
			return
		}
		for _, a := range x.args {
			count(a)
		}
	}
	count(t)
	names := map[*Term]string{}
	var defs []string
	var pr func(x *Term, d int) string
	pr = func(x *Term, d int) string {
		if n, ok := names[x]; ok {
			return n
		}
		var s string
		if x.op == OIte {
			if x.args[1] == tTrue && x.args[2] == tFalse {
				s = pr(x.args[0], d+1)
			} else if x.args[1] == tFalse && x.args[2] == tTrue {
				s = "!" + pr(x.args[0], d+1)
			} else if x.args[2] == tFalse {
				s = "(" + pr(x.args[0], d+1) + " & " + pr(x.args[1], d+1) + ")"
			} else if x.args[1] == tFalse {
				s = "(!" + pr(x.args[0], d+1) + " & " + pr(x.args[2], d+1) + ")"
			} else {
				s = "[" + pr(x.args[0], d+1) + " ? " + pr(x.args[1], d+1) + " : " + pr(x.args[2], d+1) + "]"
			}
		} else if len(x.args) == 0 || x.op == OLin {
			s = strD(x, 12)
			if x.op == OLin {
				var sb []string
				for i, a := range x.args {
					c := x.co[i].String()
					if c == "1" {
						sb = append(sb, pr(a, d+1))
					} else {
						sb = append(sb, c+"*"+pr(a, d+1))
					}
				}
				s = "(" + strings.Join(sb, "+") + "+" + x.n.String() + ")"
			}
		} else {
			hd := opNames[x.op]
			switch x.op {
			case OFn:
				hd = x.name
			case OStruct:
				hd = shortType(x.typ)
			case OIface:
				hd = "i:" + shortType(x.typ)
			case OPtr:
				hd = "&" + baseName(x.k)
			case OFAddr:
				hd = fmt.Sprintf("f%d", x.k)
			case OGen, OFilt, OExists, OFirst, OIter:
				hd = fmt.Sprintf("%s{b%d}", hd, x.k)
			}
			var sb []string
			for _, a := range x.args {
				sb = append(sb, pr(a, d+1))
			}
			s = hd + "(" + strings.Join(sb, ", ") + ")"
			if x.op == OFunc {
				s = strD(x, 2)
			}
		}
		if uses[x] > 1 && len(s) > 28 {
			n := fmt.Sprintf("$%d", len(names)+1)
			names[x] = n
			defs = append(defs, n+" = "+s)
			return n
		}
		return s
	}
	r := pr(t, 0)
	if len(defs) > 0 {
		r += "  where " + strings.Join(defs, "; ")
	}
	if len(r) > limit {
		r = r[:limit] + "..."
	}
	return r
}
