package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// setPolicy tells what is known about the values the library is given.
func setPolicy(p *program) {
	named := map[string]types.Type{
		"ecc.ECPublicKeyable":     types.NewPointer(p.typeNamed("ecc.DjbECPublicKey")),
		"ecc.ECPrivateKeyable":    types.NewPointer(p.typeNamed("ecc.DjbECPrivateKey")),
		"keys/chain.ChainKeyable": nil,
	}
	_ = named
	short := func(t types.Type) string { return strings.TrimPrefix(t.String(), modPath+"/") }
	policy.devirt = func(t types.Type) types.Type {
		switch short(t) {
		case "ecc.ECPublicKeyable":
			return types.NewPointer(p.typeNamed("ecc.DjbECPublicKey"))
		case "ecc.ECPrivateKeyable":
			return types.NewPointer(p.typeNamed("ecc.DjbECPrivateKey"))
		case "ecc.ECKeyable":
			return nil
		}
		// an interface of the library with exactly one implementation in it
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && isModPath(n.Obj().Pkg().Path()) {
			it, ok := t.Underlying().(*types.Interface)
			if !ok || it.NumMethods() == 0 {
				return nil
			}
			if strings.Contains(n.Obj().Pkg().Path(), "/store") || strings.Contains(n.Obj().Name(), "Serializer") || strings.Contains(n.Obj().Name(), "Logger") {
				return nil
			}
			var found []types.Type
			for _, k := range p.mod {
				sc := k.Pkg.Scope()
				for _, nm := range sc.Names() {
					tn, ok := sc.Lookup(nm).(*types.TypeName)
					if !ok || tn.IsAlias() {
						continue
					}
					if _, isI := tn.Type().Underlying().(*types.Interface); isI {
						continue
					}
					if types.Implements(tn.Type(), it) {
						found = append(found, tn.Type())
					} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
						found = append(found, pt)
					}
				}
			}
			if len(found) == 1 {
				return found[0]
			}
		}
		return nil
	}
	policy.maybeNil = func(path string, t types.Type) bool {
		s := short(t)
		switch {
		case strings.Contains(s, "optional.Uint32"), strings.Contains(s, "PendingPreKey"), strings.Contains(s, "PendingKeyExchange"), strings.Contains(s, "UnackPreKeyMessageItems"):
			return true
		case strings.Contains(s, "ecc.ECPrivateKeyable"):
			// the pairs in stores are whole
			for _, w := range []string{"prekey.", "signedprekey.", "ownidentity."} {
				if strings.HasPrefix(path, w) {
					return false
				}
			}
			return true
		case strings.HasSuffix(s, "state/record.Chain") && strings.Contains(path, "senderChain"):
			return true
		case strings.Contains(path, ".LoadPreKey@"), strings.Contains(path, ".LoadSignedPreKey@"):
			return !strings.Contains(path[strings.Index(path, "@"):], ".")
		}
		return false
	}
	policy.value = func(path string, t types.Type, idx []*Term) *Term {
		if strings.HasSuffix(t.String(), modPath+"/kdf.HKDF") || strings.HasSuffix(t.String(), "/kdf.KeyDeriver") {
			return mk(&Term{op: OFunc, fn: p.fnNamed("kdf.DeriveSecrets")})
		}
		return nil
	}
}

var _ *ssa.Function
