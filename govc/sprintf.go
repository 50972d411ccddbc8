package main

import (
	"go/types"
	"strings"
)

// sprintf gives the string that fmt.Sprintf makes of a known format whose verbs are %s, for a string (of a type
// without methods of its own), and %d, for an int; nil for anything else.
func (v *Verifier) sprintf(format, list *Term) *Term {
	g := v.g
	f, ok := g.litVal[format.Op]
	if !ok {
		return nil
	}
	els, ok := g.seqLit(list)
	if !ok {
		return nil
	}
	out := g.Str("")
	for {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			break
		}
		if i+1 >= len(f) {
			return nil
		}
		out = g.App("scat", out, g.Str(f[:i]))
		verb := f[i+1]
		f = f[i+2:]
		if verb == '%' {
			out = g.App("scat", out, g.Str("%"))
			continue
		}
		if len(els) == 0 || !strings.HasPrefix(els[0].Op, "box$") {
			return nil
		}
		t := g.typeOf[g.typeID[els[0].Op[4:]]]
		if t == nil {
			return nil
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok || types.NewMethodSet(t).Len() > 0 {
			return nil
		}
		switch {
		case verb == 's' && b.Kind() == types.String:
			out = g.App("scat", out, els[0].Args[0])
		case verb == 'd' && b.Kind() == types.Int:
			out = g.App("scat", out, v.pureApp("strconv.Itoa", 0, tString, []*Term{els[0].Args[0]}))
		default:
			return nil
		}
		els = els[1:]
	}
	if len(els) > 0 {
		return nil
	}
	return g.App("scat", out, g.Str(f))
}
