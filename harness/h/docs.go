package h

import "verifharness/sym"

// docs are small documents that together use every construct of the grammar; harnesses mutate them at arbitrary
// positions.
var docs = []string{
	`{"a":1,"b":[true,null]}`,
	`[1.5e3,"x\n",{},[]]`,
	`{"k":{"k":"v"},"z":-0}`,
	`["\u00e9\ud83d\ude00",false]`,
	` { "a" : [ 1 , 2 ] } `,
	`[[[]],{"a":{}},""]`,
	`-12.25`,
	`"a\"\\\/\b\t"`,
	`{"":"","A":"\u0041"}`,
	"[\"\u00e9\u4e2d\U0001f600\"]",
	`[true,false,null,{"t":true}]`,
	`{"n":12345,"n":6789}`,
}

// mutate picks a document and applies one edit at an arbitrary position with arbitrary bytes.
func mutate(edits int) []byte {
	b := []byte(docs[sym.Choose("doc", len(docs))])
	for i := 0; i < edits; i++ {
		switch sym.Choose("edit", 4) {
		case 0: // replace
			p := sym.Choose("pos", len(b))
			b[p] = sym.Byte("with")
		case 1: // delete
			p := sym.Choose("pos", len(b))
			b = append(b[:p], b[p+1:]...)
		case 2: // insert
			p := sym.Choose("pos", len(b)+1)
			b = append(b, 0)
			copy(b[p+1:], b[p:])
			b[p] = sym.Byte("with")
		case 3: // truncate
			b = b[:sym.Choose("pos", len(b))]
		}
		if len(b) == 0 {
			break
		}
	}
	return b
}

// gen writes an arbitrary small document together with the tree it denotes.
type gen struct {
	b     []byte
	left  int // values that may still be created
	blank int // 0 no blanks, 1 one arbitrary blank at every gap, 2 two
	wide  int // elements per container
}

func (g *gen) gap() {
	for i := 0; i < g.blank; i++ {
		g.b = append(g.b, sym.OneOf("ws", " \t\n\r"))
	}
}

func (g *gen) lit(s string) { g.b = append(g.b, s...) }

func (g *gen) strBody() string {
	c := sym.Byte("ch")
	sym.Assume(c >= 0x20 && c < 0x80 && c != '"' && c != '\\')
	g.b = append(g.b, c)
	return string([]byte{c})
}

func (g *gen) value(depth int) *N {
	g.left--
	kinds := 5
	if depth > 0 && g.left > 0 {
		kinds = 7
	}
	switch sym.Choose("kind", kinds) {
	case 0:
		d := sym.Byte("digit")
		sym.Assume(d >= '0' && d <= '9')
		g.b = append(g.b, d)
		return &N{k: 'n', s: string([]byte{d})}
	case 1:
		g.lit(`"`)
		s := g.strBody()
		g.lit(`"`)
		return &N{k: 's', s: s}
	case 2:
		if sym.Bool("true") {
			g.lit("true")
			return &N{k: 't'}
		}
		g.lit("null")
		return &N{k: 'z'}
	case 3:
		g.lit("[")
		g.gap()
		g.lit("]")
		return &N{k: 'a'}
	case 4:
		g.lit("{")
		g.gap()
		g.lit("}")
		return &N{k: 'o'}
	case 5:
		n := &N{k: 'a'}
		g.lit("[")
		for i := 0; ; i++ {
			g.gap()
			n.kids = append(n.kids, g.value(depth-1))
			g.gap()
			if g.left <= 0 || i+1 >= g.wide || sym.Choose("more", 2) == 0 {
				break
			}
			g.lit(",")
		}
		g.lit("]")
		return n
	}
	n := &N{k: 'o'}
	g.lit("{")
	for i := 0; ; i++ {
		g.gap()
		g.lit(`"`)
		k := sym.OneOf("key", "abA")
		g.b = append(g.b, k)
		g.lit(`"`)
		g.gap()
		g.lit(":")
		g.gap()
		v := g.value(depth - 1)
		n.set(string([]byte{k}), v)
		g.gap()
		if g.left <= 0 || i+1 >= g.wide || sym.Choose("more", 2) == 0 {
			break
		}
		g.lit(",")
	}
	g.lit("}")
	return n
}
