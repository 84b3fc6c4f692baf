package c25

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/rx"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "random RDF/XML documents (typed and plain nodes with about, ID, nodeID or none, property attributes, nested nodes, all parseTypes, rdf:li, reification, nested xml:base and xml:lang, unqualified legacy attributes, XML literals; spelled with random prefixes, default namespaces, shadowing, escapes, CDATA, comments and processing instructions), read by a reference interpreter as legal, with the graph it gives; non-trivial: at least four triples; distinct by document and base")
}

func TestGraph(t *testing.T) {
	pbt.Check(t, 10000, func(t *pbt.T) {
		root, base, want := rx.Document(t, gen.Int(t.T, 1, 14, "budget"))
		if want.Unspecified != "" {
			t.Excluded("unspecified: " + strings.Fields(want.Unspecified)[0])
			return
		}
		if want.Illegal != "" {
			t.Excluded("illegal")
			return
		}
		doc := rx.Write(t.T, root)
		how := gen.Pick(t.T, "how", rx.Sources...)
		t.Case(len(want.Triples) >= 4, fmt.Sprintf("%q base %q by %s", doc, base, how))
		for _, e := range root.All() {
			t.Class(e.Role)
		}
		got, raw, err, wrong := rx.Read(rx.Source(how, doc), base)
		if err != nil || wrong != "" {
			t.Fatalf("%s\nbase %q, by %s: %v %s\nwant\n%s", doc, base, how, err, wrong, rx.Show(want.Triples))
		}
		if !rx.Isomorphic(got, want.Triples) {
			t.Fatalf("%s\nbase %q, by %s, gives\n%s\nwant\n%s", doc, base, how, rx.Show(got), rx.Show(want.Triples))
		}
		if s := rx.Reprint(raw); s != "" {
			t.Fatalf("%s\nbase %q: %s", doc, base, s)
		}
	}, pbt.MustTerminate())
}

var number = regexp.MustCompile("v[0-9]+")

// Large documents: as many statements, items or texts of a kind as data has.
func TestLarge(t *testing.T) {
	pbt.Check(t, 6, func(t *pbt.T) {
		t.Case(true, "")
		for _, kind := range []string{"li", "property", "nodes", "collection", "ids", "nodeIDs", "references", "parseTypes", "literals"} {
			large(t, kind, gen.Pick(t.T, "n", 99, 256, 1001, 1025, 5001, 6000))
		}
		large(t, "collection", 1025)
		large(t, "references", 300)
		for _, kind := range []string{"nodes", "Resource", "Literal"} {
			deep(t, kind, gen.Pick(t.T, "depth", 40, 150, 300, 1000))
		}
	}, pbt.MustTerminate())
}

// deep reads n elements within each other.
func deep(t *pbt.T, kind string, n int) {
	t.Sub(true, fmt.Sprint("deep ", kind, n))
	const ex = "http://example.org/ns#"
	doc := `<r:RDF xmlns:r="` + rx.RDF + `" xmlns:e="` + ex + `"><r:Description r:about="http://example.org/s0">`
	shut := ""
	for i := 1; i <= n; i++ {
		switch kind {
		case "nodes":
			doc += fmt.Sprintf(`<e:p><r:Description r:about="http://example.org/s%d">`, i)
			shut += "</r:Description></e:p>"
		case "Resource":
			doc += `<e:p r:parseType="Resource">`
			shut += "</e:p>"
		case "Literal":
			if i == 1 {
				doc += `<e:p r:parseType="Literal">`
			} else {
				doc += "<a>"
				shut += "</a>"
			}
		}
	}
	if kind == "Literal" {
		doc += "x"
		shut += "</e:p>"
	} else {
		doc += "<e:q>x</e:q>"
	}
	doc += shut + "</r:Description></r:RDF>"
	got, _, err, wrong := rx.Read(rx.Source(gen.Pick(t.T, "how", rx.Sources...), doc), "http://example.org/")
	if err != nil || wrong != "" {
		t.Fatalf("%d deep %s: %v %s", n, kind, err, wrong)
	}
	if kind == "Literal" {
		if len(got) != 1 || strings.Count(got[0][2], "<{}a>") != n-1 && strings.Count(got[0][2], "<a>") != n-1 {
			t.Fatalf("an XML literal of %d elements within each other gives %.300v", n-1, rx.Show(got))
		}
		return
	}
	// A chain from the first subject to the value.
	at := "<http://example.org/s0>"
	by := map[string][]rx.Triple{}
	for _, x := range got {
		by[x[0]] = append(by[x[0]], x)
	}
	for i := 1; i <= n; i++ {
		ts := by[at]
		if len(ts) != 1 || ts[0][1] != "<"+ex+"p>" || kind == "nodes" && ts[0][2] != fmt.Sprintf("<http://example.org/s%d>", i) {
			t.Fatalf("%d deep %s: level %d is %v", n, kind, i, ts)
		}
		at = ts[0][2]
	}
	if ts := by[at]; len(got) != n+1 || len(ts) != 1 || ts[0][1] != "<"+ex+"q>" {
		t.Fatalf("%d deep %s: %d statements, the last is %v", n, kind, len(got), ts)
	}
}

func large(t *pbt.T, kind string, n int) {
	{
		if kind == "collection" && n > 1025 {
			n = 1025 // the reference compares its blank nodes
		}
		t.Sub(true, fmt.Sprint(kind, n))
		var b strings.Builder
		var want []rx.Triple
		const ex = "http://example.org/ns#"
		sub := func(i int) string { return fmt.Sprintf("<http://example.org/s%d>", i) }
		b.WriteString(`<r:RDF xmlns:r="` + rx.RDF + `" xmlns:e="` + ex + `">`)
		if kind != "nodes" && kind != "ids" && kind != "nodeIDs" {
			b.WriteString(`<r:Description r:about="http://example.org/s0">`)
		}
		if kind == "collection" {
			b.WriteString(`<e:p r:parseType="Collection">`)
		}
		for i := 1; i <= n; i++ {
			switch kind {
			case "li":
				fmt.Fprintf(&b, `<r:li r:resource="http://example.org/s%d"/>`, i)
				want = append(want, rx.Triple{sub(0), fmt.Sprintf("<%s_%d>", rx.RDF, i), sub(i)})
			case "property":
				fmt.Fprintf(&b, `<e:p><r:Description r:about="http://example.org/s%d"/></e:p>`, i)
				want = append(want, rx.Triple{sub(0), "<" + ex + "p>", sub(i)})
			case "parseTypes", "literals":
				pt := ""
				text := fmt.Sprint("v", i)
				obj := fmt.Sprintf("%q", text)
				if kind == "parseTypes" {
					pt = ` r:parseType="Literal"`
				}
				fmt.Fprintf(&b, `<e:p%s>%s</e:p>`, pt, text)
				want = append(want, rx.Triple{sub(0), "<" + ex + "p>", obj})
			case "nodes":
				fmt.Fprintf(&b, `<r:Description r:about="http://example.org/s%d"><e:p r:resource="http://example.org/s%d"/></r:Description>`, i, i+1)
				want = append(want, rx.Triple{sub(i), "<" + ex + "p>", sub(i + 1)})
			case "ids":
				fmt.Fprintf(&b, `<r:Description r:ID="s%d"><e:p r:resource="http://example.org/s%d"/></r:Description>`, i, i+1)
				want = append(want, rx.Triple{fmt.Sprintf("<http://example.org/#s%d>", i), "<" + ex + "p>", sub(i + 1)})
			case "nodeIDs":
				fmt.Fprintf(&b, `<r:Description r:nodeID="n%d"><e:p r:resource="http://example.org/s%d"/></r:Description>`, i, i+1)
				want = append(want, rx.Triple{fmt.Sprintf("_:n%d", i), "<" + ex + "p>", sub(i + 1)})
			case "references":
				fmt.Fprintf(&b, `<e:p><r:Description r:nodeID="n%d"/></e:p>`, i)
			case "collection":
				fmt.Fprintf(&b, `<r:Description r:about="http://example.org/s%d"/>`, i)
			}
		}
		if kind == "references" {
			// Each blank node is named twice, far from each other.
			for i := 1; i <= n; i++ {
				fmt.Fprintf(&b, `<e:q r:nodeID="n%d"/>`, i)
			}
		}
		if kind == "collection" {
			b.WriteString(`</e:p>`)
		}
		if kind != "nodes" && kind != "ids" && kind != "nodeIDs" {
			b.WriteString(`</r:Description>`)
		}
		b.WriteString(`</r:RDF>`)
		got, _, err, wrong := rx.Read(rx.Source(gen.Pick(t.T, "how", rx.Sources...), b.String()), "http://example.org/")
		if err != nil || wrong != "" {
			t.Fatalf("%d %s: %v %s", n, kind, err, wrong)
		}
		if kind == "collection" {
			next := map[string]rx.Triple{}
			for _, x := range got {
				next[x[0]+x[1]] = x
			}
			cell := next[sub(0)+"<"+ex+"p>"][2]
			for i := 1; i <= n; i++ {
				if f := next[cell+"<"+rx.RDF+"first>"][2]; f != sub(i) {
					t.Fatalf("item %d of %d is %q", i, n, f)
				}
				cell = next[cell+"<"+rx.RDF+"rest>"][2]
			}
			if cell != "<"+rx.RDF+"nil>" || len(got) != 2*n+1 {
				t.Fatalf("a list of %d ends with %q, after %d statements", n, cell, len(got))
			}
			return
		}
		if kind == "references" {
			in := map[string]map[string]bool{}
			for _, x := range got {
				if in[x[1]] == nil {
					in[x[1]] = map[string]bool{}
				}
				in[x[1]][x[2]] = true
			}
			p, q := in["<"+ex+"p>"], in["<"+ex+"q>"]
			for o := range p {
				if !q[o] {
					t.Fatalf("of %d blank nodes, %s was another one when it was named again", n, o)
				}
			}
			if len(got) != 2*n || len(p) != n || len(q) != n {
				t.Fatalf("%d blank nodes, each named twice, give %d statements about %d and %d of them", n, len(got), len(p), len(q))
			}
			return
		}
		if len(got) != len(want) {
			t.Fatalf("%d %s give %d statements", n, kind, len(got))
		}
		// No two of the statements have the same object.
		byObject := map[string]rx.Triple{}
		for _, x := range got {
			if kind == "literals" || kind == "parseTypes" {
				x[2] = fmt.Sprintf("%q", number.FindString(x[2]))
			}
			byObject[x[2]] = x
		}
		nodes := map[string]bool{}
		for i, w := range want {
			x := byObject[w[2]]
			if strings.HasPrefix(w[0], "_:") && strings.HasPrefix(x[0], "_:") {
				if nodes[x[0]] {
					t.Fatalf("statement %d of %d %s is of the node %s, as is another", i, n, kind, x[0])
				}
				nodes[x[0]] = true
				x[0] = w[0]
			}
			if x != w {
				t.Fatalf("statement %d of %d %s is %v, want %v", i, n, kind, x, w)
			}
		}
	}
}
