package c35

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/google/xtoproto/verifharness/cmdx"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "runs of generate_test_cases on random manifests (approved and other tests of all kinds, any spelling of the XML, files with any bytes) or on one with a fault (a missing file, broken XML, a place that cannot be written to); the output is type checked and its values compared; non-trivial: at least one approved test; distinct by manifest and files")
}

const base = "http://www.w3.org/2000/10/rdf-tests/rdfcore/"

type testCase struct{ Name, InputXML, DocumentURL, OutputNTriples, Description string }

// load type checks the generated code and evaluates its two variables.
func load(code string) (pos, neg []testCase, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", code, 0)
	if err != nil {
		return nil, nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	pkg, err := (&types.Config{}).Check("x", fset, []*ast.File{f}, info)
	if err != nil {
		return nil, nil, err
	}
	if pkg.Name() != "rdftestcases" {
		return nil, nil, fmt.Errorf("the package is called %q", pkg.Name())
	}
	seen := 0
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			if len(v.Names) != 1 || len(v.Values) != 1 {
				return nil, nil, fmt.Errorf("unexpected variables %v", v.Names)
			}
			list, ok := v.Values[0].(*ast.CompositeLit)
			if !ok {
				return nil, nil, fmt.Errorf("%s is no literal", v.Names[0])
			}
			var out []testCase
			for _, e := range list.Elts {
				if u, ok := e.(*ast.UnaryExpr); ok {
					e = u.X
				}
				var c testCase
				for _, kv := range e.(*ast.CompositeLit).Elts {
					kv := kv.(*ast.KeyValueExpr)
					val := info.Types[kv.Value].Value
					if val == nil || val.Kind() != constant.String {
						return nil, nil, fmt.Errorf("a field of %s is no constant", v.Names[0])
					}
					s := constant.StringVal(val)
					switch kv.Key.(*ast.Ident).Name {
					case "Name":
						c.Name = s
					case "InputXML":
						c.InputXML = s
					case "DocumentURL":
						c.DocumentURL = s
					case "OutputNTriples":
						c.OutputNTriples = s
					case "Description":
						c.Description = s
					default:
						return nil, nil, fmt.Errorf("unexpected field %s", kv.Key)
					}
				}
				out = append(out, c)
			}
			switch v.Names[0].Name {
			case "Positives":
				pos = out
				seen |= 1
			case "Negatives":
				neg = out
				seen |= 2
			default:
				return nil, nil, fmt.Errorf("unexpected variable %s", v.Names[0])
			}
		}
	}
	if seen != 3 {
		return nil, nil, fmt.Errorf("Positives or Negatives is missing")
	}
	return pos, neg, nil
}

func diff(kind string, got, want []testCase) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%s has %d tests, want %d; %q is missing", kind, len(got), len(want), want[i].Name)
		}
		if got[i] != want[i] {
			return fmt.Sprintf("%s[%d] is\n%q\nwant\n%q", kind, i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%s has %q too much", kind, got[len(want)])
	}
	return ""
}

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func xmlText(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 0x20 && r != '\t' && r != '\n' || r == 0xFFFE || r == 0xFFFF || r == 0xFFFD {
			return '?'
		}
		return r
	}, s)
}

func TestManifest(t *testing.T) {
	exe := cmdx.Build("rdf/rdfxml/generate_test_cases")
	pbt.Check(t, 400, func(t *pbt.T) {
		dir := pbt.Scratch("cases")
		defer os.RemoveAll(dir)
		data := gen.Pick(t.T, "data", "data", "da ta/x", ".")
		fault := ""
		if gen.OneIn(t.T, 5, "faulty") {
			fault = gen.Pick(t.T, "fault", "missing", "truncated", "no manifest", "no XML", "blocked", "directory")
		}
		w := func(path, text string) { cmdx.Put(filepath.Join(dir, data), path, text) }
		files := map[string]string{}
		file := func(ext string) string {
			for {
				p := gen.Pick(t.T, "file", "test001", "error-1", "a b", "é", "x%20y", "test") + ext
				for i, n := 0, gen.Int(t.T, 0, 2, "filedepth"); i < n; i++ {
					p = gen.Pick(t.T, "filedir", "amp-in-url", "datatypes", "d", "xmlbase") + "/" + p
				}
				if _, ok := files[p]; ok && gen.Bool(t.T, "samefile") {
					return p
				} else if !ok {
					text := gen.Text(t.T, 30, "filetext")
					switch gen.Int(t.T, 0, 6, "textkind") {
					case 0:
						text = gen.Pick(t.T, "oddtext", "", "`", "\"\\", "\xff\xfe", "a\x00b", "\r\n", "%d %s", "\ufeff<a/>", "*/ //", "${x}\\n")
					case 1:
						text = strings.Repeat(text+"\n", gen.Pick(t.T, "lines", 200, 200, 4000))
					}
					files[p] = text
					w(p, text)
					return p
				}
			}
		}
		p := gen.Pick(t.T, "prefix", "test", "t", "é")
		sp := func() string { return gen.Pick(t.T, "space", "", "\n", "  ", "\n<!-- c -->\n", "<?x y?>") }
		var pos, neg []testCase
		body := ""
		var used []string
		for i, n := 0, gen.Int(t.T, 0, 6, "tests"); i < n; i++ {
			kind := gen.Pick(t.T, "kind", "Positive", "Positive", "Negative", "Negative", "MiscellaneousTest", "PositiveEntailmentTest", "NegativeEntailmentTest")
			status := gen.Pick(t.T, "status", "APPROVED", "APPROVED", "APPROVED", "NOT_APPROVED", "OBSOLETED", "WITHDRAWN", "PENDING", "")
			c := testCase{Name: base + gen.Pick(t.T, "name", "m/Manifest.rdf#test001", "Manifest.rdf#é", "q?a=1&b=\"2\"#x", "")}
			if !gen.OneIn(t.T, 5, "namesake") {
				c.Name += fmt.Sprint(i)
			}
			in, out := file(gen.Pick(t.T, "inext", ".rdf", ".xml", "")), file(".nt")
			c.DocumentURL, c.InputXML = base+in, files[in]
			desc := xmlText(gen.Text(t.T, 12, "desc"))
			parts := []string{}
			if status != "" || gen.Bool(t.T, "emptystatus") {
				parts = append(parts, "<"+p+":status>"+status+"</"+p+":status>")
			}
			if gen.Bool(t.T, "approval") {
				parts = append(parts, "<"+p+":approval rdf:resource='http://e/'/>")
			}
			if gen.Bool(t.T, "hasdesc") {
				parts = append(parts, "<"+p+":description>"+esc(desc)+"</"+p+":description>")
			} else {
				desc = ""
			}
			parts = append(parts, "<"+p+":inputDocument>"+sp()+"<"+p+":RDF-XML-Document rdf:about=\""+esc(c.DocumentURL)+"\"/>"+sp()+"</"+p+":inputDocument>")
			elem := kind
			switch kind {
			case "Positive":
				elem = "PositiveParserTest"
				parts = append(parts, "<"+p+":outputDocument>"+sp()+"<"+p+":NT-Document rdf:about=\""+esc(base+out)+"\"></"+p+":NT-Document></"+p+":outputDocument>")
				c.OutputNTriples = files[out]
				if status == "APPROVED" {
					pos = append(pos, c)
					used = append(used, in, out)
				}
			case "Negative":
				elem = "NegativeParserTest"
				c.Description = desc
				if status == "APPROVED" {
					neg = append(neg, c)
					used = append(used, in)
				}
			}
			if status != "APPROVED" && gen.Bool(t.T, "gonefile") {
				// Tests that do not count need no files.
				parts[len(parts)-1] = strings.ReplaceAll(parts[len(parts)-1], base, base+"gone/")
			}
			for a := len(parts) - 1; a > 0; a-- {
				b := gen.Int(t.T, 0, a, "perm")
				parts[a], parts[b] = parts[b], parts[a]
			}
			body += "<" + p + ":" + elem + " rdf:about=\"" + esc(c.Name) + "\">"
			for _, x := range parts {
				body += sp() + x
			}
			body += sp() + "</" + p + ":" + elem + ">" + sp()
		}
		manifest := "<?xml version=\"1.0\"?>\n<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:" + p + "='http://www.w3.org/2000/10/rdf-tests/rdfcore/testSchema#'>" + sp() + body + "</rdf:RDF>\n"
		if len(used) == 0 && fault == "missing" {
			fault = ""
		}
		mpath, opath := filepath.Join(dir, data, "Manifest.rdf"), filepath.Join(dir, gen.Pick(t.T, "out", "out.go", "o/out.go"))
		cmdx.Put(filepath.Dir(opath), "keep", "")
		if gen.Bool(t.T, "oldoutput") || fault == "blocked" {
			cmdx.Put(filepath.Dir(opath), "out.go", strings.Repeat("// old\n", gen.Pick(t.T, "oldsize", 1, 2000)))
		}
		switch fault {
		case "missing":
			os.Remove(filepath.Join(dir, data, gen.Pick(t.T, "gone", used...)))
		case "truncated":
			manifest = manifest[:gen.Int(t.T, 1, len(manifest)-len("</rdf:RDF>\n"), "cut")]
		case "no manifest":
			mpath += "x"
		case "no XML":
			manifest = gen.Pick(t.T, "noxml", "", "text", "<a", "<a/>", "<rdf:RDF><a></b></rdf:RDF>", strings.Replace(manifest, "</rdf:RDF>", "&</rdf:RDF>", 1))
		}
		w("Manifest.rdf", manifest)
		cmdx.Own(dir)
		switch fault {
		case "blocked":
			os.Chown(opath, 0, 0)
			os.Chmod(opath, 0444)
		case "directory":
			os.Remove(opath)
			os.MkdirAll(opath, 0755)
		}
		before := cmdx.Tree(dir)
		cwd := dir
		args := []string{"--manifest=" + mpath, "--output", opath}
		if gen.Bool(t.T, "relative") {
			args[0] = "--manifest=" + strings.TrimPrefix(mpath, dir+"/")
		}
		desc := fmt.Sprintf("args %q fault %q files %q manifest\n%s", args, fault, files, manifest)
		t.Case(len(used) > 0, strings.ReplaceAll(desc, dir, "DIR"))
		if fault == "blocked" && !cmdx.Unprivileged() {
			return
		}
		stdout, stderr, code := cmdx.Run(cwd, exe, nil, args)
		fail := func(format string, a ...interface{}) {
			t.Fatalf("%s\n%s\nexit %d\n%s\n%s", fmt.Sprintf(format, a...), desc, code, stdout, stderr)
		}
		after := cmdx.Tree(dir)
		if fault != "" {
			t.Class("fault " + fault)
			if code == 0 || strings.TrimSpace(stderr) == "" {
				fail("it does not report a failure")
			}
			if d := cmdx.Diff(after, before, nil); d != "" {
				fail("it fails and changes files: %s", d)
			}
			return
		}
		if code != 0 {
			fail("it fails")
		}
		rel, _ := filepath.Rel(dir, opath)
		if d := cmdx.Diff(after, before, func(p string) bool { return p == rel }); d != "" {
			fail("other files are changed: %s", d)
		}
		gp, gn, err := load(after[rel])
		if err != nil {
			fail("the code is not valid: %v\n%s", err, cmdx.Clip(after[rel]))
		}
		if d := diff("Positives", gp, pos); d != "" {
			fail("%s", d)
		}
		if d := diff("Negatives", gn, neg); d != "" {
			fail("%s", d)
		}
		t.Class(fmt.Sprintf("positive %v negative %v", len(pos) > 0, len(neg) > 0))
	})
}

// The package in the repository is the output for the W3C's files.
func TestCheckedIn(t *testing.T) {
	pbt.Regression(t, "checked in", func() string {
		exe := cmdx.Build("rdf/rdfxml/generate_test_cases")
		repo := os.Getenv("VERIF_REPO")
		dir := pbt.Scratch("w3c")
		defer os.RemoveAll(dir)
		src := filepath.Join(repo, "third_party/w3c.org/rdf-testcases")
		filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				pbt.Infra("%v", err)
			}
			if info.Mode().IsRegular() {
				b, err := os.ReadFile(p)
				if err != nil {
					pbt.Infra("%v", err)
				}
				rel, _ := filepath.Rel(src, p)
				cmdx.Put(dir, rel, string(b))
			}
			return nil
		})
		cmdx.Own(dir)
		if stdout, stderr, code := cmdx.Run(dir, exe, nil, []string{"--manifest", filepath.Join(dir, "Manifest.rdf"), "--output", filepath.Join(dir, "out.go")}); code != 0 {
			return fmt.Sprintf("on the W3C's files: exit %d, %s %s", code, stdout, stderr)
		}
		got, err := os.ReadFile(filepath.Join(dir, "out.go"))
		if err != nil {
			return err.Error()
		}
		want, err := os.ReadFile(filepath.Join(repo, "rdf/rdfxml/rdftestcases/rdftestcases.go"))
		if err != nil {
			return err.Error()
		}
		gp, gn, err := load(string(got))
		if err != nil {
			return err.Error()
		}
		wp, wn, err := load(string(want))
		if err != nil {
			return "rdftestcases.go: " + err.Error()
		}
		if d := diff("Positives", wp, gp); d != "" {
			return "rdftestcases.go: " + d
		}
		return strings.TrimPrefix(diff("Negatives", wn, gn), " ")
	})
}
