// Package irix is a reference implementation of RFC 3987 syntax, RFC 3986
// resolution and percent normalization, with generators of IRI references.
package irix

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/google/xtoproto/verifharness/gen"
	"pgregory.net/rapid"
)

// Parts are the components of an IRI reference; nil is undefined.
type Parts struct {
	Scheme, Authority *string
	Path              string
	Query, Fragment   *string
}

func (p Parts) String() string {
	var b strings.Builder
	if p.Scheme != nil {
		b.WriteString(*p.Scheme + ":")
	}
	if p.Authority != nil {
		b.WriteString("//" + *p.Authority)
	}
	b.WriteString(p.Path)
	if p.Query != nil {
		b.WriteString("?" + *p.Query)
	}
	if p.Fragment != nil {
		b.WriteString("#" + *p.Fragment)
	}
	return b.String()
}

func sp(s string) *string { return &s }

// Split takes a string apart as RFC 3986 appendix B does.
func Split(s string) Parts {
	var p Parts
	if i := strings.IndexByte(s, '#'); i >= 0 {
		p.Fragment, s = sp(s[i+1:]), s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		p.Query, s = sp(s[i+1:]), s[:i]
	}
	if i := strings.IndexAny(s, ":/"); i > 0 && s[i] == ':' {
		p.Scheme, s = sp(s[:i]), s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		s = s[2:]
		i := strings.IndexByte(s, '/')
		if i < 0 {
			i = len(s)
		}
		p.Authority, s = sp(s[:i]), s[i:]
	}
	p.Path = s
	return p
}

func isAlpha(r rune) bool { return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' }
func isDigit(r rune) bool { return r >= '0' && r <= '9' }
func isHex(r rune) bool   { return isDigit(r) || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' }

func isUnreserved(r rune) bool {
	return isAlpha(r) || isDigit(r) || r == '-' || r == '.' || r == '_' || r == '~'
}

func isSubDelim(r rune) bool { return r != 0 && r < 128 && strings.ContainsRune("!$&'()*+,;=", r) }

func isUcs(r rune) bool {
	switch {
	case r < 0xA0:
		return false
	case r <= 0xD7FF, r >= 0xF900 && r <= 0xFDCF, r >= 0xFDF0 && r <= 0xFFEF:
		return true
	case r >= 0x10000 && r <= 0xEFFFF:
		return r&0xFFFF <= 0xFFFD && (r < 0xE0000 || r >= 0xE1000)
	}
	return false
}

// IsIunreserved is the grammar's iunreserved.
func IsIunreserved(r rune) bool { return isUnreserved(r) || isUcs(r) }

func isPrivate(r rune) bool {
	return r >= 0xE000 && r <= 0xF8FF || r >= 0xF0000 && r <= 0xFFFFD || r >= 0x100000 && r <= 0x10FFFD
}

// chars reports whether s is made of iunreserved, sub-delims, escapes and the
// characters of extra.
func chars(s, extra string, private bool) bool {
	for i := 0; i < len(s); {
		if s[i] == '%' {
			if i+2 >= len(s) || !isHex(rune(s[i+1])) || !isHex(rune(s[i+2])) {
				return false
			}
			i += 3
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			return false
		}
		if !(IsIunreserved(r) || isSubDelim(r) || strings.ContainsRune(extra, r) || private && isPrivate(r)) {
			return false
		}
		i += n
	}
	return true
}

func ipv4(s string) bool {
	ps := strings.Split(s, ".")
	if len(ps) != 4 {
		return false
	}
	for _, p := range ps {
		n := 0
		if len(p) < 1 || len(p) > 3 || len(p) > 1 && p[0] == '0' {
			return false
		}
		for _, c := range p {
			if !isDigit(c) {
				return false
			}
			n = n*10 + int(c-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}

// groups counts the 16-bit groups of a colon-separated list, -1 if it is none.
func groups(s string, v4 bool) int {
	if s == "" {
		return 0
	}
	ps := strings.Split(s, ":")
	n := 0
	for i, p := range ps {
		if v4 && i == len(ps)-1 && ipv4(p) {
			n += 2
			continue
		}
		if len(p) < 1 || len(p) > 4 {
			return -1
		}
		for _, c := range p {
			if !isHex(c) {
				return -1
			}
		}
		n++
	}
	return n
}

func ipv6(s string) bool {
	if i := strings.Index(s, "::"); i >= 0 {
		a, b := groups(s[:i], false), groups(s[i+2:], true)
		return a >= 0 && b >= 0 && a+b <= 7
	}
	return groups(s, true) == 8
}

func ipvFuture(s string) bool {
	if s == "" || s[0]|0x20 != 'v' {
		return false
	}
	i := strings.IndexByte(s, '.')
	if i < 2 || i == len(s)-1 {
		return false
	}
	for _, c := range s[1:i] {
		if !isHex(c) {
			return false
		}
	}
	for _, c := range s[i+1:] {
		if !isUnreserved(c) && !isSubDelim(c) && c != ':' {
			return false
		}
	}
	return true
}

func authority(s string) bool {
	if i := strings.IndexByte(s, '@'); i >= 0 {
		if !chars(s[:i], ":", false) {
			return false
		}
		s = s[i+1:]
	}
	rest := ""
	if strings.HasPrefix(s, "[") {
		i := strings.IndexByte(s, ']')
		if i < 0 || !ipv6(s[1:i]) && !ipvFuture(s[1:i]) {
			return false
		}
		rest = s[i+1:]
	} else {
		i := strings.IndexByte(s, ':')
		if i < 0 {
			i = len(s)
		}
		if !chars(s[:i], "", false) {
			return false
		}
		rest = s[i:]
	}
	if rest == "" {
		return true
	}
	if rest[0] != ':' {
		return false
	}
	for _, c := range rest[1:] {
		if !isDigit(c) {
			return false
		}
	}
	return true
}

// Derivable reports whether the RFC 3987 grammar derives s as an
// IRI-reference.
func Derivable(s string) bool {
	p := Split(s)
	if p.Scheme != nil {
		for i, c := range *p.Scheme {
			if !isAlpha(c) && (i == 0 || !isDigit(c) && c != '+' && c != '-' && c != '.') {
				return false
			}
		}
	}
	if p.Authority != nil && !authority(*p.Authority) {
		return false
	}
	if !chars(p.Path, ":@/", false) {
		return false
	}
	if p.Scheme == nil && p.Authority == nil {
		first := p.Path
		if i := strings.IndexByte(first, '/'); i >= 0 {
			first = first[:i]
		}
		if strings.Contains(first, ":") {
			return false
		}
	}
	if p.Query != nil && !chars(*p.Query, ":@/?", true) {
		return false
	}
	return p.Fragment == nil || chars(*p.Fragment, ":@/?", false)
}

// EscapesUTF8 reports whether every run of escapes is the UTF-8 of some
// characters.
func EscapesUTF8(s string) bool {
	_, ok := normalize(s)
	return ok
}

// Absolute reports whether s is an IRI (with a scheme).
func Absolute(s string) bool { return Derivable(s) && Split(s).Scheme != nil }

func unhex(c byte) byte {
	switch {
	case c <= '9':
		return c - '0'
	case c <= 'F':
		return c - 'A' + 10
	}
	return c - 'a' + 10
}

// Escapes reports whether every % of s begins an escape.
func Escapes(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && (i+2 >= len(s) || !isHex(rune(s[i+1])) || !isHex(rune(s[i+2]))) {
			return false
		}
	}
	return true
}

// Decode decodes every escape.
func Decode(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) && isHex(rune(s[i+1])) && isHex(rune(s[i+2])) {
			b.WriteByte(unhex(s[i+1])<<4 | unhex(s[i+2]))
			i += 2
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// Normalize decodes the escapes of iunreserved characters and gives the others
// upper-case digits; false if a run of escapes is not UTF-8.
func Normalize(s string) (string, bool) { return normalize(s) }

func normalize(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); {
		j := i
		var run []byte
		for j+2 < len(s) && s[j] == '%' && isHex(rune(s[j+1])) && isHex(rune(s[j+2])) {
			run = append(run, unhex(s[j+1])<<4|unhex(s[j+2]))
			j += 3
		}
		if len(run) == 0 {
			b.WriteByte(s[i])
			i++
			continue
		}
		if !utf8.Valid(run) {
			return "", false
		}
		for _, r := range string(run) {
			if IsIunreserved(r) {
				b.WriteRune(r)
			} else {
				for _, c := range []byte(string(r)) {
					fmt.Fprintf(&b, "%%%02X", c)
				}
			}
		}
		i = j
	}
	return b.String(), true
}

// removeDots is 5.2.4 by segments instead of by prefixes.
func removeDots(path string) string {
	if path == "" {
		return ""
	}
	rooted := path[0] == '/'
	segs := strings.Split(path, "/")
	if rooted {
		segs = segs[1:]
	}
	// A rootless path loses dot segments at its front; after its first other
	// segment every segment has a slash in front.
	var front string
	haveFront := false
	if !rooted {
		for len(segs) > 0 && (segs[0] == "." || segs[0] == "..") {
			segs = segs[1:]
		}
		if len(segs) == 0 {
			return ""
		}
		front, haveFront = segs[0], true
		segs = segs[1:]
	}
	var out []string
	for i, s := range segs {
		last := i == len(segs)-1
		switch s {
		case ".":
			if last {
				out = append(out, "")
			}
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			} else {
				front, haveFront = "", false
			}
			if last {
				out = append(out, "")
			}
		default:
			out = append(out, s)
		}
	}
	res := ""
	if haveFront {
		res = front
	}
	for _, s := range out {
		res += "/" + s
	}
	return res
}

// Resolve is RFC 3986 5.2.2. sameDoc is true for the empty reference, whose
// fragment the RFC leaves undefined and the repository takes from the base.
func Resolve(base, ref string) (target Parts, sameDoc bool) {
	b, r := Split(base), Split(ref)
	t := Parts{Fragment: r.Fragment}
	switch {
	case r.Scheme != nil:
		t.Scheme, t.Authority, t.Path, t.Query = r.Scheme, r.Authority, removeDots(r.Path), r.Query
	case r.Authority != nil:
		t.Scheme, t.Authority, t.Path, t.Query = b.Scheme, r.Authority, removeDots(r.Path), r.Query
	case r.Path == "":
		t.Scheme, t.Authority, t.Path, t.Query = b.Scheme, b.Authority, b.Path, r.Query
		if r.Query == nil {
			t.Query = b.Query
			sameDoc = r.Fragment == nil
		}
	default:
		t.Scheme, t.Authority, t.Query = b.Scheme, b.Authority, r.Query
		switch {
		case r.Path[0] == '/':
			t.Path = removeDots(r.Path)
		case b.Authority != nil && b.Path == "":
			t.Path = removeDots("/" + r.Path)
		default:
			t.Path = removeDots(b.Path[:strings.LastIndexByte(b.Path, '/')+1] + r.Path)
		}
	}
	return t, sameDoc
}

var ucsEdges = []rune{0xA0, 0xD7FF, 0xF900, 0xFDCF, 0xFDF0, 0xFFEF, 0x10000, 0x1FFFD, 0x20000, 0x2FFFD, 0x3FFFD, 0x4FFFD, 0x5FFFD, 0x6FFFD, 0x7FFFD,
	0x8FFFD, 0x9FFFD, 0xAFFFD, 0xBFFFD, 0xCFFFD, 0xDFFFD, 0xE1000, 0xEFFFD, 0xE9, 0x4E2D, 0x1F600, 0x200E, 0x30000, 0xD0000}

// NonUcs are the neighbours of the grammar's ranges.
var NonUcs = []rune{0x9F, 0xE000, 0xF8FF, 0xFDD0, 0xFDEF, 0xFFF0, 0xFFFD, 0xFFFE, 0xFFFF, 0x1FFFE, 0x2FFFF, 0xDFFFE, 0xE0000, 0xE0FFF, 0xEFFFE, 0xF0000, 0xFFFFD, 0xFFFFE, 0x100000, 0x10FFFD, 0x10FFFE, 0x10FFFF, 0x7F}

func escape(t gen.D, label string) string {
	var r rune
	switch gen.Int(t, 0, 3, label+".esc") {
	case 0:
		r = rune(gen.Int(t, 0, 127, label+".ascii"))
	case 1:
		r = gen.Pick(t, label+".ucs", ucsEdges...)
	case 2:
		r = gen.Pick(t, label+".non", NonUcs...)
	default:
		r = rune(gen.Pick(t, label+".common", ' ', 'a', '~', '/', '.', 'é', '%', '4', '\u2026'))
	}
	f := "%%%02X"
	if gen.Bool(t, label+".lower") {
		f = "%%%02x"
	}
	s := ""
	for _, c := range []byte(string(r)) {
		s += fmt.Sprintf(f, c)
	}
	return s
}

// run draws characters of a component.
func run(t gen.D, min, max int, extra string, private bool, label string) string {
	n := gen.Int(t, min, max, label+".n")
	var b strings.Builder
	if n > 0 && gen.OneIn(t, 300, label+".long") {
		b.WriteString(strings.Repeat(gen.Pick(t, label+".piece", "a", "é", "%C3%A9", "%20", "-", "%F0%9F%98%80", "%e4%b8%ad", "0", "%41"), gen.Pick(t, label+".times", 17, 33, 65, 257, 1030, 2100)))
	}
	for i := 0; i < n; i++ {
		switch gen.Int(t, 0, 9, label+".kind") {
		case 0:
			b.WriteRune(gen.Pick(t, label+".ucs", ucsEdges...))
		case 1:
			b.WriteString(escape(t, label))
		case 2:
			b.WriteString(gen.Pick(t, label+".sub", strings.Split("!$&'()*+,;=-._~", "")...))
		case 3:
			if extra != "" {
				b.WriteString(gen.Pick(t, label+".extra", strings.Split(extra, "")...))
			}
		case 4:
			if private {
				b.WriteRune(gen.Pick(t, label+".priv", rune(0xE000), 0xF8FF, 0xF0000, 0xFFFFD, 0x100000, 0x10FFFD))
			} else {
				b.WriteString("z")
			}
		default:
			b.WriteString(gen.Pick(t, label+".c", "a", "b", "Z", "0", "9", "x1"))
		}
	}
	return b.String()
}

func v4(t gen.D) string {
	o := func() string {
		return gen.Pick(t, "octet", "0", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "00", "01", "300", "1", "010", "099", "000", "001", "0255")
	}
	return o() + "." + o() + "." + o() + "." + o()
}

func v6(t gen.D) string {
	list := func(n int, last bool) string {
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, rapid.StringMatching(`[0-9a-fA-F]{1,4}`).Draw(t, "h16"))
		}
		if last && n > 1 && gen.OneIn(t, 3, "v4tail") {
			ps = append(ps[:n-2], "127.0.0.1")
			if gen.OneIn(t, 4, "v4odd") {
				ps[len(ps)-1] = v4(t)
			}
		}
		return strings.Join(ps, ":")
	}
	if gen.OneIn(t, 3, "full") {
		return list(gen.Pick(t, "groups", 8, 8, 8, 8, 7, 9), true)
	}
	a := gen.Int(t, 0, 7, "before")
	b := gen.Int(t, 0, max(0, 7-a), "after")
	if gen.OneIn(t, 8, "toomany") {
		b++
	}
	if gen.OneIn(t, 8, "anycount") {
		a, b = gen.Int(t, 0, 9, "anybefore"), gen.Pick(t, "anyafter", 0, 0, 0, 1, 2, 6, 7, 8, 9)
	}
	return list(a, false) + "::" + list(b, true)
}

// Authority draws an authority, nearly always a legal one.
func Authority(t gen.D) string {
	s := ""
	if gen.OneIn(t, 4, "userinfo") {
		s += run(t, 0, 4, ":", false, "user") + "@"
	}
	switch gen.Int(t, 0, 9, "host") {
	case 0:
		s += v4(t)
	case 1, 2:
		s += "[" + v6(t) + "]"
	case 3:
		s += "[" + gen.Pick(t, "v", "v1.", "vF.", "V10.", "vabc.", "v123456789aBcDeF0.", "v000000001.", "V0123456789012345678901234567890123456789.") + rapid.StringMatching(`[a-z0-9:;!~._-]{1,5}`).Draw(t, "future") + "]"
	case 4:
		s += run(t, 0, 5, "", false, "regname")
	default:
		s += gen.Pick(t, "plain", "example.org", "a", "a.b", "")
	}
	if gen.OneIn(t, 4, "port") {
		s += ":" + gen.Pick(t, "portno", "", "80", "8080", "0", "99999999999")
	}
	return s
}

// Path draws path segments.
func Path(t gen.D, rooted bool, nocolon bool) string {
	n := gen.Int(t, 0, 5, "segs")
	if gen.OneIn(t, 60, "longpath") {
		// Many segments, repeated from a few.
		var b strings.Builder
		b.WriteString("a")
		for i := 0; i < n; i++ {
			b.WriteString(strings.Repeat("/"+gen.Pick(t, "repeated", "..", ".", "b", "", "c", "..", "d/.."), gen.Int(t, 1, 60, "times")))
		}
		if rooted {
			return "/" + b.String()
		}
		return b.String()
	}
	var segs []string
	for i := 0; i < n; i++ {
		extra := ":@"
		if nocolon && !rooted && i == 0 {
			extra = "@"
		}
		switch gen.Int(t, 0, 5, "seg") {
		case 0, 1:
			segs = append(segs, gen.Pick(t, "dots", ".", "..", "", "...", ".a", "..b", ".", "..", "", "%2E%2E", "%2e", ".%2e", "%2E%2e", "..;", ".,"))
		case 2:
			segs = append(segs, run(t, 1, 4, extra, false, "segment"))
		default:
			segs = append(segs, gen.Pick(t, "plain", "a", "b", "c", "d"))
		}
	}
	s := strings.Join(segs, "/")
	if rooted {
		return "/" + s
	}
	return s
}

func maybeTail(t gen.D, s string) string {
	if gen.OneIn(t, 3, "query") {
		s += "?" + run(t, 0, 4, ":@/?", true, "query")
	}
	if gen.OneIn(t, 3, "fragment") {
		s += "#" + run(t, 0, 4, ":@/?", false, "fragment")
	}
	return s
}

// Scheme draws a scheme.
func Scheme(t gen.D) string {
	if gen.Bool(t, "http") {
		return gen.Pick(t, "scheme", "http", "urn", "file", "a", "tag", "HTTP")
	}
	return rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9+.-]{0,3}`).Draw(t, "scheme")
}

// IRI draws an absolute IRI, nearly always a legal one.
func IRI(t gen.D) string { return maybeTail(t, Scheme(t)+":"+hier(t, false)) }

func hier(t gen.D, nocolon bool) string {
	switch gen.Int(t, 0, 4, "hier") {
	case 0:
		return Path(t, false, nocolon)
	case 1:
		return Path(t, true, nocolon)
	case 2:
		return "//" + Authority(t)
	}
	return "//" + Authority(t) + Path(t, true, nocolon)
}

// Ref draws an IRI reference, nearly always a legal one.
func Ref(t gen.D) string {
	switch gen.Int(t, 0, 5, "ref") {
	case 0, 1:
		return IRI(t)
	case 2:
		return maybeTail(t, hier(t, true))
	case 3:
		return maybeTail(t, "")
	}
	return maybeTail(t, Path(t, gen.OneIn(t, 3, "rooted"), true))
}

// Simple draws a plain absolute IRI, with a few unusual characters.
func Simple(t gen.D, label string) string {
	s := gen.Pick(t, label+".start", "http://example.org/", "http://a/b/c/", "urn:x:", "http://example.org/ns#", "https://u@h:80/?q=")
	return s + rapid.StringMatching(`[a-z]{1,4}([0-9._~-][a-zé中]{1,3})?`).Draw(t, label)
}
