package c15

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/google/xtoproto/textpos"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "histories of AddFile (gaps, negative, too small and overflowing bases, empty files), AddLine, SetLines, SetLinesForContent and MergeLine run on textpos and on go/token side by side, then every position in and around the files and every line and column compared; non-trivial: at least two files or a file of at least three lines; distinct by history")
}

// caught runs f and reports whether it panicked.
func caught(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

type pair struct {
	x *textpos.File
	g *token.File
}

func drawContent(t *pbt.T) []byte {
	n := gen.Int(t.T, 0, 30, "size")
	if gen.OneIn(t.T, 100, "large") {
		n = gen.Int(t.T, 500, 2000, "largesize")
	}
	var b strings.Builder
	if gen.OneIn(t.T, 100, "longline") {
		b.WriteString(strings.Repeat("x", gen.Pick(t.T, "linelen", 127, 128, 255, 256, 1000, 4096)))
	}
	if gen.OneIn(t.T, 900, "huge") {
		b.WriteString(strings.Repeat(gen.Pick(t.T, "filler", "x\n", "\n", "abc\r\n", "x"), gen.Pick(t.T, "fillers", 260, 4097, 8200)))
		n = b.Len() + gen.Int(t.T, 0, 20, "after")
	}
	for b.Len() < n {
		b.WriteString(gen.Pick(t.T, "piece", "a", "bc", "\n", "\n", "\r\n", "é", "\n\n", "x y", "\r", "\x00", "\u2028", "\x85", "\f\v", "\xff"))
	}
	return []byte(b.String())
}

func drawLines(t *pbt.T, size int) []int {
	var ls []int
	for i, n := 0, gen.Int(t.T, 0, 6, "lines"); i < n; i++ {
		ls = append(ls, gen.Int(t.T, 0, size+1, "line"))
	}
	if !gen.OneIn(t.T, 6, "unsorted") {
		sort.Ints(ls)
	}
	if !gen.OneIn(t.T, 4, "nozero") && len(ls) > 0 {
		ls[0] = 0
	}
	if !gen.OneIn(t.T, 4, "dups") {
		out := ls[:0]
		for i, l := range ls {
			if i == 0 || l != ls[i-1] {
				out = append(out, l)
			}
		}
		ls = out
	}
	return ls
}

func comparePosition(x textpos.Position, g token.Position) string {
	if x.FileName() != g.Filename || x.Offset() != g.Offset || x.Line().Ordinal() != g.Line || x.Column().Ordinal() != g.Column {
		return fmt.Sprintf("position %q offset %d line %s column %s; go/token: %+v", x.FileName(), x.Offset(), x.Line(), x.Column(), g)
	}
	if x.IsValid() != g.IsValid() {
		return fmt.Sprintf("position %v valid %v; go/token %v", x, x.IsValid(), g.IsValid())
	}
	if x.String() != g.String() {
		return fmt.Sprintf("position prints as %q; go/token %q", x.String(), g.String())
	}
	return ""
}

func compareFile(p pair) string {
	x, g := p.x, p.g
	if x.Name() != g.Name() || x.Base() != g.Base() || x.Size() != g.Size() || x.LineCount() != g.LineCount() {
		return fmt.Sprintf("file %q base %d size %d lines %d; go/token: %q %d %d %d", x.Name(), x.Base(), x.Size(), x.LineCount(), g.Name(), g.Base(), g.Size(), g.LineCount())
	}
	for l := -1; l <= g.LineCount()+2; l++ {
		var xs textpos.Pos
		var gs token.Pos
		xp := caught(func() { xs = x.LineStart(textpos.LineFromOrdinal(l)) })
		gp := caught(func() { gs = g.LineStart(l) })
		if xp != gp || int(xs) != int(gs) {
			return fmt.Sprintf("LineStart(%d) is %d (panic %v); go/token %d (panic %v)", l, xs, xp, gs, gp)
		}
	}
	at := map[textpos.LineColumn]textpos.Pos{}
	for off := 0; off <= g.Size(); off++ {
		xp := x.Pos(off)
		if int(xp) != int(g.Pos(off)) || x.Offset(xp) != off {
			return fmt.Sprintf("Pos(%d) is %d, its offset %d; go/token %d", off, xp, x.Offset(xp), g.Pos(off))
		}
		pos := x.Position(xp)
		if msg := comparePosition(pos, g.Position(g.Pos(off))); msg != "" {
			return msg
		}
		if x.Line(xp).Ordinal() != g.Line(g.Pos(off)) {
			return fmt.Sprintf("line of offset %d is %s; go/token %d", off, x.Line(xp), g.Line(g.Pos(off)))
		}
		if pos.IsValid() {
			at[textpos.MakeLineColumn(pos.Line(), pos.Column())] = xp
		}
	}
	if x.Position(textpos.NoPos) != (textpos.Position{}) {
		return "position of NoPos is not the zero position"
	}
	// A position outside of the file is no position of it.
	for _, p := range []int{x.Base() - 1, x.Base() + x.Size() + 1, x.Base() + x.Size() + 1000} {
		if p == 0 {
			continue
		}
		var pos textpos.Position
		if !caught(func() { pos = x.Position(textpos.Pos(p)) }) && (pos.Offset() < 0 || pos.Offset() > x.Size()) {
			return fmt.Sprintf("position of %d, outside of the file, is %v at offset %d", p, pos, pos.Offset())
		}
	}
	// Line and column back to position.
	maxCol := g.Size() + 3
	step := 1
	for step <= maxCol && (maxCol/step+6)*g.LineCount() > 20000 {
		step = step*3 + 1
	}
	for l := -1; l <= g.LineCount()+2; l++ {
		cols := []int{-1, 0, 1, 2, maxCol, maxCol - 1, maxCol - 2, maxCol - 3}
		for c := 3 + (l+1)%step; c <= maxCol; c += step {
			cols = append(cols, c)
		}
		if l >= 1 && l <= g.LineCount() {
			end := g.Size()
			if l < g.LineCount() {
				end = g.Offset(g.LineStart(l + 1))
			}
			w := end - g.Offset(g.LineStart(l))
			cols = append(cols, w-1, w, w+1, w+2)
		}
		for _, c := range cols {
			lc := textpos.MakeLineColumn(textpos.LineFromOrdinal(l), textpos.ColumnFromOrdinal(c))
			if got, want := x.PosForLineColumn(lc), at[lc]; got != want {
				return fmt.Sprintf("PosForLineColumn(%d:%d) is %d, want %d", l, c, got, want)
			}
		}
	}
	for _, c := range []int{1 << 40, 1<<62 + (1<<62 - 1)} {
		if got := x.PosForLineColumn(textpos.MakeLineColumn(textpos.LineFromOrdinal(1), textpos.ColumnFromOrdinal(c))); got != textpos.NoPos {
			return fmt.Sprintf("PosForLineColumn(1:%d) is %d", c, got)
		}
		if got := x.PosForLineColumn(textpos.MakeLineColumn(textpos.LineFromOrdinal(c), textpos.ColumnFromOrdinal(1))); got != textpos.NoPos {
			return fmt.Sprintf("PosForLineColumn(%d:1) is %d", c, got)
		}
	}
	return ""
}

// compareSets looks up every position in and around the files, from the last to
// the first or the other way round, or hopping (the sets cache a file).
func compareSets(t *pbt.T, xs *textpos.FileSet, gs *token.FileSet, files []pair) string {
	if xs.Base() != gs.Base() {
		return fmt.Sprintf("base of the set is %d; go/token %d", xs.Base(), gs.Base())
	}
	var ps []int
	for _, f := range files {
		for _, o := range []int{-2, -1, 0, 1, f.g.Size() / 2, f.g.Size() - 1, f.g.Size(), f.g.Size() + 1, f.g.Size() + 2} {
			ps = append(ps, f.g.Base()+o)
		}
	}
	ps = append(ps, 0, 1, -1, gs.Base(), gs.Base()+100)
	// A generated order.
	for i := len(ps) - 1; i > 0; i-- {
		j := gen.Int(t.T, 0, i, "order")
		ps[i], ps[j] = ps[j], ps[i]
	}
	for _, p := range ps {
		xf, gf := xs.File(textpos.Pos(p)), gs.File(token.Pos(p))
		if (xf == nil) != (gf == nil) {
			return fmt.Sprintf("File(%d) is nil: %v; go/token: %v", p, xf == nil, gf == nil)
		}
		if xf != nil {
			found := false
			for _, f := range files {
				found = found || f.x == xf && f.g == gf
			}
			if !found {
				return fmt.Sprintf("File(%d) is the file at base %d; go/token's at %d", p, xf.Base(), gf.Base())
			}
		}
		if msg := comparePosition(xs.Position(textpos.Pos(p)), gs.Position(token.Pos(p))); msg != "" {
			return msg
		}
		if (textpos.Pos(p)).IsValid() != token.Pos(p).IsValid() {
			return fmt.Sprintf("Pos(%d).IsValid()", p)
		}
	}
	var order []*textpos.File
	stop := gen.Int(t.T, 1, len(files)+1, "stop")
	if len(files) == 0 {
		return ""
	}
	xs.Iterate(func(f *textpos.File) bool {
		order = append(order, f)
		// The function may look positions up.
		first := files[0].x
		if got := xs.File(textpos.Pos(first.Base())); got != first {
			order = nil
		}
		if p := xs.Position(f.Pos(0)); p.FileName() != f.Name() {
			order = nil
		}
		return len(order) < stop
	})
	want := len(files)
	if stop < want {
		want = stop
	}
	if len(order) != want {
		return fmt.Sprintf("Iterate visits %d files, want %d", len(order), want)
	}
	for i, f := range order {
		if f != files[i].x {
			return fmt.Sprintf("Iterate visits another file at %d", i)
		}
	}
	return ""
}

func TestHistory(t *testing.T) {
	pbt.Check(t, 2500, func(t *pbt.T) {
		xs, gs := textpos.NewFileSet(), token.NewFileSet()
		var files []pair
		var log []string
		long := false
		say := func(format string, a ...interface{}) {
			log = append(log, fmt.Sprintf(format, a...))
			t.Case(len(files) >= 2 || long, strings.Join(log, "\n"))
		}
		for i, n := 0, gen.Int(t.T, 1, 14, "ops"); i < n; i++ {
			op := gen.Int(t.T, 0, 9, "op")
			if len(files) == 0 {
				op = 0
			}
			var f pair
			if op >= 3 {
				f = files[gen.Int(t.T, 0, len(files)-1, "file")]
			}
			switch op {
			case 0, 1, 2:
				name := gen.Pick(t.T, "name", "a.txt", "b", "", "a:1")
				base, size := -1, gen.Int(t.T, 0, 30, "size")
				switch gen.Int(t.T, 0, 7, "basekind") {
				case 0:
					base = gs.Base()
				case 1, 2:
					base = gs.Base() + gen.Int(t.T, 0, 20, "gap")
				case 3:
					base = gen.Int(t.T, 0, gs.Base(), "small")
				case 4:
					size = -gen.Int(t.T, 1, 3, "negsize")
				case 5:
					if gen.OneIn(t.T, 3, "overflow") {
						base, size = int(^uint(0)>>1)-5, 10
					}
				}
				say("AddFile(%q, %d, %d)", name, base, size)
				gp := caught(func() { f.g = gs.AddFile(name, base, size) })
				xp := caught(func() { f.x = xs.AddFile(name, base, size) })
				if xp != gp {
					t.Fatalf("AddFile(%q, %d, %d) panics: %v; go/token: %v", name, base, size, xp, gp)
				}
				if !xp {
					files = append(files, f)
				} else {
					t.Class("addfile refused")
				}
			case 3, 4:
				off := gen.Int(t.T, 0, f.g.Size()+2, "offset")
				if gen.Bool(t.T, "next") && f.g.LineCount() > 0 {
					off = f.g.Position(f.g.LineStart(f.g.LineCount())).Offset + gen.Int(t.T, -1, 4, "step")
				}
				say("%d.AddLine(%d)", f.g.Base(), off)
				f.g.AddLine(off)
				f.x.AddLine(off)
			case 5:
				line := gen.Int(t.T, -1, f.g.LineCount()+1, "line")
				say("%d.MergeLine(%d)", f.g.Base(), line)
				gp := caught(func() { f.g.MergeLine(line) })
				xp := caught(func() { f.x.MergeLine(line) })
				if gp != xp {
					t.Fatalf("MergeLine(%d) panics: %v; go/token: %v", line, xp, gp)
				}
			case 6:
				ls := drawLines(t, f.g.Size())
				say("%d.SetLines(%v)", f.g.Base(), ls)
				g := f.g.SetLines(append([]int(nil), ls...))
				x := f.x.SetLines(append([]int(nil), ls...))
				t.Class(fmt.Sprintf("setlines %v", g))
				if g != x {
					t.Fatalf("SetLines(%v) is %v; go/token: %v", ls, x, g)
				}
			default:
				name := gen.Pick(t.T, "name", "c.txt", "")
				content := drawContent(t)
				say("AddFile with content %q", content)
				f = pair{xs.AddFile(name, -1, len(content)), gs.AddFile(name, -1, len(content))}
				files = append(files, f)
				f.g.SetLinesForContent(content)
				f.x.SetLinesForContent(content)
			}
			long = long || f.g != nil && f.g.LineCount() >= 3
			if f.g != nil && (f.g.Size() < 3000 || gen.OneIn(t.T, 4, "compare")) {
				say("compare %d", f.g.Base())
				if msg := compareFile(f); msg != "" {
					t.Fatalf("%s", msg)
				}
			}
			if gen.OneIn(t.T, 3, "sets") {
				if msg := compareSets(t, xs, gs, files); msg != "" {
					t.Fatalf("%s", msg)
				}
			}
		}
		say("end")
		if msg := compareSets(t, xs, gs, files); msg != "" {
			t.Fatalf("%s", msg)
		}
		for _, f := range files {
			if msg := compareFile(f); msg != "" {
				t.Fatalf("%s", msg)
			}
		}
	}, pbt.MustTerminate())
}

// The line and column number types.
func TestNumbers(t *testing.T) {
	pbt.Check(t, 1500, func(t *pbt.T) {
		l, c := gen.Int(t.T, -3, 1000, "line"), gen.Int(t.T, -3, 1000, "column")
		t.Case(l > 0 && c > 0, fmt.Sprintf("%d:%d", l, c))
		line, col := textpos.LineFromOrdinal(l), textpos.ColumnFromOrdinal(c)
		if line.Ordinal() != l || line.Offset() != l-1 || line.IsValid() != (l > 0) || line != textpos.LineFromOffset(l-1) || line.String() != fmt.Sprint(l) {
			t.Fatalf("line %d: ordinal %d offset %d valid %v %s", l, line.Ordinal(), line.Offset(), line.IsValid(), line)
		}
		if col.Ordinal() != c || col.Offset() != c-1 || col.IsValid() != (c > 0) || col != textpos.ColumnFromOffset(c-1) || col.String() != fmt.Sprint(c) {
			t.Fatalf("column %d: ordinal %d offset %d valid %v %s", c, col.Ordinal(), col.Offset(), col.IsValid(), col)
		}
		lc := textpos.MakeLineColumn(line, col)
		if lc.Line() != line || lc.Column() != col {
			t.Fatalf("line and column of %d:%d are %s and %s", l, c, lc.Line(), lc.Column())
		}
		want := []string{"-", "-"}
		if l > 0 {
			want[0] = fmt.Sprint(l)
		}
		if c > 0 {
			want[1] = fmt.Sprint(c)
		}
		if lc.String() != strings.Join(want, ":") {
			t.Fatalf("%d:%d prints as %q", l, c, lc.String())
		}
	})
}

// The methods of a file set may be used concurrently. (Run under the race detector.)
func TestConcurrent(t *testing.T) {
	pbt.Check(t, 150, func(t *pbt.T) {
		sizes := make([][]int, gen.Int(t.T, 2, 5, "goroutines"))
		for g := range sizes {
			for i, n := 0, gen.Int(t.T, 1, 6, "files"); i < n; i++ {
				sizes[g] = append(sizes[g], gen.Int(t.T, 0, 20, "size"))
			}
		}
		t.Case(true, fmt.Sprint(sizes))
		xs := textpos.NewFileSet()
		shared := xs.AddFile("shared", -1, 1000)
		got := make([][]*textpos.File, len(sizes))
		bad := make([]string, len(sizes))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range sizes {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i, n := range sizes[g] {
					f := xs.AddFile(fmt.Sprintf("%d.%d", g, i), -1, n)
					got[g] = append(got[g], f)
					shared.AddLine(g*100 + i + 1)
					shared.LineCount()
					shared.Position(shared.Pos(n))
					shared.PosForLineColumn(textpos.MakeLineColumn(textpos.LineFromOrdinal(1), textpos.ColumnFromOrdinal(1)))
					for _, p := range []int{f.Base(), f.Base() + n} {
						if xs.File(textpos.Pos(p)) != f {
							bad[g] = fmt.Sprintf("position %d is not in file %s", p, f.Name())
						}
						if pos := xs.Position(textpos.Pos(p)); pos.FileName() != f.Name() || pos.Offset() != p-f.Base() {
							bad[g] = fmt.Sprintf("position %d of file %s is %v", p, f.Name(), pos)
						}
					}
					k := 0
					xs.Iterate(func(*textpos.File) bool { k++; return true })
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				t.Fatalf("%s", b)
			}
		}
		// The intervals do not overlap.
		var all []*textpos.File
		for _, fs := range got {
			all = append(all, fs...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].Base() < all[j].Base() })
		for i, f := range all {
			if i > 0 && f.Base() <= all[i-1].Base()+all[i-1].Size() {
				t.Fatalf("files %s and %s overlap", all[i-1].Name(), f.Name())
			}
			if f.Base()+f.Size() >= xs.Base() {
				t.Fatalf("file %s runs past the set's base", f.Name())
			}
		}
	})
}

func TestFixed(t *testing.T) {
	pbt.Regression(t, "column_past_line_end", func() string {
		f := textpos.NewFileSet().AddFile("x", -1, 12)
		f.SetLinesForContent([]byte("abc\ndefg\nhij"))
		return compareFile(pair{f, func() *token.File {
			g := token.NewFileSet().AddFile("x", -1, 12)
			g.SetLinesForContent([]byte("abc\ndefg\nhij"))
			return g
		}()})
	})
}
