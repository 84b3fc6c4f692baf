package c13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/google/xtoproto/protocp"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "message streams x trees of composite writers x one or more injected failures (reader constructor, read i, write i of writer w, finalize of w, open, close, byte stream); non-trivial: at least two messages and either two writers or an injected failure; distinct by the whole scenario")
}

type log struct{ events []string }

// leaf is a scripted writer that records what it is given.
type leaf struct {
	id      int
	rows    []proto.Message
	fins    int
	failRow int // -1: never
	failFin bool
	err     error
	log     *log
	ctx     context.Context
	ctxBad  bool
	addFin  bool // a row arrived after finalize
}

func (l *leaf) add(ctx context.Context, m proto.Message) error {
	if ctx != l.ctx {
		l.ctxBad = true
	}
	if l.fins > 0 {
		l.addFin = true
	}
	i := len(l.rows)
	l.rows = append(l.rows, m)
	l.log.events = append(l.log.events, fmt.Sprintf("w%d+%d", l.id, i))
	if i == l.failRow {
		return l.err
	}
	return nil
}

func (l *leaf) fin(ctx context.Context) error {
	if ctx != l.ctx {
		l.ctxBad = true
	}
	l.fins++
	l.log.events = append(l.log.events, fmt.Sprintf("w%d!", l.id))
	if l.failFin {
		return l.err
	}
	return nil
}

type tree struct {
	leaf *leaf
	kids []*tree
}

func (t *tree) writer() protocp.MessageWriter {
	if t.leaf != nil {
		return protocp.NewVerifWriter(t.leaf.add, t.leaf.fin)
	}
	var ws []protocp.MessageWriter
	for _, k := range t.kids {
		ws = append(ws, k.writer())
	}
	return protocp.NewCompositeRecordWriter(ws...)
}

func (t *tree) leaves() []*leaf {
	if t.leaf != nil {
		return []*leaf{t.leaf}
	}
	var out []*leaf
	for _, k := range t.kids {
		out = append(out, k.leaves()...)
	}
	return out
}

func (t *tree) String() string {
	if t.leaf != nil {
		s := fmt.Sprintf("w%d", t.leaf.id)
		if t.leaf.failRow >= 0 {
			s += fmt.Sprintf("(fails row %d)", t.leaf.failRow)
		}
		if t.leaf.failFin {
			s += "(fails finalize)"
		}
		return s
	}
	var ks []string
	for _, k := range t.kids {
		ks = append(ks, k.String())
	}
	return "[" + strings.Join(ks, " ") + "]"
}

type scenario struct {
	msgs    []proto.Message
	readErr int // index of the read that fails; -1 none
	errWith bool
	newErr  bool
	root    *tree
	log     *log
	ctx     context.Context
	rerr    error
	nerr    error
}

type ctxKey struct{}

// fault draws an error, some of a kind that code may be tempted to take for
// something else. Only io.EOF itself, from a reader, means the end.
func fault(t *pbt.T, what string, eof bool) error {
	switch gen.Int(t.T, 0, 9, "error") {
	case 0:
		return fmt.Errorf("injected %s: %w", what, io.EOF)
	case 1:
		return fmt.Errorf("injected %s: %w", what, io.ErrUnexpectedEOF)
	case 2:
		return fmt.Errorf("injected %s: %w", what, context.Canceled)
	case 3:
		if eof {
			return io.EOF
		}
		return errors.New("EOF") // looks like the end, and is not
	}
	return errors.New("injected " + what)
}

func draw(t *pbt.T) *scenario {
	s := &scenario{readErr: -1, log: &log{}, nerr: fault(t, "constructor error", true)}
	s.ctx = context.WithValue(context.Background(), ctxKey{}, 1)
	n := gen.Int(t.T, 0, 7, "nmsgs")
	for i := 0; i < n; i++ {
		// Equal contents are common, so messages are compared by identity.
		if gen.OneIn(t.T, 8, "odd") {
			s.msgs = append(s.msgs, gen.Pick[proto.Message](t.T, "oddmsg", (*wrapperspb.StringValue)(nil), &wrapperspb.BytesValue{}, wrapperspb.Int64(0)))
			continue
		}
		s.msgs = append(s.msgs, wrapperspb.String(gen.Pick(t.T, "msg", "a", "b", "")))
	}
	if gen.OneIn(t.T, 4, "readfail") {
		s.readErr = gen.Int(t.T, 0, n, "readfail.at")
		s.errWith = gen.Bool(t.T, "readfail.withmsg")
		s.rerr = fault(t, "read error", false)
	}
	s.newErr = gen.OneIn(t.T, 12, "newfail")
	id := 0
	var mk func(depth int) *tree
	mk = func(depth int) *tree {
		if depth == 0 || gen.OneIn(t.T, 3, "leaf") {
			l := &leaf{id: id, failRow: -1, log: s.log, ctx: s.ctx, err: fault(t, fmt.Sprintf("error of writer %d", id), true)}
			id++
			if gen.OneIn(t.T, 5, "rowfail") {
				l.failRow = gen.Int(t.T, 0, n, "rowfail.at")
			}
			l.failFin = gen.OneIn(t.T, 5, "finfail")
			return &tree{leaf: l}
		}
		tr := &tree{}
		for i, k := 0, gen.Int(t.T, 0, 3, "kids"); i < k; i++ {
			tr.kids = append(tr.kids, mk(depth-1))
		}
		return tr
	}
	s.root = mk(2)
	return s
}

func (s *scenario) describe() string {
	d := fmt.Sprintf("%d messages, writers %v", len(s.msgs), s.root)
	if s.readErr >= 0 {
		d += fmt.Sprintf(", read %d fails", s.readErr)
	}
	if s.newErr {
		d += ", constructor fails"
	}
	return d
}

func (s *scenario) faults() int {
	n := 0
	if s.newErr {
		n++
	}
	if s.readErr >= 0 {
		n++
	}
	for _, l := range s.root.leaves() {
		if l.failRow >= 0 {
			n++
		}
		if l.failFin {
			n++
		}
	}
	return n
}

type reader struct {
	s *scenario
	i int
	// reads after the end or after an error
	late bool
	done bool
}

func (r *reader) ReadMessage() (proto.Message, error) {
	if r.done {
		r.late = true
	}
	i := r.i
	r.i++
	if i == r.s.readErr {
		r.done = true
		if r.s.errWith && i < len(r.s.msgs) {
			return r.s.msgs[i], r.s.rerr
		}
		return nil, r.s.rerr
	}
	if i >= len(r.s.msgs) {
		r.done = true
		return nil, io.EOF
	}
	return r.s.msgs[i], nil
}

// expect computes, by the statement, what each leaf must have received and
// the error that must come back (nil: none).
func (s *scenario) expect() (rows map[int]int, finals bool, err error, failingRow int) {
	rows = map[int]int{}
	failingRow = -1
	if s.newErr {
		return rows, false, s.nerr, -1
	}
	ls := s.root.leaves()
	for i := 0; ; i++ {
		if i == s.readErr {
			return rows, false, s.rerr, -1
		}
		if i >= len(s.msgs) {
			break
		}
		for _, l := range ls {
			rows[l.id]++
			if l.failRow == i {
				return rows, false, l.err, i
			}
		}
	}
	for _, l := range ls {
		if l.failFin {
			return rows, true, l.err, -1
		}
	}
	return rows, true, nil, -1
}

func (s *scenario) check(t *pbt.T, err error, extra ...error) {
	rows, finals, want, _ := s.expect()
	if want == nil && len(extra) > 0 {
		want = extra[0]
	}
	if (err == nil) != (want == nil) || want != nil && !errors.Is(err, want) {
		t.Fatalf("copy returned %v, want %v", err, want)
	}
	for _, l := range s.root.leaves() {
		if len(l.rows) != rows[l.id] {
			t.Fatalf("writer %d got %d rows, want %d (%v)", l.id, len(l.rows), rows[l.id], s.log.events)
		}
		for i, m := range l.rows {
			if m != s.msgs[i] {
				t.Fatalf("writer %d: row %d is not message %d (%v)", l.id, i, i, s.log.events)
			}
		}
		if finals && l.fins != 1 || l.fins > 1 {
			t.Fatalf("writer %d finalized %d times (%v)", l.id, l.fins, s.log.events)
		}
		if l.ctxBad {
			t.Fatalf("writer %d got another context", l.id)
		}
		if l.addFin {
			t.Fatalf("writer %d got a row after it was finalized", l.id)
		}
	}
	t.Class(fmt.Sprintf("faults=%d,err=%v", s.faults(), want != nil))
}

func TestCopy(t *testing.T) {
	pbt.Check(t, 15000, func(t *pbt.T) {
		s := draw(t)
		t.Case(len(s.msgs) >= 2 && (len(s.root.leaves()) >= 2 || s.faults() > 0), s.describe())
		src := strings.NewReader("x")
		var rd *reader
		cp := protocp.NewCopier(func(r io.Reader) (protocp.MessageReader, error) {
			if r != io.Reader(src) {
				t.Fatalf("the reader constructor got another stream")
			}
			if s.newErr {
				return nil, s.nerr
			}
			rd = &reader{s: s}
			return rd, nil
		})
		// The same copier copies several streams independently.
		for round := 0; round < gen.Int(t.T, 1, 2, "rounds"); round++ {
			for _, l := range s.root.leaves() {
				l.rows, l.fins, l.addFin = nil, 0, false
			}
			s.log.events = nil
			err := cp.Copy(s.ctx, src, s.root.writer())
			s.check(t, err)
		}
	})
}

type file struct {
	data   string
	pos    int
	chunk  int
	failAt int
	rerr   error
	cerr   error
	closed int
	late   bool
}

func (f *file) Read(p []byte) (int, error) {
	if f.closed > 0 {
		f.late = true
		return 0, errors.New("read after close")
	}
	if f.failAt >= 0 && f.pos >= f.failAt {
		return 0, f.rerr
	}
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	n := len(p)
	if n > f.chunk {
		n = f.chunk
	}
	end := f.pos + n
	if end > len(f.data) {
		end = len(f.data)
	}
	if f.failAt >= 0 && end > f.failAt {
		end = f.failAt
	}
	n = copy(p, f.data[f.pos:end])
	f.pos += n
	return n, nil
}

func (f *file) Close() error { f.closed++; return f.cerr }

type fs struct {
	t     *pbt.T
	ctx   context.Context
	name  string
	f     *file
	err   error
	opens int
}

func (x *fs) OpenRead(ctx context.Context, name string) (io.ReadCloser, error) {
	x.opens++
	if ctx != x.ctx || name != x.name {
		x.t.Fatalf("opened %q, want %q", name, x.name)
	}
	if x.err != nil {
		return nil, x.err
	}
	return x.f, nil
}

// byteReader yields one message per byte of the stream, and the stream's
// error: what a real record reader does with a damaged file.
type byteReader struct{ r io.Reader }

func (b *byteReader) ReadMessage() (proto.Message, error) {
	var c [1]byte
	_, err := io.ReadFull(b.r, c[:])
	if err != nil {
		return nil, err
	}
	return wrapperspb.String(string(c[:])), nil
}

func TestCopyFile(t *testing.T) {
	pbt.Check(t, 1500, func(t *pbt.T) {
		s := draw(t)
		f := &file{data: gen.Line(t.T, 12, "data"), chunk: gen.Int(t.T, 1, 5, "chunk"), failAt: -1, rerr: errors.New("injected stream error")}
		x := &fs{t: t, ctx: s.ctx, name: gen.Line(t.T, 8, "name"), f: f}
		if gen.OneIn(t.T, 8, "openfail") {
			x.err = fault(t, "open error", true)
		}
		if gen.OneIn(t.T, 3, "closefail") {
			f.cerr = fault(t, "close error", true)
		}
		t.Case(len(s.msgs) >= 2 && (x.err != nil || f.cerr != nil || s.faults() > 0), fmt.Sprintf("%s; open fails: %v, close fails: %v", s.describe(), x.err != nil, f.cerr != nil))
		cp := protocp.NewCopier(func(r io.Reader) (protocp.MessageReader, error) {
			if s.newErr {
				return nil, s.nerr
			}
			data, err := io.ReadAll(r)
			if err != nil || string(data) != f.data {
				t.Fatalf("stream gave %q, %v; file holds %q", data, err, f.data)
			}
			return &reader{s: s}, nil
		})
		err := cp.CopyFile(s.ctx, x, x.name, s.root.writer())
		if x.err != nil {
			if !errors.Is(err, x.err) {
				t.Fatalf("got %v, want the open error", err)
			}
			for _, l := range s.root.leaves() {
				if len(l.rows) != 0 {
					t.Fatalf("rows written although the file did not open")
				}
			}
			return
		}
		if f.closed != 1 {
			t.Fatalf("the file was closed %d times (error %v)", f.closed, err)
		}
		if f.late {
			t.Fatalf("the file was read after it was closed")
		}
		if f.cerr != nil {
			s.check(t, err, f.cerr)
		} else {
			s.check(t, err)
		}
	}, pbt.ThoroughMult(8))
}

func TestCopyFileStreamError(t *testing.T) {
	pbt.Check(t, 800, func(t *pbt.T) {
		data := gen.Text(t.T, 20, "data")
		f := &file{data: data, chunk: gen.Int(t.T, 1, 7, "chunk"), failAt: -1, rerr: errors.New("injected stream error")}
		if gen.Bool(t.T, "fail") {
			f.failAt = gen.Int(t.T, 0, len(data), "failat")
		}
		ctx := context.Background()
		l := &leaf{failRow: -1, log: &log{}, ctx: ctx}
		x := &fs{t: t, ctx: ctx, name: "n", f: f}
		t.Case(f.failAt >= 0 && len(data) > 1, fmt.Sprintf("%q fails at %d, chunks of %d", data, f.failAt, f.chunk))
		cp := protocp.NewCopier(func(r io.Reader) (protocp.MessageReader, error) { return &byteReader{r}, nil })
		err := cp.CopyFile(ctx, x, "n", protocp.NewVerifWriter(l.add, l.fin))
		want := data
		if f.failAt >= 0 {
			want = data[:f.failAt]
			if !errors.Is(err, f.rerr) {
				t.Fatalf("got %v, want the stream error", err)
			}
		} else if err != nil || l.fins != 1 {
			t.Fatalf("got %v, finalized %d times", err, l.fins)
		}
		got := ""
		for _, m := range l.rows {
			got += m.(*wrapperspb.StringValue).Value
		}
		if got != want {
			t.Fatalf("copied %q, want %q", got, want)
		}
		if f.closed != 1 {
			t.Fatalf("the file was closed %d times", f.closed)
		}
	}, pbt.ThoroughMult(8))
}

type multiFS map[string]*file

func (m multiFS) OpenRead(_ context.Context, name string) (io.ReadCloser, error) { return m[name], nil }

// stepped is one copy that pauses before each of its steps.
type stepped struct {
	id     int
	resume chan bool
	ready  chan<- int // id when paused, ^id when finished
}

func (s *stepped) pause() { s.ready <- s.id; <-s.resume }

// TestOverlapping runs several copies of one Copier at once, interleaved as
// drawn at each open and write: each must copy its own file.
func TestOverlapping(t *testing.T) {
	pbt.Check(t, 400, func(t *pbt.T) {
		n := gen.Int(t.T, 2, 3, "copies")
		ready := make(chan int, 100)
		files := multiFS{}
		var cos []*stepped
		var leaves []*leaf
		var errs = make([]error, n)
		var panics = make([]interface{}, n)
		var desc []string
		for i := 0; i < n; i++ {
			c := &stepped{id: i, resume: make(chan bool), ready: ready}
			cos = append(cos, c)
			f := &file{data: strings.Repeat(fmt.Sprint(i), gen.Int(t.T, 0, 6, "len")), chunk: gen.Int(t.T, 1, 3, "chunk"), failAt: -1, rerr: errors.New("injected stream error")}
			if gen.OneIn(t.T, 4, "fail") {
				f.failAt = gen.Int(t.T, 0, len(f.data), "failat")
			}
			files[fmt.Sprint(i)] = f
			leaves = append(leaves, &leaf{id: i, failRow: -1, log: &log{}, ctx: context.WithValue(context.Background(), ctxKey{}, c)})
			desc = append(desc, fmt.Sprintf("%q fails at %d, chunk %d", f.data, f.failAt, f.chunk))
		}
		cp := protocp.NewCopier(func(r io.Reader) (protocp.MessageReader, error) { return &byteReader{r}, nil })
		for i := range cos {
			c, l := cos[i], leaves[i]
			w := protocp.NewVerifWriter(func(ctx context.Context, m proto.Message) error { c.pause(); return l.add(ctx, m) },
				func(ctx context.Context) error { c.pause(); return l.fin(ctx) })
			go func() {
				defer func() {
					panics[c.id] = recover()
					c.ready <- ^c.id
				}()
				c.pause()
				errs[c.id] = cp.CopyFile(l.ctx, pausingFS{files, c}, fmt.Sprint(c.id), w)
			}()
		}
		paused := map[int]bool{}
		running, finished := n, 0
		note := func(id int) {
			running--
			if id < 0 {
				finished++
			} else {
				paused[id] = true
			}
		}
		var sched []int
		for finished < n {
			for running > 0 {
				if len(paused) == 0 {
					select {
					case id := <-ready:
						note(id)
					case <-time.After(30 * time.Second):
						t.Fatalf("overlapping copies block each other for good: files %v, schedule %v", desc, sched)
					}
					continue
				}
				// One that waits for another to finish is left alone.
				select {
				case id := <-ready:
					note(id)
					continue
				case <-time.After(time.Second):
				}
				break
			}
			if len(paused) == 0 {
				continue
			}
			k := gen.Int(t.T, 0, n-1, "next")
			for !paused[k] {
				k = (k + 1) % n
			}
			delete(paused, k)
			running++
			sched = append(sched, k)
			cos[k].resume <- true
		}
		switches := 0
		for i := 1; i < len(sched); i++ {
			if sched[i] != sched[i-1] {
				switches++
			}
		}
		t.Case(switches > n, fmt.Sprintf("files %v, schedule %v", desc, sched))
		for i, l := range leaves {
			f := files[fmt.Sprint(i)]
			if panics[i] != nil {
				t.Fatalf("copy %d panics: %v", i, panics[i])
			}
			want, fins := f.data, 1
			if f.failAt >= 0 {
				want, fins = f.data[:f.failAt], 0
				if !errors.Is(errs[i], f.rerr) {
					t.Fatalf("copy %d returns %v, want its stream's error", i, errs[i])
				}
			} else if errs[i] != nil {
				t.Fatalf("copy %d returns %v", i, errs[i])
			}
			got := ""
			for _, m := range l.rows {
				got += m.(*wrapperspb.StringValue).Value
			}
			if got != want || f.failAt < 0 && l.fins != fins || l.ctxBad || l.addFin {
				t.Fatalf("copy %d wrote %q (finalized %d times, wrong context %v), want %q", i, got, l.fins, l.ctxBad, want)
			}
			if f.closed != 1 {
				t.Fatalf("file %d was closed %d times", i, f.closed)
			}
		}
	}, pbt.ThoroughMult(8))
}

type pausingFS struct {
	multiFS
	c *stepped
}

func (p pausingFS) OpenRead(ctx context.Context, name string) (io.ReadCloser, error) {
	p.c.pause()
	defer p.c.pause()
	return p.multiFS.OpenRead(ctx, name)
}

// TestCancelled copies while the context is cancelled: a copy either says so, or
// is complete; the failure that stopped it is never lost.
func TestCancelled(t *testing.T) {
	pbt.Check(t, 1500, func(t *pbt.T) {
		n := gen.Int(t.T, 0, 12, "n")
		if gen.OneIn(t.T, 10, "many") {
			n = gen.Int(t.T, 60, 1200, "nmany")
		}
		at := gen.Int(t.T, -1, n, "cancel") // before the copy, or at a row
		fail := -1
		if gen.OneIn(t.T, 3, "fails") && n > 0 {
			fail = gen.Int(t.T, 0, n-1, "failrow")
		}
		stream := gen.Bool(t.T, "file")
		t.Case(n > 1, fmt.Sprintf("%d rows, cancelled at %d, row %d fails, file %v", n, at, fail, stream))
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var in strings.Builder
		for i := 0; i < n; i++ {
			in.WriteByte(byte('a' + i%26))
		}
		var got strings.Builder
		fins := 0
		rerr := errors.New("injected row error")
		mk := func(main bool) protocp.MessageWriter {
			return protocp.NewVerifWriter(func(_ context.Context, m proto.Message) error {
				if !main {
					return nil
				}
				if got.Len() == at {
					cancel()
				}
				if got.Len() == fail {
					return rerr
				}
				got.WriteString(m.(*wrapperspb.StringValue).Value)
				return nil
			}, func(context.Context) error {
				if main {
					fins++
				}
				return nil
			})
		}
		w := protocp.NewCompositeRecordWriter(mk(false), mk(true))
		if at < 0 {
			cancel()
		}
		cp := protocp.NewCopier(func(r io.Reader) (protocp.MessageReader, error) { return &byteReader{r}, nil })
		var err error
		f := &file{data: in.String(), chunk: 100, failAt: -1, cerr: gen.Pick(t.T, "closeerr", nil, nil, errors.New("injected close error"))}
		if stream {
			err = cp.CopyFile(ctx, &fs{t: t, ctx: ctx, name: "n", f: f}, "n", w)
			if f.closed != 1 {
				t.Fatalf("the file was closed %d times", f.closed)
			}
		} else {
			f.cerr = nil
			err = cp.Copy(ctx, strings.NewReader(in.String()), w)
		}
		if !strings.HasPrefix(in.String(), got.String()) {
			t.Fatalf("rows %q are not the first of %q", got.String(), in.String())
		}
		switch {
		case ctx.Err() != nil && errors.Is(err, ctx.Err()):
			return // told so
		case fail >= 0:
			if !errors.Is(err, rerr) {
				t.Fatalf("got %v, want the row's error", err)
			}
		case f.cerr != nil:
			if !errors.Is(err, f.cerr) {
				t.Fatalf("got %v, want the close error", err)
			}
		case err != nil:
			t.Fatalf("got %v", err)
		}
		if fail < 0 && (got.Len() != n || fins != 1) {
			t.Fatalf("copied %d rows of %d, finalized %d times, with error %v", got.Len(), n, fins, err)
		}
	})
}

// TestLargeFile copies files larger than any buffer.
func TestLargeFile(t *testing.T) {
	pbt.Check(t, 7, func(t *pbt.T) {
		size := gen.Pick(t.T, "size", 10<<20, 10<<20+1, 10<<20-1, 25<<20, 45<<20)
		per := gen.Pick(t.T, "per", 997, 4096, 65537, 1<<20+3)
		data := make([]byte, size)
		x := uint32(gen.Int(t.T, 1, 1<<30, "fill"))
		for i := range data {
			x = x*1664525 + 1013904223
			data[i] = byte(x >> 24)
		}
		f := &file{data: string(data), chunk: gen.Pick(t.T, "chunk", 4097, 1<<16, 1<<30), failAt: -1, rerr: errors.New("injected stream error")}
		if gen.Bool(t.T, "fail") {
			f.failAt = gen.Pick(t.T, "failat", size, size-1, 10<<20-1, size/2)
		}
		t.Case(true, fmt.Sprintf("%d bytes in records of %d, chunks of %d, fails at %d", size, per, f.chunk, f.failAt))
		ctx := context.Background()
		var got []byte
		fins := 0
		w := protocp.NewVerifWriter(func(_ context.Context, m proto.Message) error {
			got = append(got, m.(*wrapperspb.BytesValue).Value...)
			return nil
		}, func(context.Context) error { fins++; return nil })
		cp := protocp.NewCopier(func(r io.Reader) (protocp.MessageReader, error) { return &blockReader{r, per}, nil })
		err := cp.CopyFile(ctx, &fs{t: t, ctx: ctx, name: "n", f: f}, "n", protocp.NewCompositeRecordWriter(w))
		want := f.data
		if f.failAt >= 0 {
			want = f.data[:f.failAt/per*per]
			if !errors.Is(err, f.rerr) {
				t.Fatalf("got %v, want the stream error", err)
			}
		} else if err != nil || fins != 1 {
			t.Fatalf("got %v, finalized %d times", err, fins)
		}
		if string(got) != want {
			t.Fatalf("copied %d bytes, want %d, or they differ", len(got), len(want))
		}
		if f.closed != 1 {
			t.Fatalf("the file was closed %d times", f.closed)
		}
	}, pbt.ThoroughMult(4))
}

type blockReader struct {
	r   io.Reader
	per int
}

func (b *blockReader) ReadMessage() (proto.Message, error) {
	buf := make([]byte, b.per)
	n, err := io.ReadFull(b.r, buf)
	if err == io.ErrUnexpectedEOF {
		err = nil
	}
	if err != nil {
		return nil, err
	}
	return wrapperspb.Bytes(buf[:n]), nil
}
