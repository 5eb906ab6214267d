// Package driver executes scripts of operations on the real library and
// records what the library did, for the specification to judge.
//
// The parent (DRV_IN, DRV_OUT) hands scripts to child processes (DRV_CHILD),
// one script at a time, and records crashes and hangs of a child as results.
package driver

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/mail"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/iotest"
	"testing/synctest"
	"time"

	rfc5322 "github.com/ProtonMail/go-rfc5322"
)

// Op is one operation of a script, and, with R filled in, one event of a history.
type Op struct {
	E      string `json:"e"`
	ID     int    `json:"id,omitempty"`
	Goal   string `json:"goal,omitempty"`
	Text   Text   `json:"text"`
	Raw    string `json:"raw,omitempty"`    // bytes, base64: for texts that are not UTF-8
	Reader string `json:"reader,omitempty"` // for "reader"
	Year   int    `json:"year,omitempty"`   // for "year"
	Date   string `json:"date,omitempty"`   // for "year": the instant in that year (RFC3339)
	Zone   string `json:"zone,omitempty"`   // for "local": time.Local
	How    string `json:"how,omitempty"`    // for "write"
	Times  int    `json:"times,omitempty"`  // for "many"
	Calls  []Op   `json:"calls,omitempty"`  // for "par"
	Want   any    `json:"want,omitempty"`   // for "intended": the value its writer meant
	R      any    `json:"r,omitempty"`
	Objs   *[]int `json:"objs,omitempty"` // the entries of the result, by name
	Room   *[]int `json:"room,omitempty"` // the memory of the slice, by name
	Ms     int64  `json:"ms,omitempty"`
}

// Text is a sequence of code points, never null.
type Text []int32

func (t Text) MarshalJSON() ([]byte, error) {
	if len(t) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal([]int32(t))
}

type Script struct {
	N     int    `json:"n"`
	Clock bool   `json:"clock,omitempty"` // run under a fake clock
	Names bool   `json:"names,omitempty"` // name the objects and cells of results
	Ops   []Op   `json:"ops"`
	Noise string `json:"noise,omitempty"` // what the library wrote to stdout or stderr
}

func runes(b string) []int {
	r := []int{}
	for i := 0; i < len(b); i++ {
		r = append(r, int(b[i]))
	}
	return r
}

type failed struct {
	OK  bool   `json:"ok"`
	Bad string `json:"bad,omitempty"`
}

type success struct {
	OK bool `json:"ok"`
	V  any  `json:"v"`
}

type result struct {
	goal  string
	addrs []*mail.Address
	when  time.Time
	err   error
	bad   string
}

func (r *result) view() any {
	if r.bad != "" {
		return failed{Bad: r.bad}
	}
	if r.err != nil {
		if r.addrs != nil || !r.when.IsZero() {
			return failed{Bad: "error and value"}
		}
		return failed{}
	}
	if r.goal == "dateTime" {
		return success{OK: true, V: dateView(r.when)}
	}
	v := []any{}
	for _, a := range r.addrs {
		if a == nil {
			return failed{Bad: "nil address"}
		}
		v = append(v, [2][]int{runes(a.Name), runes(a.Address)})
	}
	return success{OK: true, V: v}
}

func daySec(sec int64) [2]int64 {
	q := sec / 86400
	if sec%86400 < 0 {
		q--
	}
	return [2]int64{q, sec - q*86400}
}

func dateView(t time.Time) any {
	name, off := t.Zone()
	if t.Nanosecond() != 0 {
		name += "!ns"
	}
	// The fields as shown in the value's own zone.
	shown := time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)
	return map[string]any{
		"instant": daySec(t.Unix()),
		"local":   daySec(shown.Unix()),
		"off":     off,
		"zone":    runes(name),
	}
}

func (o *Op) text() string {
	if o.Raw != "" {
		b, err := base64.StdEncoding.DecodeString(o.Raw)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	var b strings.Builder
	for _, c := range o.Text {
		b.WriteRune(c)
	}
	return b.String()
}

func call(o *Op) (res *result) {
	res = &result{goal: o.Goal}
	text := o.text()
	defer func() {
		if e := recover(); e != nil {
			res.bad = fmt.Sprintf("panic: %v", e)
		}
	}()
	if o.Goal == "dateTime" {
		res.when, res.err = rfc5322.ParseDateTime(text)
	} else {
		res.addrs, res.err = rfc5322.ParseAddressList(text)
	}
	return res
}

// ---- charset readers (module Mime) ----

type failingReader struct{ r io.Reader }

func (f failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errors.New("reader failed")
	}
	return n, err
}

func upper(b []byte) []byte {
	r := append([]byte{}, b...)
	for i, c := range r {
		if 'a' <= c && c <= 'z' {
			r[i] = c - 32
		}
	}
	return r
}

func reverse(b []byte) []byte {
	r := []byte{}
	for i := len(b) - 1; i >= 0; i-- {
		r = append(r, b[i])
	}
	return r
}

func reader(mode string) func(string, io.Reader) (io.Reader, error) {
	if mode == "none" {
		return nil
	}
	return func(charset string, in io.Reader) (io.Reader, error) {
		if mode == "any" {
			return io.MultiReader(strings.NewReader("!"), in), nil
		}
		if charset == "x-lazy" {
			return in, nil
		}
		b, err := io.ReadAll(in)
		if err != nil {
			return nil, err
		}
		var out []byte
		switch charset {
		case "x-up", "x-rev":
			if (charset == "x-up") == (mode == "base") {
				out = upper(b)
			} else {
				out = reverse(b)
			}
		case "x-tag":
			out = append([]byte(mode[:1]+":"), b...)
		case "x-slow":
			return iotestOneByte{bytes.NewReader(b)}, nil
		case "x-gaps":
			return &gapReader{r: bytes.NewReader(b)}, nil
		case "x-eof":
			return iotest.DataErrReader(bytes.NewReader(b)), nil
		case "x-failread":
			return failingReader{bytes.NewReader(b)}, nil
		case "x-both":
			return bytes.NewReader(b), errors.New("both")
		case "x-nest":
			if err := nested(); err != nil {
				return nil, err
			}
			out = b
		case "x-void":
		case "x-much":
			out = bytes.Repeat(b, 40)
		default:
			return nil, fmt.Errorf("no charset %q", charset)
		}
		return bytes.NewReader(out), nil
	}
}

// nested uses the library from within a charset reader.
func nested() error {
	as, err := rfc5322.ParseAddressList("In <n@m>, (c) \"O p\" <q@r>")
	if err != nil || len(as) != 2 || as[0].Name != "In" || as[0].Address != "n@m" || as[1].Name != "O p" || as[1].Address != "q@r" {
		return fmt.Errorf("nested: %v %v", as, err)
	}
	t, err := rfc5322.ParseDateTime("1 Feb 2003 04:05:06 GMT")
	if err != nil || !t.Equal(time.Date(2003, 2, 1, 4, 5, 6, 0, time.UTC)) {
		return fmt.Errorf("nested: %v %v", t, err)
	}
	_, err = rfc5322.ParseAddressList("a@")
	if err == nil {
		return errors.New("nested: no error")
	}
	return nil
}

// gapReader sometimes reads nothing.
type gapReader struct {
	r io.Reader
	n int
}

func (g *gapReader) Read(p []byte) (int, error) {
	g.n++
	if g.n%3 != 0 || len(p) == 0 {
		return 0, nil
	}
	return g.r.Read(p[:1])
}

type iotestOneByte struct{ r io.Reader }

func (o iotestOneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// ---- names of objects and memory cells ----

type names struct {
	objs  map[*mail.Address]int
	cells map[**mail.Address]int
	last  int
}

// of is what a result is made of.  What has been there before keeps its name.
func (n *names) of(r *result) (*[]int, *[]int) {
	objs, room := []int{}, []int{}
	for _, a := range r.addrs {
		if n.objs[a] == 0 {
			n.last++
			n.objs[a] = n.last
		}
		objs = append(objs, n.objs[a])
	}
	full := r.addrs[:cap(r.addrs)]
	for i := range full {
		if i >= 200 {
			break
		}
		if n.cells[&full[i]] == 0 {
			n.last++
			n.cells[&full[i]] = n.last
		}
		room = append(room, n.cells[&full[i]])
	}
	return &objs, &room
}

// forget drops the names of what no result is made of.
func (n *names) forget(owned map[int]*result) {
	objs, cells := n.objs, n.cells
	n.objs, n.cells = map[*mail.Address]int{}, map[**mail.Address]int{}
	for _, r := range owned {
		for _, a := range r.addrs {
			n.objs[a] = objs[a]
		}
		full := r.addrs[:cap(r.addrs)]
		for i := range full {
			if x := cells[&full[i]]; x != 0 {
				n.cells[&full[i]] = x
			}
		}
	}
}

// ---- executing a script ----

func execute(s *Script) {
	owned := map[int]*result{}
	out := []Op{}
	nm := &names{objs: map[*mail.Address]int{}, cells: map[**mail.Address]int{}}
	named := func(o Op, r *result) Op {
		if s.Names && r.bad == "" && r.err == nil && r.goal == "addressList" {
			o.Objs, o.Room = nm.of(r)
		}
		return o
	}
	year := 0
	sync2 := func() { // record the clock's year
		if y := time.Now().Year(); y != year {
			year = y
			out = append(out, Op{E: "year", Year: y})
		}
	}
	oldLocal := time.Local
	defer func() { time.Local = oldLocal; rfc5322.CharsetReader = nil }()
	rfc5322.CharsetReader = nil
	for i := range s.Ops {
		o := s.Ops[i]
		switch o.E {
		case "call", "intended", "language", "robust":
			var res *result
			for {
				sync2()
				t0 := time.Now()
				r := call(&o)
				if time.Now().Year() != year {
					continue
				}
				o.R = r.view()
				o.Ms = time.Since(t0).Milliseconds()
				if o.ID > 0 {
					owned[o.ID] = r
				}
				res = r
				break
			}
			if o.ID > 0 {
				out = append(out, Op{E: "invoke", ID: o.ID, Goal: o.Goal, Text: o.Text}, named(Op{E: "return", ID: o.ID, R: o.R, Ms: o.Ms}, res))
			} else {
				out = append(out, o)
			}
		case "hunt": // kept only if it executes something that was not executed before (needs -cover)
			sync2()
			before := testing.Coverage()
			r := call(&o)
			if testing.Coverage() > before || r.bad != "" {
				o.E, o.R = "call", r.view()
				out = append(out, o)
			}
		case "many": // the same call, many times: its different results
			sync2()
			seen := map[string]bool{}
			for n := 0; n < o.Times; n++ {
				r := call(&o)
				if b, _ := json.Marshal(r.view()); !seen[string(b)] {
					seen[string(b)] = true
					out = append(out, Op{E: "call", Goal: o.Goal, Text: o.Text, R: r.view()})
				}
			}
		case "par":
			sync2()
			var mu sync.Mutex
			var wg sync.WaitGroup
			var invoked sync.WaitGroup
			invoked.Add(len(o.Calls))
			start := make(chan struct{})
			for j := range o.Calls {
				c := o.Calls[j]
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					mu.Lock()
					out = append(out, Op{E: "invoke", ID: c.ID, Goal: c.Goal, Text: c.Text})
					mu.Unlock()
					invoked.Done()
					invoked.Wait() // nothing orders the calls then
					r := call(&c)
					mu.Lock()
					owned[c.ID] = r
					out = append(out, named(Op{E: "return", ID: c.ID, R: r.view()}, r))
					mu.Unlock()
				}()
			}
			close(start)
			wg.Wait()
		case "mailstring": // what net/mail writes for a list of addresses, parsed
			var texts []string
			want := []any{}
			for _, c := range o.Calls {
				a := mail.Address{Name: c.How, Address: c.text()}
				texts = append(texts, a.String())
				want = append(want, [2][]int{runes(a.Name), runes(a.Address)})
			}
			p := Op{E: "intended", Goal: "addressList", Text: Text([]rune(strings.Join(texts, ", "))), Want: want}
			p.R = call(&p).view()
			out = append(out, p)
			std := [][2]Text{}
			for _, c := range o.Calls {
				std = append(std, [2]Text{Text([]rune(c.How)), Text([]rune(c.text()))})
			}
			out = append(out, Op{E: "std", Text: p.Text, Want: std})
		case "timeformat": // what package time writes for a time, parsed
			sec, err := strconv.ParseInt(o.Date, 10, 64)
			if err != nil {
				panic(err)
			}
			layout := map[string]string{"RFC1123Z": time.RFC1123Z, "RFC1123": time.RFC1123, "RFC822Z": "02 Jan 2006 15:04 -0700", "nodow": "2 Jan 2006 15:04:05 -0700"}[o.How]
			tm := time.Unix(sec, 0).In(time.FixedZone("", o.Year))
			if o.How == "RFC1123" {
				tm = tm.UTC()
			}
			if o.How == "RFC822Z" {
				tm = tm.Truncate(time.Minute)
			}
			if y := tm.Year(); y < 1 || y > 9999 {
				break
			}
			_, off := tm.Zone()
			name := tm.Format("-0700")
			if o.How == "RFC1123" {
				name = "UTC"
			}
			p := Op{E: "intended", Goal: "dateTime", Text: Text([]rune(tm.Format(layout))), Want: dateView(tm.In(time.FixedZone(name, off)))}
			p.R = call(&p).view()
			out = append(out, p)
		case "look":
			o.R = owned[o.ID].view()
			out = append(out, o)
		case "write":
			owned[o.ID].scribble(o.How, i)
			o.R = owned[o.ID].view()
			out = append(out, named(o, owned[o.ID]))
			nm.forget(owned)
		case "drop":
			delete(owned, o.ID)
			nm.forget(owned)
			out = append(out, o)
		case "gc":
			runtime.GC()
			debug.FreeOSMemory()
		case "local":
			if o.Zone == "" {
				time.Local = oldLocal
			} else {
				l, err := time.LoadLocation(o.Zone)
				if err != nil {
					l = time.FixedZone(o.Zone, int(o.Year))
				}
				time.Local = l
			}
		case "reader":
			rfc5322.CharsetReader = reader(o.Reader)
			out = append(out, o)
		case "year": // only under the fake clock
			to, err := time.Parse(time.RFC3339, o.Date)
			if err != nil {
				panic(err)
			}
			time.Sleep(time.Until(to))
		default:
			panic("unknown operation " + o.E)
		}
	}
	s.Ops = out
}

// scribble changes a result, as its caller may, to something that no other result is.
func (r *result) scribble(how string, mark int) {
	x := strconv.Itoa(mark)
	switch how {
	case "fields":
		for _, a := range r.addrs {
			a.Name, a.Address = "scribbled", x
		}
	case "swap":
		for i, j := 0, len(r.addrs)-1; i < j; i, j = i+1, j-1 {
			r.addrs[i], r.addrs[j] = r.addrs[j], r.addrs[i]
		}
	case "append":
		full := r.addrs[:cap(r.addrs)]
		for i := range full {
			full[i] = &mail.Address{Name: "room", Address: x}
		}
		r.addrs = append(r.addrs, &mail.Address{Name: "more", Address: x})
	}
}

func child(t *testing.T) {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := bufio.NewWriterSize(os.NewFile(4, "out"), 1<<20)
	noise, err := os.CreateTemp(os.Getenv("DRV_TMP"), "noise")
	if err != nil {
		t.Fatal(err)
	}
	os.Remove(noise.Name())
	saved, err := syscall.Dup(1)
	if err != nil {
		t.Fatal(err)
	}
	syscall.Dup2(int(noise.Fd()), 1)
	dec := json.NewDecoder(in)
	for {
		var s Script
		if err := dec.Decode(&s); err != nil {
			break
		}
		if s.Clock {
			synctest.Test(t, func(t *testing.T) { execute(&s) })
		} else {
			execute(&s)
		}
		if end, _ := noise.Seek(0, 2); end > 0 {
			b := make([]byte, 200)
			n, _ := noise.ReadAt(b, 0)
			s.Noise = string(b[:n])
			noise.Truncate(0)
		}
		b, err := json.Marshal(&s)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
	syscall.Dup2(saved, 1)
}

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *os.File
}

func spawn(n int) *proc {
	r1, w1, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	errs, err := os.CreateTemp(os.Getenv("DRV_TMP"), "err")
	if err != nil {
		panic(err)
	}
	os.Remove(errs.Name())
	c := exec.Command("/proc/self/exe", "-test.run=^TestDriver$", "-test.timeout=0")
	c.Env = append(os.Environ(), "DRV_CHILD=1", "GOMAXPROCS="+env("DRV_MAXPROCS", "2"), "GOGC=800", "GOMEMLIMIT=2500MiB")
	if more := os.Getenv("DRV_ENV"); more != "" { // another environment
		c.Env = append(c.Env, strings.Split(more, "\n")...)
	}
	c.Stderr = errs
	c.ExtraFiles = []*os.File{r1, w2}
	if err := c.Start(); err != nil {
		panic(err)
	}
	r1.Close()
	w2.Close()
	return &proc{c, w1, bufio.NewReaderSize(r2, 1<<20), errs}
}

func (p *proc) stderr() string {
	b := make([]byte, 2000)
	n, _ := p.errs.ReadAt(b, 0)
	return string(b[:n])
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func single(e string) bool {
	switch e {
	case "call", "intended", "language", "robust", "hunt", "many":
		return true
	}
	return false
}

// broken is the history of a script during which the child died: its first
// call that cannot be completed gets the reason as its result.
func broken(s Script, why string) Script {
	s.Noise = ""
	ops := []Op{}
	for _, o := range s.Ops {
		if single(o.E) {
			ops = append(ops, Op{E: "call", Goal: o.Goal, Text: o.Text, Raw: o.Raw, R: failed{Bad: why}})
			break
		}
		if o.E == "par" {
			c := o.Calls[0]
			ops = append(ops, Op{E: "call", Goal: c.Goal, Text: c.Text, R: failed{Bad: why}})
			break
		}
	}
	s.Ops = ops
	return s
}

// split is one script per operation, to find the call that breaks a child.
func split(s Script) []Script {
	r := []Script{}
	pre := []Op{}
	for i, o := range s.Ops {
		if !single(o.E) && o.E != "reader" {
			return nil
		}
		if o.E == "reader" {
			pre = []Op{o}
			continue
		}
		r = append(r, Script{N: s.N*100000 + i, Clock: s.Clock, Ops: append(pre[:len(pre):len(pre)], o)})
	}
	return r
}

// job is a script to run.
type job struct {
	s     Script
	of    *group // what it is a part of
	again bool   // it did not end in time before
}

// group is a script that broke a child, whose calls are made again one by one.
type group struct {
	s         Script
	why       string
	hung, bad bool
	left      int
}

func parent(t *testing.T) {
	f, err := os.Open(os.Getenv("DRV_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var scripts []Script
	if err := json.NewDecoder(bufio.NewReaderSize(f, 1<<20)).Decode(&scripts); err != nil {
		t.Fatal(err)
	}
	procs, _ := strconv.Atoi(env("DRV_PROCS", "8"))
	limit, _ := strconv.Atoi(env("DRV_LIMIT", "100")) // seconds per script
	budget, _ := strconv.Atoi(env("DRV_BUDGET", "0")) // seconds for everything; 0: no limit
	until := time.Now().Add(time.Duration(budget) * time.Second)
	queue := make(chan *job, len(scripts)+200000)
	for i := range scripts {
		scripts[i].N = i
		queue <- &job{s: scripts[i]}
	}
	var mu sync.Mutex
	left := len(scripts)
	results := []Script{}
	crashes, hangs := 0, 0
	add := func(js ...*job) {
		for _, j := range js {
			queue <- j
		}
		left += len(js)
	}
	finish := func(j *job, r *Script, bad bool) {
		if r != nil {
			results = append(results, *r)
		}
		if g := j.of; g != nil {
			g.left--
			g.bad = g.bad || bad
			if g.left == 0 && !g.bad {
				// Every call is right alone: it is the whole that breaks the child, or takes so long.
				if g.hung {
					add(&job{s: g.s, again: true})
				} else {
					results = append(results, broken(g.s, g.why))
				}
			}
		}
		left--
		if left == 0 {
			close(queue)
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := spawn(k)
			kill := func() { p.cmd.Process.Kill(); p.cmd.Wait() }
			for j := range queue {
				mu.Lock()
				if hangs > 0 || budget > 0 && j.of == nil && !j.again && time.Now().After(until) {
					finish(j, nil, true)
					mu.Unlock()
					continue
				}
				mu.Unlock()
				s, limit := j.s, limit
				if j.again {
					limit *= 3 // It may only be slow, on a busy machine.
				}
				b, err := json.Marshal(&s)
				if err != nil {
					panic(err)
				}
				p.in.Write(append(b, '\n'))
				var hung atomic.Bool
				timer := time.AfterFunc(time.Duration(limit)*time.Second, func() { hung.Store(true); p.cmd.Process.Kill() })
				line, err := p.out.ReadBytes('\n')
				timer.Stop()
				if err == nil {
					var r Script
					if err := json.Unmarshal(line, &r); err != nil {
						panic(err)
					}
					mu.Lock()
					finish(j, &r, false)
					mu.Unlock()
					continue
				}
				p.cmd.Wait()
				why := "crash: " + p.stderr()
				if hung.Load() {
					why = fmt.Sprintf("no answer within %d s", limit)
				}
				kill()
				p = spawn(k)
				mu.Lock()
				parts := split(s)
				switch {
				case hung.Load() && hangs > 0:
					finish(j, nil, true)
				case len(parts) > 1 && !j.again && crashes < 20:
					if !hung.Load() {
						crashes++
					}
					g := &group{s: s, why: why, hung: hung.Load(), left: len(parts)}
					for _, q := range parts {
						add(&job{s: q, of: g})
					}
					finish(j, nil, true)
				case hung.Load() && !j.again && limit <= 200:
					add(&job{s: s, again: true})
					finish(j, nil, true)
				default:
					if hung.Load() {
						hangs++
					}
					r := broken(s, why)
					finish(j, &r, true)
				}
				mu.Unlock()
			}
			p.in.Close()
			p.cmd.Wait()
		}()
	}
	wg.Wait()
	o, err := os.Create(os.Getenv("DRV_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriterSize(o, 1<<20)
	if err := json.NewEncoder(w).Encode(results); err != nil {
		t.Fatal(err)
	}
	w.Flush()
	if err := o.Close(); err != nil {
		t.Fatal(err)
	}
}

func TestDriver(t *testing.T) {
	switch {
	case os.Getenv("DRV_MINE") != "":
		mine(t)
	case os.Getenv("DRV_CHILD") != "":
		child(t)
	case os.Getenv("DRV_IN") != "":
		parent(t)
	}
}
