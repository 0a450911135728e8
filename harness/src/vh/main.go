// Command vh runs scripted cases against the real thrift library and records
// what it does.  Cases come in as one JSON object per line on stdin; each is
// answered by one line on stdout.  A case whose call does not return within
// the limit is answered with that call marked as hanging, and the process then
// exits with code 7 (the runner restarts it on the remaining cases).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"time"

	"thrift"
)

// B is a byte string that travels as a JSON array of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(x), 10)
	}
	return append(out, ']'), nil
}

func (b *B) UnmarshalJSON(d []byte) error {
	var v []int
	if err := json.Unmarshal(d, &v); err != nil {
		return err
	}
	*b = make([]byte, len(v))
	for i, x := range v {
		(*b)[i] = byte(x)
	}
	return nil
}

// M is a generic JSON object; events are recorded as M.
type M map[string]interface{}

const (
	OK    = 0
	ERR   = 1
	PANIC = 2
	HANG  = 3
)

// Rec collects the events of one case; the watchdog may read it while the
// case is stuck.
type Rec struct {
	mu  sync.Mutex
	ops []M
	cur M // the call in flight, if any
	// keep: results are recorded beside an error, too
	keep bool
	// full: errors are recorded with their whole message
	full bool
}

func (r *Rec) begin(ev M) {
	r.mu.Lock()
	r.cur = ev
	r.mu.Unlock()
}

func (r *Rec) end(ev M) {
	r.mu.Lock()
	r.ops = append(r.ops, ev)
	r.cur = nil
	r.mu.Unlock()
}

// call records one call: f runs the real code and fills in results; a panic
// becomes the outcome of the call.  It returns the outcome.
func (r *Rec) call(ev M, f func(ev M) error) int { return r.callThen(ev, f, nil) }

// callThen is call, with observations made after it.
func (r *Rec) callThen(ev M, f func(ev M) error, then func(ev M, err error)) int {
	var err error
	given := map[string]bool{}
	for k := range ev {
		given[k] = true
	}
	r.begin(ev)
	res := OK
	func() {
		defer func() {
			if x := recover(); x != nil {
				res = PANIC
				ev["panic"] = fmt.Sprint(x)
			}
		}()
		if err = f(ev); err != nil {
			res = ERR
			for k := range ev { // results do not count beside an error
				if !given[k] && !r.keep {
					delete(ev, k)
				}
			}
			ev["ek"] = errKind(err)
			ev["msg"] = clip(err.Error())
			if r.full {
				ev["m"] = B(err.Error())
			}
		}
	}()
	ev["e"] = res
	if then != nil && res < PANIC {
		then(ev, err)
	}
	r.end(ev)
	return res
}

func clip(s string) string {
	if len(s) > 200 {
		s = s[:200]
	}
	return strconv.QuoteToASCII(s)
}

// errKind is the type id of a library exception, -1 for any other error.
func errKind(err error) int {
	if t, ok := err.(interface{ TypeId() int }); ok {
		return t.TypeId()
	}
	return -1
}

type runner func(raw []byte, r *Rec) M

var kinds = map[string]runner{}

func main() {
	debug.SetGCPercent(400)
	if os.Getenv("VH_LOG") == "" {
		thrift.LOGGER = log.New(ioutil.Discard, "", 0)
	}
	limit := 20 * time.Second
	if s := os.Getenv("VH_LIMIT_MS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Millisecond
		}
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(realStdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			runCase(line, out, limit)
		}
		if err != nil {
			break
		}
	}
	out.Flush()
}

// the library prints diagnostics with print() (stderr); stdout is ours alone
var realStdout = os.Stdout

func runCase(line []byte, out *bufio.Writer, limit time.Duration) {
	var head struct {
		ID   string `json:"id"`
		Kind string `json:"kind"`
	}
	if err := json.Unmarshal(line, &head); err != nil {
		fmt.Fprintln(os.Stderr, "bad case:", err)
		os.Exit(3)
	}
	f := kinds[head.Kind]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown kind", head.Kind)
		os.Exit(3)
	}
	rec := &Rec{ops: []M{}}
	done := make(chan M, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				fmt.Fprintln(os.Stderr, "HARNESS PANIC in", head.ID, ":", x, string(debug.Stack()))
				os.Exit(4)
			}
		}()
		done <- f(line, rec)
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	hung := false
	var m M
	select {
	case m = <-done:
	case <-t.C:
		hung = true
		rec.mu.Lock()
		m = M{}
		if err := json.Unmarshal(line, &m); err != nil {
			panic(err)
		}
		m["rem"] = -1
		if rec.cur != nil {
			ev := M{}
			for k, v := range rec.cur {
				ev[k] = v
			}
			ev["e"] = HANG
			rec.ops = append(rec.ops, ev)
		}
	}
	m["id"] = head.ID
	m["ops"] = rec.ops
	enc, err := json.Marshal(m)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	out.Write(enc)
	out.WriteByte('\n')
	if hung {
		out.Flush()
		os.Exit(7)
	}
	out.Flush()
}
