// Command vh is the conformance driver: it generates abstract cases, executes them
// against the real bazelbuild/buildtools code and records what the code did.
// It never judges: the verdict is TLC's, on the recorded observations.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

// Prop is the driver of one property.
type Prop struct {
	// Gen emits n random cases.
	Gen func(r *rand.Rand, n int, emit func(interface{}))
	// Exec runs one case against the real code and returns the observation.
	Exec func(in json.RawMessage) (interface{}, error)
	// Timeout for one case.
	Timeout time.Duration
	// Shards is the number of executor processes (default 8).
	Shards int
}

var props = map[string]*Prop{}

type record struct {
	ID  int             `json:"id"`
	In  json.RawMessage `json:"in"`
	St  string          `json:"st"` // ok | panic | timeout | crash
	Msg string          `json:"msg"`
	Obs interface{}     `json:"obs"`
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vh: "+f+"\n", a...)
	os.Exit(2)
}

func readLines(path string) [][]byte {
	data, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var out [][]byte
	for _, l := range bytes.Split(data, []byte("\n")) {
		if len(bytes.TrimSpace(l)) > 0 {
			out = append(out, l)
		}
	}
	return out
}

func marshal(v interface{}) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		die("marshal: %v", err)
	}
	return bytes.TrimRight(b.Bytes(), "\n")
}

func execOne(p *Prop, id int, in []byte) (rec record) {
	rec = record{ID: id, In: json.RawMessage(in), St: "ok", Obs: map[string]string{}}
	done := make(chan record, 1)
	go func() {
		r := rec
		defer func() {
			if e := recover(); e != nil {
				r.St, r.Msg = "panic", fmt.Sprint(e)
				if os.Getenv("VH_STACK") != "" {
					r.Msg += string(debug.Stack())
				}
				r.Obs = map[string]string{}
			}
			done <- r
		}()
		obs, err := p.Exec(json.RawMessage(in))
		if err != nil {
			die("case %d: %v\n%s", id, err, in)
		}
		r.Obs = obs
	}()
	to := p.Timeout
	if to == 0 {
		to = 20 * time.Second
	}
	select {
	case r := <-done:
		return r
	case <-time.After(to):
		rec.St, rec.Msg = "timeout", "no result within "+to.String()
		return rec
	}
}

// shard executes cases start, start+step, ... and writes the records.
func shard(p *Prop, casesPath, outPath string, start, step int) {
	lines := readLines(casesPath)
	f, err := os.OpenFile(outPath, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		die("%v", err)
	}
	w := bufio.NewWriter(f)
	for i := start; i < len(lines); i += step {
		rec := execOne(p, i, lines[i])
		w.Write(marshal(rec))
		w.WriteByte('\n')
		w.Flush()
		if rec.St == "timeout" {
			os.Exit(7) // a goroutine is stuck: let the parent restart us
		}
	}
	f.Close()
}

func countLines(path string) int {
	f, err := os.Open(path)
	if err != nil {
		return 0
	}
	defer f.Close()
	n := 0
	br := bufio.NewReader(f)
	for {
		_, err := br.ReadBytes('\n')
		if err != nil {
			return n
		}
		n++
	}
}

func execAll(name, casesPath, outPath string) {
	p := props[name]
	lines := readLines(casesPath)
	n := p.Shards
	if n == 0 {
		n = 8
	}
	tmp, err := os.MkdirTemp("", "vhexec")
	if err != nil {
		die("%v", err)
	}
	var wg sync.WaitGroup
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			part := filepath.Join(tmp, fmt.Sprintf("p%d", s))
			start := s
			restarts := 0
			for start < len(lines) {
				cmd := exec.Command(os.Args[0], "shard", name, casesPath, part, strconv.Itoa(start), strconv.Itoa(n))
				var eb bytes.Buffer
				cmd.Stderr = &eb
				err := cmd.Run()
				doneN := countLines(part)
				next := s + doneN*n
				if err == nil && next >= len(lines) {
					return
				}
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && !bytes.Contains(eb.Bytes(), []byte("goroutine ")) {
					die("shard failed: %s", eb.String())
				} else if ok && ee.ExitCode() == 7 {
					start = next
				} else if next < len(lines) {
					// The process died in the middle of a case: the code under test took it down.
					msg := eb.String()
					if len(msg) > 400 {
						msg = msg[:400]
					}
					rec := record{ID: next, In: json.RawMessage(lines[next]), St: "crash", Msg: msg, Obs: map[string]string{}}
					pf, _ := os.OpenFile(part, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
					pf.Write(append(marshal(rec), '\n'))
					pf.Close()
					start = next + n
				}
				restarts++
				if restarts > 50 {
					// Hopelessly broken code under test: stop here, what is recorded is enough to judge.
					return
				}
			}
		}(s)
	}
	wg.Wait()
	out, err := os.Create(outPath)
	if err != nil {
		die("%v", err)
	}
	w := bufio.NewWriter(out)
	for s := 0; s < n; s++ {
		f, err := os.Open(filepath.Join(tmp, fmt.Sprintf("p%d", s)))
		if err != nil {
			continue
		}
		io.Copy(w, f)
		f.Close()
	}
	w.Flush()
	out.Close()
	os.RemoveAll(tmp)
}

func main() {
	if len(os.Args) < 3 {
		die("usage: vh gen|exec|shard PROP ...")
	}
	p := props[os.Args[2]]
	if p == nil {
		die("unknown property %s", os.Args[2])
	}
	switch os.Args[1] {
	case "gen": // vh gen PROP SEED N OUT
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		n, _ := strconv.Atoi(os.Args[4])
		f, err := os.Create(os.Args[5])
		if err != nil {
			die("%v", err)
		}
		w := bufio.NewWriter(f)
		p.Gen(rand.New(rand.NewSource(seed)), n, func(c interface{}) {
			w.Write(marshal(c))
			w.WriteByte('\n')
		})
		w.Flush()
		f.Close()
	case "exec": // vh exec PROP CASES OUT
		execAll(os.Args[2], os.Args[3], os.Args[4])
	case "shard":
		start, _ := strconv.Atoi(os.Args[5])
		step, _ := strconv.Atoi(os.Args[6])
		shard(p, os.Args[3], os.Args[4], start, step)
	default:
		die("unknown command %s", os.Args[1])
	}
}
