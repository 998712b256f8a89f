//go:build go1.21

package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// summary accumulates over the runs of one worker process.
type summary struct {
	Runs       int            `json:"runs"`
	Nontrivial int            `json:"nontrivial"`
	Evals      int            `json:"evals"`
	Steps      uint64         `json:"steps"`
	Points     uint64         `json:"points"`
	Switches   uint64         `json:"switches"`
	SimNs      int64          `json:"sim_ns"`
	MaxSteps   uint64         `json:"max_steps"`
	Fired      map[string]int `json:"fired"`
	Probe      map[string]int `json:"probe"`
	Skips      map[string]int `json:"skips"`
	Modes      map[string]int `json:"modes"`
	Slow       float64        `json:"slowest_s"`
	SlowIdx    uint64         `json:"slowest_index"`
	Next       uint64         `json:"next"` // first index not run
	Samples    []*Spec        `json:"samples,omitempty"`
}

var memStats runtime.MemStats

// collect frees the garbage of earlier runs; never during a run.
func collect() {
	runtime.ReadMemStats(&memStats)
	if memStats.HeapAlloc > 256<<20 {
		debug.SetGCPercent(100)
		runtime.GC()
		debug.SetGCPercent(-1)
		time.Sleep(2 * time.Millisecond) // finalizers and cleanups run now
		time.Sleep(2 * time.Millisecond)
	}
}

func environment() {
	runtime.GOMAXPROCS(1)
	runtime.SimCPUs(4)
	runtime.MemProfileRate = 0
	for i := 0; i < 64; i++ {
		// goroutine numbers handed out to other processors at start-up are used up
		go func() {}()
	}
	time.Sleep(2 * time.Millisecond)
	debug.SetMaxStack(64 << 20) // endless recursion ends soon
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	os.Setenv("TMPDIR", "/simfs/tmp")
}

// warmUp fills the caches the standard library keeps for the life of a process
// (encoding/xml type information and the like), so that every run starts from
// the same state whichever runs came before it.
func warmUp() {
	for i := uint64(0); i < 2; i++ {
		s := &Spec{Prop: "warm-up", Rand: 1 + i, Tasks: [][]Op{{
			{Op: "3mf", Path: "/simfs/w.3mf", N: 9, Seed: i},
			{Op: "stl", Path: "/simfs/w.stl", N: 9, Seed: i},
			{Op: "3mf", Path: "/simfs/w.3mf", Shape: &Node{Op: "sphere3"}, Cells: 3, Conc: 2},
		}}}
		r := &run{spec: s, res: &Result{Fired: map[string]int{}, Probe: map[string]int{}}}
		k := newKernel(KSpec{})
		h := r.prepare(s.Tasks)
		h.run(k)
		b, _ := k.content("/simfs/w.3mf")
		parse3MF(b)
	}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	count := fs.Uint64("count", 1<<62, "")
	secs := fs.Float64("secs", 1e9, "")
	hashes := fs.String("hashes", "", "")
	quiet := fs.Bool("nomark", false, "")
	list := fs.Bool("list", false, "print the hash of every run")
	fs.Parse(args)
	environment()
	warmUp()
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	sum := &summary{Fired: map[string]int{}, Probe: map[string]int{}, Skips: map[string]int{}, Modes: map[string]int{}}
	sum.Next = *start
	var hs []byte
	out := protocol()
	var fatal bool
	for n := uint64(0); n < *count && time.Now().Before(deadline); n++ {
		idx := *start + n**stride
		if !*quiet {
			fmt.Fprintf(out, "b %d\n", idx)
		}
		collect()
		spec := generate(*prop, *seed, idx)
		saved := spec.clone()
		t0 := time.Now()
		res := execute(spec)
		if d := time.Since(t0).Seconds(); d > sum.Slow {
			sum.Slow, sum.SlowIdx = d, idx
		}
		sum.Next = idx + *stride
		sum.Runs++
		sum.Modes[fmt.Sprint(saved.Sched.Mode)]++
		if *list {
			fmt.Fprintf(out, "h %d %016x %d\n", idx, res.Hash, res.Steps)
		}
		if res.Skip != "" {
			sum.Skips[res.Skip]++
		} else {
			sum.Evals += res.Evals
			if res.Nontrivial {
				sum.Nontrivial++
				if len(sum.Samples) < 3 {
					sum.Samples = append(sum.Samples, saved)
				}
				hs = binary.LittleEndian.AppendUint64(hs, res.Hash)
				hs = binary.LittleEndian.AppendUint64(hs, res.ILHash)
			}
		}
		sum.Steps += res.Steps
		sum.Points += res.Points
		sum.Switches += res.Switches
		sum.SimNs += res.SimNs
		if res.Steps > sum.MaxSteps {
			sum.MaxSteps = res.Steps
		}
		for k, v := range res.Fired {
			sum.Fired[k] += v
		}
		for k, v := range res.Probe {
			sum.Probe[k] += v
		}
		if len(res.Viol) > 0 && res.Skip == "" {
			b, _ := json.Marshal(map[string]interface{}{"index": idx, "viol": res.Viol, "spec": saved})
			fmt.Fprintf(out, "v %s\n", b)
		}
		if res.Fatal {
			fatal = true
			break
		}
	}
	b, _ := json.Marshal(sum)
	fmt.Fprintf(out, "s %s\n", b)
	if *hashes != "" {
		f, err := os.OpenFile(*hashes, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		if err == nil {
			f.Write(hs)
			f.Close()
		}
	}
	if fatal {
		os.Exit(7)
	}
	os.Exit(0)
}

// protocol returns the original standard output and sends whatever the library
// prints to standard error.
func protocol() *os.File {
	fd, err := syscall.Dup(1)
	if err == nil {
		err = syscall.Dup2(2, 1)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return os.NewFile(uintptr(fd), "protocol")
}

func readSpecs(file string) []*Spec {
	var b []byte
	var err error
	if file == "-" {
		b, err = readAllStdin()
	} else {
		b, err = os.ReadFile(file)
	}
	var out []*Spec
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" || err != nil {
			continue
		}
		s := new(Spec)
		if err = json.Unmarshal([]byte(l), s); err == nil {
			out = append(out, s)
		}
	}
	if err != nil || len(out) == 0 {
		fmt.Fprintln(os.Stderr, "reading specs:", err)
		os.Exit(3)
	}
	return out
}

func readAllStdin() ([]byte, error) {
	var b []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := os.Stdin.Read(buf)
		b = append(b, buf[:n]...)
		if err != nil {
			return b, nil
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim worker|run|gen|candidates|props")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "run":
		// run the specs of a file (or - for standard input), one per line, in
		// one process, and print the result of the last
		environment()
		out := protocol()
		warmUp()
		var res *Result
		for _, spec := range readSpecs(os.Args[2]) {
			if properties[spec.Prop] == nil {
				fmt.Fprintln(os.Stderr, "no such property:", spec.Prop)
				os.Exit(3)
			}
			collect()
			res = execute(spec)
		}
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		out.Write(append(b, '\n'))
		os.Exit(0)
	case "gen":
		var seed, idx uint64
		fmt.Sscan(os.Args[3], &seed)
		fmt.Sscan(os.Args[4], &idx)
		environment()
		b, _ := json.Marshal(generate(os.Args[2], seed, idx))
		os.Stdout.Write(append(b, '\n'))
		os.Exit(0)
	case "candidates":
		environment()
		w := bufio.NewWriter(os.Stdout)
		for _, c := range candidates(readSpecs(os.Args[2])[0]) {
			b, _ := json.Marshal(c)
			w.Write(append(b, '\n'))
		}
		w.Flush()
		os.Exit(0)
	case "props":
		for _, id := range propIDs() {
			fmt.Println(id, properties[id].race)
		}
		os.Exit(0)
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(3)
}
