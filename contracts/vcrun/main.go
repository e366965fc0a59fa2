// vcrun replays contracts against the compiled code with drawn inputs.
//
//	vcrun -seed S -n N CONTRACT...    search
//	vcrun -case S CONTRACT            one input
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/Foxcapades/lib-go-raml/v0/internal/vc"
	"github.com/sirupsen/logrus"
)

type Result struct {
	Contract string   `json:"contract"`
	Seed     int64    `json:"seed"`
	Label    string   `json:"label"`
	Panic    string   `json:"panic,omitempty"`
	Inputs   []string `json:"inputs"`
	Tried    int      `json:"tried"`
	Skipped  int      `json:"skipped"`
	Failed   bool     `json:"failed"`
}

// progress tells the caller which input was running when the process died, and
// the watchdog which one does not come to an end.
type tracker struct {
	sync.Mutex
	name  string
	seed  int64
	in    []string
	since time.Time
	file  *os.File
}

var now tracker

func (p *tracker) set(seed int64, in []string) {
	p.Lock()
	defer p.Unlock()
	p.seed, p.in = seed, in
	if in == nil {
		p.since = time.Now()
	}
	if p.file != nil {
		b, _ := json.Marshal(p.result(""))
		p.file.Truncate(int64(len(b)))
		p.file.WriteAt(b, 0)
	}
}

func (p *tracker) result(label string) Result {
	return Result{Contract: p.name, Seed: p.seed, Label: label, Inputs: p.in, Tried: 1, Failed: true}
}

// watch ends the program when one input runs for too long or takes too much
// memory: no contract needs either.
func (p *tracker) watch(limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		p.Lock()
		why := ""
		if time.Since(p.since) > limit {
			why = "the call returns: still running after " + limit.String()
		} else if m.HeapAlloc > 2<<30 {
			why = "the call returns: it has allocated more than 2 GiB"
		}
		if why != "" {
			b, _ := json.Marshal(p.result(why))
			fmt.Println(string(b))
			os.Exit(1)
		}
		p.Unlock()
	}
}

func once(f interface{}, seed int64) (res Result, skipped bool) {
	now.set(seed, nil)
	r := vc.NewRand(seed)
	for k, g := range gens() {
		r.Gens[k] = g
	}
	v := reflect.ValueOf(f)
	res.Seed = seed
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case vc.Skip:
				skipped = true
			case vc.Failure:
				res.Failed, res.Label = true, y.Label
				if y.Detail != "" {
					res.Label += ": " + y.Detail
				}
			default:
				res.Failed, res.Label = true, "no panic"
				res.Panic = fmt.Sprint(x)
				if os.Getenv("VC_STACK") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	var in []reflect.Value
	for i := 0; i < v.Type().NumIn(); i++ {
		a := r.Value(v.Type().In(i))
		in = append(in, a)
	}
	r.Relate(in)
	for _, a := range in {
		res.Inputs = append(res.Inputs, vc.Show(a.Interface()))
	}
	// whatever happened, the collections the inputs hold go on being used
	defer func() {
		for _, a := range in {
			vc.Stir(a)
		}
	}()
	now.set(seed, res.Inputs)
	v.Call(in)
	return
}

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 2000, "")
	one := flag.Int64("case", -1, "")
	dict := flag.String("dict", "", "literals of the source")
	limit := flag.Duration("t", 20*time.Second, "per contract")
	prog := flag.String("progress", "", "file that tells the running input")
	slow := flag.Duration("slow", 20*time.Second, "an input that runs for so long does not end")
	flag.Parse()
	if *prog != "" {
		now.file, _ = os.Create(*prog)
	}
	// unbounded recursion ends soon
	debug.SetMaxStack(256 << 20)
	now.since = time.Now()
	go now.watch(*slow)
	if b, err := os.ReadFile(*dict); err == nil {
		var d struct {
			Words, NewWords   []string
			Ints, NewInts     []int64
			Floats, NewFloats []float64
		}
		json.Unmarshal(b, &d)
		vc.Dict, vc.DictInts, vc.DictFloats = d.Words, d.Ints, d.Floats
		vc.NewWords, vc.NewInts, vc.NewFloats = d.NewWords, d.NewInts, d.NewFloats
	}
	logrus.SetOutput(new(strings.Builder))
	logrus.SetLevel(logrus.PanicLevel)
	reg := contracts()
	bad := false
	for _, name := range flag.Args() {
		f, ok := reg[name]
		if !ok {
			fmt.Fprintln(os.Stderr, "no contract", name)
			os.Exit(2)
		}
		var res Result
		now.name = name
		if *one >= 0 {
			res, _ = once(f, *one)
			res.Tried = 1
			// what fails only after earlier runs is run after them
			for s := *one - *one%1000003; s <= *one && !res.Failed; s++ {
				res, _ = once(f, s)
				res.Tried++
			}
		} else {
			t0 := time.Now()
			skips := 0
			for i := 0; i < *n && time.Since(t0) < *limit; i++ {
				var sk bool
				res, sk = once(f, *seed*1000003+int64(i))
				if sk {
					skips++
				}
				res.Tried = i + 1
				if res.Failed {
					break
				}
			}
			res.Skipped = skips
		}
		res.Contract = name
		b, _ := json.Marshal(res)
		fmt.Println(string(b))
		bad = bad || res.Failed
	}
	if bad {
		os.Exit(1)
	}
}
