package main

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"gotsrpcsim/svc/wire"
)

// summary is what one worker process reports.
type summary struct {
	Prop      string            `json:"prop"`
	From      uint64            `json:"from"`
	Next      uint64            `json:"next"` // first plan index not run
	Runs      int               `json:"runs"`
	Yields    uint64            `json:"yields"`
	Nontriv   int               `json:"nontrivial"`
	Hashes    []string          `json:"hashes"` // distinct (history, schedule) hashes of nontrivial runs
	SimMS     int64             `json:"sim_ms"`
	Ops       int               `json:"ops"`
	OK        int               `json:"ok"`
	Execs     int               `json:"execs"`
	Reqs      int               `json:"reqs"`
	Decisions uint64            `json:"decisions"`
	Multi     uint64            `json:"multi"`
	Hits      map[string]int    `json:"faults"`
	Modes     map[string]int    `json:"modes"`
	Sample    json.RawMessage   `json:"sample,omitempty"`
	Checks    map[string]string `json:"replays,omitempty"` // plan index -> hash, for the determinism self-check
	Viol      []violation       `json:"violations,omitempty"`
	Other     map[string]int    `json:"other,omitempty"` // violations of other properties seen on the way
	Known     map[string]int    `json:"known,omitempty"`
	Methods   map[string]int    `json:"methods,omitempty"`        // calls of generated clients which succeeded, by service and method
	Random    int               `json:"random_methods,omitempty"` // methods of random services there are
	Plan      *Plan             `json:"plan,omitempty"`
	Poisoned  bool              `json:"poisoned,omitempty"`
	WallMS    int64             `json:"wall_ms"`
}

func warm() {
	// gob numbers types in the order it meets them; fix that order
	enc := gob.NewEncoder(io.Discard)
	for _, v := range []any{
		wire.WireEchoRequest{}, wire.WireEchoResponse{}, wire.WireEchoPtrRequest{}, wire.WireEchoPtrResponse{}, wire.WirePairRequest{}, wire.WirePairResponse{},
		wire.WireNumsRequest{}, wire.WireNumsResponse{}, wire.WireBulkRequest{}, wire.WireBulkResponse{}, wire.WireOneWayRequest{}, wire.WireOneWayResponse{},
		wire.WirePulseRequest{}, wire.WirePulseResponse{}, wire.WireNopRequest{}, wire.WireNopResponse{}, wire.WireSlowRequest{}, wire.WireSlowResponse{}, wire.WireDeepRequest{}, wire.WireDeepResponse{}, wire.WireTimesRequest{}, wire.WireTimesResponse{}, wire.WireBytesRequest{}, wire.WireBytesResponse{}, wire.WireSessRequest{}, wire.WireSessResponse{},
		wire.Wire2EchoRequest{}, wire.Wire2EchoResponse{}, wire.Wire2PairRequest{}, wire.Wire2PairResponse{}, wire.Wire2NoteRequest{}, wire.Wire2NoteResponse{},
	} {
		enc.Encode(&v)
	}
	for _, rs := range rndSvcs {
		for _, v := range rs.gob {
			enc.Encode(&v)
		}
	}
	// and one run through everything, so caches are in the same state
	p := &Plan{Prop: "warm", HealAt: 10, Probes: 1}
	p.Servers = []ServerCfg{{Addr: "host0.sim:80", Kind: "http", Instrument: "stats"}, {Addr: "grpc1.sim:4000", Kind: "gorpc"}, {Addr: "grpc2.sim:4001", Kind: "gorpc2"}}
	svcs := append(append([]string{"grpc", "grpc2"}, httpSvcs...), rndRPC...)
	for i, k := range rndRPC {
		p.Servers = append(p.Servers, ServerCfg{Addr: fmt.Sprintf("grpc%d.sim:4000", 3+i), Kind: strings.Replace(k, "grpc", "gorpc", 1)})
	}
	for _, svc := range svcs {
		for enc := 0; enc < 2; enc++ {
			c := ClientCfg{Svc: svc, HTTP: "pool", Encoding: enc, Headers: -1}
			if svc == "grpc" {
				c.Server = 1
			}
			if svc == "grpc2" {
				c.Server = 2
			}
			if i := indexOf(rndRPC, svc); i >= 0 {
				c.Server = 3 + i
			}
			p.Clients = append(p.Clients, c)
			t := Task{}
			for k, m := range append(append([]string{}, callMethods[svc]...), errMethods[svc]...) {
				t.Ops = append(t.Ops, Op{ID: fmt.Sprintf("w%d.%d", len(p.Clients), k), Kind: "call", Client: len(p.Clients) - 1, Method: m, Seed: uint64(k), Size: 2})
			}
			p.Tasks = append(p.Tasks, t)
		}
	}
	if res := runPlan(p); res.Poisoned {
		fmt.Fprintln(os.Stderr, "WARM-UP-STUCK:", res.Panic)
		os.Exit(78)
	}
	gc()
}

func gc() {
	runtime.GC()
	runtime.GC()
}

func hashOf(res *runResult) string { return fmt.Sprintf("%016x%016x", res.Hash, res.SchedHash) }

func execPlan(p *Plan) runResult {
	if p.Gen != nil {
		return runGen(p)
	}
	return runPlan(p)
}

func main() {
	mode := flag.String("mode", "run", "run | replay")
	prop := flag.String("prop", "C01", "")
	seed := flag.Uint64("seed", 1, "")
	shard := flag.Uint64("shard", 0, "")
	shards := flag.Uint64("shards", 1, "")
	from := flag.Uint64("from", 0, "first index within the shard")
	secs := flag.Float64("secs", 5, "")
	maxRuns := flag.Int("max", 0, "")
	file := flag.String("file", "", "")
	idx := flag.Uint64("index", 0, "")
	verbose := flag.Bool("v", false, "")
	flag.StringVar(&genRoot, "gendir", "", "scratch directory for generator runs")
	flag.StringVar(&genCorpus, "corpus", "", "generator inputs")
	nowarm := flag.Bool("nowarm", false, "skip the warm-up run")
	cpuprof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(-1)
	if runtime.GOMAXPROCS(0) != 1 {
		fmt.Fprintln(os.Stderr, "needs GOMAXPROCS=1")
		os.Exit(2)
	}
	if strings.HasPrefix(*prop, "C16") || *prop == "C17" || *prop == "C18" {
		genInit()
	} else {
		findLost()
		if !*nowarm {
			warm()
		}
	}
	if *prop == "C19" {
		tsInit()
	}
	// what the code under test prints must not mix with the results
	out := os.Stdout
	os.Stdout = os.Stderr
	switch *mode {
	case "replay", "plan":
		var p *Plan
		if *file != "" {
			b, err := os.ReadFile(*file)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			var rf struct {
				Plan *Plan `json:"plan"`
			}
			if json.Unmarshal(b, &rf) == nil && rf.Plan != nil {
				p = rf.Plan
			} else {
				p = &Plan{}
				if err := json.Unmarshal(b, p); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
			}
		} else {
			p = planFor(*prop, *seed, *idx)
		}
		if *mode == "plan" {
			json.NewEncoder(out).Encode(p)
			return
		}
		res := execPlan(p)
		if *verbose {
			for _, e := range res.Events {
				fmt.Fprintf(os.Stderr, "%12v %-14s %s\n", e.at, e.kind, e.what)
			}
		}
		json.NewEncoder(out).Encode(map[string]any{"violations": mine(res.Viol, p.Prop), "all": res.Viol, "known": res.Known, "hash": hashOf(&res), "choices": res.Stats.Choices, "yields": res.Stats.Yields,
			"lost": res.Stats.Lost, "decisions": res.Stats.Decisions, "sim_ms": res.SimTime.Milliseconds(), "ops": res.Ops, "execs": res.Execs, "panic": res.Panic, "faults": res.Hits})
		return
	}
	if *mode == "serve" || *mode == "hashes" {
		serve(out, *mode, *prop, *seed, *file)
		return
	}
	start := time.Now()
	s := summary{Prop: *prop, From: *from, Hits: map[string]int{}, Modes: map[string]int{}, Checks: map[string]string{}, Other: map[string]int{}, Known: map[string]int{}, Methods: map[string]int{}, Random: rndMethods()}
	seen := map[string]bool{}
	progress, _ := os.Create(*file + ".at")
	for k := *from; ; k++ {
		if time.Since(start).Seconds() > *secs || (*maxRuns > 0 && s.Runs >= *maxRuns) {
			s.Next = k
			break
		}
		idx := *shard + k**shards
		if progress != nil {
			progress.WriteAt([]byte(fmt.Sprintf("%-20d", idx)), 0)
		}
		p := planFor(*prop, *seed, idx)
		res := execPlan(p)
		s.Runs++
		s.SimMS += res.SimTime.Milliseconds()
		s.Ops += res.Ops
		s.OK += res.OK
		s.Execs += res.Execs
		s.Reqs += res.Reqs
		s.Decisions += res.Stats.Decisions
		s.Multi += res.Stats.Multi
		s.Yields += res.Stats.Yields
		for h, n := range res.Hits {
			s.Hits[h] += n
		}
		for h, n := range res.Known {
			s.Known[h] += n
		}
		for h, n := range res.Methods {
			s.Methods[h] += n
		}
		for _, t := range p.Tasks {
			for _, o := range t.Ops {
				s.Modes[o.Kind]++
				if o.Mode != "" {
					s.Modes[o.Kind+":"+o.Mode]++
				}
			}
		}
		if p.Gen != nil {
			s.Modes["gen:"+p.Gen.Case+":"+p.Gen.Mode]++
		}
		h := hashOf(&res)
		if res.Nontrivial && !seen[h] {
			s.Nontriv++
			seen[h] = true
			s.Hashes = append(s.Hashes, h)
			if s.Sample == nil || s.Runs == 17 {
				s.Sample, _ = json.Marshal(map[string]any{"index": idx, "plan": p, "decisions": res.Stats.Decisions, "sim_ms": res.SimTime.Milliseconds()})
			}
		}
		if s.Runs%25 == 3 {
			s.Checks[fmt.Sprint(idx)] = h
		}
		m := mine(res.Viol, *prop)
		if len(m) > 0 {
			s.Viol, s.Plan = m, p
			s.Poisoned = res.Poisoned
			s.Next = k + 1
			break
		}
		for _, v := range res.Viol {
			s.Other[v.Prop+": "+clipN(v.What, 300)+fmt.Sprintf(" @%d", idx)]++
		}
		if res.Poisoned {
			s.Poisoned = true
			s.Next = k + 1
			break
		}
		gc()
	}
	s.WallMS = time.Since(start).Milliseconds()
	b, _ := json.Marshal(s)
	if *file != "" {
		if err := os.WriteFile(*file, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		out.Write(b)
	}
}

// serve runs one plan per input line and prints what happened, one line each.
func serve(dst *os.File, mode, prop string, seed uint64, file string) {
	in := bufio.NewReaderSize(os.Stdin, 1<<22)
	out := json.NewEncoder(dst)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		p := &Plan{}
		if mode == "hashes" {
			k, err := strconv.ParseUint(strings.TrimSpace(string(line)), 10, 64)
			if err != nil {
				return
			}
			p = planFor(prop, seed, k)
		} else if err := json.Unmarshal(line, p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		res := execPlan(p)
		m := map[string]any{"violations": mine(res.Viol, p.Prop), "hash": hashOf(&res), "lost": res.Stats.Lost, "poisoned": res.Poisoned}
		if mode == "serve" && len(mine(res.Viol, p.Prop)) > 0 {
			m["choices"] = res.Stats.Choices
		}
		out.Encode(m)
		if res.Poisoned {
			return
		}
		gc()
	}
}

func planFor(prop string, seed, k uint64) *Plan {
	switch prop {
	case "C16", "C17", "C18":
		return genGenPlan(prop, seed, k)
	}
	return genPlan(prop, seed, k)
}

// mine keeps the violations of the property under test and of the harness.
func mine(l []violation, prop string) (out []violation) {
	for _, v := range l {
		if v.Prop == prop || v.Prop == "sim" {
			out = append(out, v)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Prop != "sim" && out[j].Prop == "sim" })
	return
}

var _ = reflect.TypeOf
