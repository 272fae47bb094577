package main

import "encoding/json"

// Plan is one simulated run, complete: the same plan gives the same execution.
// A replay file is a plan plus the violation it produced.
type Plan struct {
	Prop    string      `json:"prop"`
	Seed    uint64      `json:"seed"`
	Sched   SchedCfg    `json:"sched"`
	Link    LinkCfg     `json:"link"`
	Servers []ServerCfg `json:"servers,omitempty"`
	Clients []ClientCfg `json:"clients,omitempty"`
	Headers [][]string  `json:"headers,omitempty"` // shared header maps: k, v, k, v ...
	Tasks   []Task      `json:"tasks,omitempty"`
	Conn    []ConnFault `json:"conn_faults,omitempty"`
	Parts   []Partition `json:"partitions,omitempty"`
	Crash   []CrashCfg  `json:"crashes,omitempty"`
	HealAt  int64       `json:"heal_at"` // ms: faults stop and every server is up
	Probes  int         `json:"probes"`  // calls per client after the heal
	Gen     *GenPlan    `json:"gen,omitempty"`
}

type SchedCfg struct {
	Policy   uint32   `json:"policy"`
	YieldP   uint32   `json:"yield_p"`
	Seed     uint64   `json:"seed"`
	Rand     uint64   `json:"rand"`
	Explicit bool     `json:"explicit,omitempty"`
	Choices  []uint64 `json:"choices,omitempty"` // decision<<16 | choice
}

type ServerCfg struct {
	Addr       string `json:"addr"`
	Kind       string `json:"kind"` // http | gorpc | gorpc2
	Instrument string `json:"instrument,omitempty"`
	NoStats    bool   `json:"no_stats,omitempty"`
	Base       string `json:"base,omitempty"`  // endpoints below this instead of /rpc
	Mount      string `json:"mount,omitempty"` // "" = path mux, prefix = by string prefix, core takes the rest
}

type ClientCfg struct {
	Svc      string `json:"svc"`
	Server   int    `json:"server"`
	Encoding int    `json:"encoding"`
	HTTP     string `json:"http"` // default | pool | pool1 | nokeep | shared
	Timeout  int64  `json:"timeout,omitempty"`
	Headers  int    `json:"headers"`          // index into Plan.Headers, -1 none
	Switch   bool   `json:"switch,omitempty"` // encoding and headers are switched while calls are in flight
}

type Task struct {
	Start int64 `json:"start"` // ms
	Ops   []Op  `json:"ops"`
}

// Op is one call by a generated client, or one raw HTTP exchange.
type Op struct {
	ID      string `json:"id"`
	Kind    string `json:"kind"` // call | raw | skew | setenc | sethdr
	Client  int    `json:"client"`
	Method  string `json:"method"`
	Seed    uint64 `json:"seed"`
	Size    int    `json:"size"`
	Wait    int64  `json:"wait,omitempty"`    // ms before the call
	Exec    int64  `json:"exec,omitempty"`    // ms spent in the service
	ExecNS  int64  `json:"exec_ns,omitempty"` // and ns
	Timeout int64  `json:"timeout,omitempty"` // ms context deadline
	Cancel  int64  `json:"cancel,omitempty"`  // ms until the context is cancelled
	Mode    string `json:"mode,omitempty"`    // error mode, panic, status, raw variant
	Status  int    `json:"status,omitempty"`
	Cut     int    `json:"cut,omitempty"`
	BulkIn  int    `json:"bulk_in,omitempty"`  // bytes added to a string on the way in
	BulkOut int    `json:"bulk_out,omitempty"` // and on the way out
	Ctl     string `json:"ctl,omitempty"`      // how a handler writes its status: twice, hints, bare, pieces
}

type CrashCfg struct {
	Server int   `json:"server"`
	At     int64 `json:"at"` // ms
	Down   int64 `json:"down"`
	Soft   bool  `json:"soft,omitempty"` // graceful stop instead of a crash
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}
