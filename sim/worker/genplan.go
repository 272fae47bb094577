package main

import (
	"fmt"
	"strings"
)

// mix is the swarm configuration of one run: which behaviours it may contain.
type mix struct {
	rpc, grpc  int // weight of TSRPC and GoRPC clients
	errs       int // % of calls with an error method
	control    int // % of handler-controlled statuses
	panics     int
	ctx        int // % of calls with deadline or cancellation
	raw, skew  int // % of raw / skewed operations
	faults     int // % of plans with faults
	crash      int // % of faulty plans with crashes
	headers    bool
	setenc     bool
	instrument string
	poolOnly   bool
	longExec   bool
	big        int // % of operations with big values
	json       int // % of clients speaking JSON
	timeouts   int // % of clients with their own timeout
	solo       bool
}

func mixFor(prop string, r *rng) mix {
	m := mix{rpc: 1, errs: 10, control: 3, big: 6, json: 35, headers: r.p(30), setenc: r.p(20), instrument: r.pick("", "stats", "prom")}
	switch prop {
	case "C01":
		m.faults, m.errs, m.headers, m.skew, m.ctx, m.raw = 15, 3, r.p(50), 3, pick2(r.p(40), 12, 0), 7
	case "C02":
		m.faults, m.crash, m.control, m.panics, m.ctx, m.timeouts, m.skew = 92, 25, 8, 4, 12, 30, 3
	case "C03":
		m.faults, m.crash, m.ctx, m.timeouts = 95, 35, 15, 30
	case "C04":
		m.raw, m.skew, m.faults = 55, 20, 15
	case "C05":
		m.errs, m.faults, m.json = 75, 8, 25
	case "C06":
		m.ctx, m.timeouts, m.longExec, m.faults = 75, 15, true, 20
	case "C07":
		m.instrument, m.raw, m.errs, m.faults, m.control, m.ctx = "stats", 8, 25, 35, 6, 10
	case "C08":
		m.instrument = r.pick("stats", "stats", "")
		m.raw, m.errs, m.faults, m.control, m.ctx = 8, 25, 35, 8, 10
	case "C09":
		m.faults, m.crash, m.ctx, m.timeouts = 100, 50, 10, 30
	case "C10":
		m.faults, m.crash, m.ctx, m.timeouts, m.control, m.panics, m.skew, m.raw, m.longExec = 70, 20, 35, 25, 10, 4, 10, 5, r.p(50)
		if r.p(25) {
			m.grpc = 1
		}
	case "C11":
		m.headers, m.setenc, m.json, m.faults = true, r.p(70), 50, 10
	case "C12":
		m.control, m.panics, m.faults, m.instrument = 45, 20, 10, r.pick("", "stats")
	case "C13":
		m.rpc, m.grpc, m.faults, m.crash, m.timeouts = 0, 1, 65, 30, 30
		if r.p(25) {
			m.rpc = 1
		}
	case "C14":
		m.rpc, m.grpc, m.faults, m.timeouts, m.instrument = 0, 1, 35, 20, r.pick("", "prom")
	case "C19":
		m.raw, m.errs, m.faults, m.big, m.control = 85, 4, 30, 10, 0
	case "C20":
		m.grpc, m.errs, m.control, m.big, m.json, m.setenc = 1, 10, 0, 4, 45, false
	case "C21":
		m.raw, m.errs, m.faults, m.crash, m.ctx, m.timeouts, m.control, m.setenc = 12, 20, 35, 15, 15, 15, 6, false
		m.instrument = r.pick("", "stats", "prom")
		if r.p(35) {
			m.grpc = 1
		}
	case "C15":
		m.instrument, m.faults, m.errs = "prom", 20, 15
		if r.p(60) {
			m.grpc = 1
		}
	}
	return m
}

var callMethods = map[string][]string{
	"core":   {"Echo", "EchoPtr", "Scalars", "Lists", "Maps", "Named", "Cross", "At", "Swap", "Swap", "Sum", "Nop", "Pulse", "Pulse", "OneWay", "Session", "Whoami", "Touch"},
	"alpha":  {"Get", "Put", "Put", "Ping"},
	"beta":   {"Get", "Put", "Ping", "Sess"},
	"wire":   {"Echo", "EchoPtr", "Pair", "Nums", "Bulk", "OneWay", "Pulse", "Nop", "Slow", "Deep", "Times", "Bytes", "Sess"},
	"shapes": {"Nest", "Keys", "Times", "Bytes", "Shape", "Shape", "ShapePtr", "Many", "Ptrs", "Narrow", "Any", "Named", "Two", "Choose", "Offer", "Rare", "Names", "Combo"},
	"twin":   {"Swap", "Swap", "Echo", "Pulse", "Session"},
	"grpc":   {"Echo", "EchoPtr", "Pair", "Nums", "Bulk", "OneWay", "Pulse", "Pulse", "Nop", "Slow", "Deep", "Times", "Bytes", "Sess"},
	"grpc2":  {"Echo", "Pair", "Note"},
}

var errMethods = map[string][]string{
	"core":   {"Fail", "Fail", "Find", "FailScalar", "FailStruct", "FailValue", "FailRich", "FailCode", "Session"},
	"alpha":  {"Get"},
	"beta":   {"Get", "Sess"},
	"shapes": {"Trouble"},
	"twin":   {"Fail", "Session"},
}

var ctlStatuses = []int{200, 201, 202, 204, 206, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 412, 413, 415, 417, 418, 421, 422, 423, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 507, 508, 511, 599}

func genPlan(prop string, seed, k uint64) *Plan {
	r := newRng(seed, hashStr(prop), k)
	m := mixFor(prop, r)
	p := &Plan{Prop: prop, Seed: r.u64()}
	p.Sched = SchedCfg{Policy: uint32(r.n(5)), Seed: r.u64(), Rand: r.u64()}
	switch r.n(4) {
	case 0:
		p.Sched.YieldP = 0
	case 1:
		p.Sched.YieldP = 3000
	case 2:
		p.Sched.YieldP = 12000
	case 3:
		p.Sched.YieldP = 32768
	}
	p.Link = LinkCfg{Latency: int64([]int{0, 50, 500, 5000, 40000}[r.n(5)]), Jitter: int64([]int{0, 0, 100, 3000, 30000}[r.n(5)])}
	p.Link.SegMax = []int{0, 0, 1460, 300, 40}[r.n(5)]
	p.Link.Bw = int64([]int{0, 0, 0, 1000, 100}[r.n(5)])
	faulty := r.p(m.faults)
	// servers
	if m.rpc > 0 {
		for i := r.between(1, 2); i > 0; i-- {
			p.Servers = append(p.Servers, ServerCfg{Addr: fmt.Sprintf("host%d.sim:80", len(p.Servers)), Kind: "http", Instrument: m.instrument})
		}
		for i := range p.Servers {
			if r.p(20) {
				p.Servers[i].Base = r.pick("/", "/api/v1", "/rpc/core", "/a.b/c-d_e", "/rpc/core/Echo")
			}
			if r.p(pick2(prop == "C04", 45, 12)) {
				p.Servers[i].Mount = "prefix"
			}
		}
		if m.instrument == "prom" { // the helper registers its metrics once per process
			for i := 1; i < len(p.Servers); i++ {
				p.Servers[i].Instrument = ""
			}
		}
	}
	nhttp := len(p.Servers)
	bulk := r.p(25)
	if m.grpc > 0 {
		p.Servers = append(p.Servers, ServerCfg{Addr: "grpc1.sim:4000", Kind: "gorpc", Instrument: m.instrument, NoStats: r.p(15)})
		if r.p(60) {
			p.Servers = append(p.Servers, ServerCfg{Addr: "grpc2.sim:4001", Kind: "gorpc2", Instrument: m.instrument})
		}
		if len(rndRPC) > 0 && r.p(pick2(prop == "C20", 95, 55)) {
			p.Servers = append(p.Servers, ServerCfg{Addr: "grpc3.sim:4002", Kind: strings.Replace(r.pick(rndRPC...), "grpc", "gorpc", 1), Instrument: m.instrument, NoStats: r.p(10)})
		}
	}
	// default headers, maps shared between clients
	if m.headers {
		keys := []string{"X-Tenant", "X-Trace", "Authorization", "Content-Type", "Accept", "X-Foomo-S2s", "Cookie", "X-Multi", "Accept-Language"}
		for i := r.between(1, 3); i > 0; i-- {
			var h []string
			for j := r.between(0, 5); j > 0; j-- {
				h = append(h, keys[r.n(len(keys))], fmt.Sprintf("h%d-%x", len(p.Headers), r.u64()&0xfff))
			}
			p.Headers = append(p.Headers, h)
		}
	}
	// clients
	nc := r.between(1, 5)
	if prop == "C21" {
		nc = r.between(1, 3)
	}
	sw := m.setenc && r.p(45)
	svcs := []string{"core", "core", "core", "alpha", "beta", "wire", "shapes", "shapes", "twin"}
	for i := 0; i < nc; i++ {
		c := ClientCfg{Headers: -1}
		g := m.grpc > 0 && (m.rpc == 0 || r.p(45) || i == 0)
		if g {
			si := nhttp + r.n(len(p.Servers)-nhttp)
			c.Server = si
			c.Svc = grpcKey(p.Servers[si].Kind)
			if r.p(m.timeouts) {
				c.Timeout = int64(r.between(50, 8000))
			}
		} else {
			c.Server = r.n(nhttp)
			c.Svc = svcs[r.n(len(svcs))]
			if len(rndHTTP) > 0 && r.p(pick2(prop == "C20", 90, 35)) {
				c.Svc = r.pick(rndHTTP...)
			}
			if prop == "C05" && !r.p(20) || (prop == "C12" && !r.p(15)) {
				c.Svc = "core"
			}
			if p.Servers[0].Instrument == "prom" && r.p(80) {
				c.Server = 0
			}
			c.HTTP = r.pick("default", pick2(prop == "C21", "default", "pool"), "pool", "pool1", "nokeep", "shared")
			if r.p(m.json) {
				c.Encoding = 1
			}
			if r.p(m.timeouts) {
				c.Timeout = int64(r.between(20, 9000))
			}
			if len(p.Headers) > 0 && r.p(75) {
				c.Headers = r.n(len(p.Headers))
			}
			if sw && r.p(60) {
				c.Switch, c.HTTP = true, r.pick("pool", "pool", "pool1", "nokeep", "shared")
			}
		}
		p.Clients = append(p.Clients, c)
	}
	// tasks
	nt := r.between(1, 7)
	if prop == "C01" || prop == "C11" || prop == "C13" || prop == "C21" {
		nt = r.between(2, 9)
	}
	spread := []int{0, 0, 20, 500, 5000}[r.n(5)]
	id := 0
	for t := 0; t < nt; t++ {
		task := Task{Start: int64(r.n(spread + 1))}
		ci := r.n(nc)
		solo := m.setenc && t < nc && r.p(60)
		for n := r.between(1, 7); n > 0; n-- {
			if !solo && r.p(50) {
				ci = r.n(nc)
			}
			if solo {
				ci = t
			}
			id++
			op := Op{ID: fmt.Sprintf("o%d.%x", id, r.u64()&0xffff), Kind: "call", Client: ci, Seed: r.u64(), Size: r.between(1, 3)}
			if r.p(m.big) {
				op.Size = r.between(5, 6)
			}
			if r.p(40) {
				op.Wait = int64(r.n([]int{1, 50, 2000, 20000}[r.n(4)]))
			}
			switch r.n(4) {
			case 0:
			case 1:
				op.Exec = int64(r.n(5))
			case 2:
				op.Exec = int64(r.n(200))
			case 3:
				op.Exec = int64(r.n(3000))
			}
			if m.longExec && r.p(50) {
				op.Exec = int64(r.between(3000, 30000))
			}
			if r.p(40) {
				op.ExecNS = int64(r.n(1000000))
			}
			c := p.Clients[ci]
			if c.Switch && r.p(25) {
				op.Kind, op.Size, op.Wait = "setenc", r.n(2), int64(r.n(30))
				if len(p.Headers) > 0 && r.p(40) {
					op.Kind, op.Size = "sethdr", r.n(len(p.Headers))
				}
				task.Ops = append(task.Ops, op)
				continue
			}
			genOp(&op, c, m, r, prop, solo && !c.Switch)
			if bulk && op.Kind == "call" && r.p(40) {
				genBulk(&op, c, p, r)
			}
			task.Ops = append(task.Ops, op)
		}
		p.Tasks = append(p.Tasks, task)
	}
	for t := range p.Tasks {
		for i := range p.Tasks[t].Ops {
			if o := &p.Tasks[t].Ops[i]; o.BulkIn+o.BulkOut > 0 && p.Link.SegMax > 0 && p.Link.SegMax < 1460 {
				p.Link.SegMax = 1460
			}
		}
	}
	// a client whose encoding is switched belongs to one task
	for _, c := range soloClients(p) {
		for t := range p.Tasks {
			if t == c {
				continue
			}
			var l []Op
			for _, o := range p.Tasks[t].Ops {
				if o.Client != c || o.Kind == "raw" {
					l = append(l, o)
				}
			}
			p.Tasks[t].Ops = l
		}
	}
	if sw && r.p(70) {
		// connections are opened slowly while the clients are used a lot
		p.Link.Latency = int64(r.between(5000, 60000))
		for t := range p.Tasks {
			p.Tasks[t].Start = int64(r.n(30))
			for i := range p.Tasks[t].Ops {
				if o := &p.Tasks[t].Ops[i]; p.Clients[o.Client].Switch {
					o.Wait, o.Exec = int64(r.n(30)), int64(r.n(30))
				}
			}
		}
	}
	if prop == "C21" && r.p(60) {
		// everybody at once
		for t := range p.Tasks {
			p.Tasks[t].Start = 0
			for i := range p.Tasks[t].Ops {
				p.Tasks[t].Ops[i].Wait = 0
			}
		}
	}
	p.Probes = 3
	p.HealAt = 1000
	if faulty {
		genFaults(p, m, r, prop)
	}
	if prop == "C01" && r.p(2) || prop == "C10" && r.p(3) {
		genEarly(p, r)
	}
	if prop == "C06" && r.p(6) || prop == "C02" && r.p(2) {
		genDrip(p, r)
	}
	if (prop == "C09" || prop == "C10") && r.p(pick2(prop == "C09", 14, 8)) {
		genStorm(p, m, r, prop)
	}
	if (prop == "C10" || prop == "C01" || prop == "C02") && r.n(400) == 0 {
		genHuge(p, r)
	}
	switch prop {
	case "C01", "C03", "C06", "C07", "C08", "C10", "C12", "C14", "C15":
		if !r.p(5) {
			break
		}
		// services may take long, clients without a limit of their own wait
		for t := range p.Tasks {
			for i := range p.Tasks[t].Ops {
				if o := &p.Tasks[t].Ops[i]; r.p(30) && (p.Clients[o.Client].HTTP != "" || prop == "C14" || prop == "C15") {
					o.Exec = int64(r.between(10000, 110000))
				}
			}
		}
	}
	return p
}

// genStorm adds many calls in a row, of one client, which all end the same bad
// way.
func genStorm(p *Plan, m mix, r *rng, prop string) {
	ci := r.n(len(p.Clients))
	if strings.HasPrefix(p.Clients[ci].Svc, "grpc") {
		return
	}
	p.Clients = append(p.Clients, p.Clients[ci])
	ci = len(p.Clients) - 1
	c := &p.Clients[ci]
	c.HTTP, c.Switch, c.Svc = r.pick("default", "default", "pool", "pool1", "nokeep", "shared"), false, r.pick(append([]string{"core", "alpha", "wire", "shapes"}, rndHTTP...)...)
	kind, status, cut := r.n(6), []int{503, 503, 502, 500, 404, 429, 401}[r.n(7)], r.between(1, 60)
	if kind < 3 {
		c.Svc = "core"
	}
	wide := r.p(40)
	for n := r.between(20, 130); n > 0; n-- {
		op := Op{ID: fmt.Sprintf("s%d.%x", n, r.u64()&0xffff), Kind: "call", Client: ci, Seed: r.u64(), Size: 1}
		switch kind {
		case 0, 1:
			op.Method, op.Status = "Control", status
			if kind == 1 {
				op.BulkIn = r.between(1000, 20000)
			}
		case 2:
			op.Method, op.Mode = "Session", "panic"
		case 3:
			op.Kind, op.Mode = "skew", skewVariants[int(op.Seed>>8)%len(skewVariants)]
		case 4:
			genOp(&op, *c, mix{rpc: 1}, r, "", false)
			op.Cancel = int64(cut)
		case 5:
			genOp(&op, *c, mix{rpc: 1, ctx: 100}, r, "", false)
			op.Exec = int64(cut)
		}
		t := r.n(len(p.Tasks))
		if !wide {
			t = 0
		}
		p.Tasks[t].Ops = append(p.Tasks[t].Ops, op)
	}
}

// genHuge makes a few arguments and results very large.
func genHuge(p *Plan, r *rng) {
	p.Link = LinkCfg{Latency: int64(r.n(1000))}
	n := 0
	for t := range p.Tasks {
		for i := range p.Tasks[t].Ops {
			o := &p.Tasks[t].Ops[i]
			if o.Kind != "call" || n >= 2 || !r.p(40) || strings.HasPrefix(p.Clients[o.Client].Svc, "grpc") || o.Status != 0 {
				continue
			}
			n++
			o.Method = probeMethod[p.Clients[o.Client].Svc]
			o.Mode, o.Size = "", 1
			if size := r.between(2, 40) << 20; r.p(50) {
				o.BulkIn, o.BulkOut = 0, size
			} else {
				o.BulkIn, o.BulkOut = size>>4, 0 // services read requests byte by byte
			}
		}
	}
}

// genDrip lets answers, or requests, take minutes to pass a slow line or a
// stalled one, for clients of all kinds of patience.
func genDrip(p *Plan, r *rng) {
	slow := r.p(50)
	if slow {
		p.Link = LinkCfg{Latency: int64(r.n(4000)), SegMax: 1460, Bw: int64(r.between(1, 5))}
	}
	for i := range p.Clients {
		if c := &p.Clients[i]; !strings.HasPrefix(c.Svc, "grpc") && r.p(60) {
			c.HTTP, c.Timeout, c.Switch = r.pick("default", "default", "pool", "nokeep"), 0, false
			if c.HTTP != "default" {
				c.Timeout = int64(r.between(1000, 100000))
			}
		}
	}
	for t := range p.Tasks {
		if len(p.Tasks[t].Ops) > 3 {
			p.Tasks[t].Ops = p.Tasks[t].Ops[:3]
		}
		for i := range p.Tasks[t].Ops {
			o := &p.Tasks[t].Ops[i]
			if o.Kind != "call" || strings.HasPrefix(p.Clients[o.Client].Svc, "grpc") {
				continue
			}
			o.Size, o.BulkIn, o.BulkOut, o.Status, o.Mode, o.Ctl = 1, 0, 0, 0, "", ""
			if o.Method = probeMethod[p.Clients[o.Client].Svc]; o.Method == "Put" {
				o.Method = "Get"
			} else if o.Method == "Swap" && r.p(50) {
				o.Method = "Echo"
			}
			if o.Timeout > 0 {
				o.Timeout = int64(r.between(1000, 200000))
			}
			if o.Cancel > 0 {
				o.Cancel = int64(r.between(1000, 200000))
			}
			if !slow {
				continue
			}
			if r.p(80) {
				o.BulkOut = r.between(10000, 500000)
			} else {
				o.BulkIn = r.between(10000, 500000)
			}
		}
	}
	if !slow {
		for n := r.between(1, 8); n > 0; n-- {
			p.Conn = append(p.Conn, ConnFault{Conn: r.n(10), Kind: "stall", Dir: r.n(2), At: r.n([]int{60, 300, 600}[r.n(3)]), Dur: int64(r.between(60000, 500000))})
		}
	}
}

// genEarly turns the plan into big calls in a row, some of which are answered
// or given up while their request is still on its way.
func genEarly(p *Plan, r *rng) {
	p.Link = LinkCfg{Latency: int64(r.n(4000)), SegMax: []int{0, 1460}[r.n(2)], Bw: int64([]int{0, 1000, 5000}[r.n(3)])}
	for i := range p.Clients {
		if c := &p.Clients[i]; !strings.HasPrefix(c.Svc, "grpc") {
			c.HTTP, c.Timeout = r.pick("pool", "pool", "shared"), 0
		}
	}
	for t := range p.Tasks {
		p.Tasks[t].Start = int64(r.n(10))
		for i := range p.Tasks[t].Ops {
			o := &p.Tasks[t].Ops[i]
			if strings.HasPrefix(o.Kind, "set") || strings.HasPrefix(p.Clients[o.Client].Svc, "grpc") {
				continue
			}
			o.Wait, o.Exec, o.Size, o.BulkOut, o.Status, o.Mode, o.Ctl = int64(r.n(3)), 0, 1, 0, 0, "", ""
			o.Timeout, o.Cancel = 0, 0
			o.BulkIn = r.between(70000, 300000)
			if o.Kind = "call"; r.p(15) {
				o.Kind, o.Mode, o.Size = "skew", "bignomethod", 1
			}
			if o.Method = probeMethod[p.Clients[o.Client].Svc]; o.Method == "Swap" && r.p(50) {
				o.Method = "Echo"
			}
			if r.p(20) {
				o.Cancel = int64(r.between(1, 60))
			}
		}
	}
	for k := 0; k < 12; k++ {
		if r.p(40) {
			p.Conn = append(p.Conn, ConnFault{Conn: k, Kind: "middlebox", Body: mboxHeads[r.n(len(mboxHeads))], Fill: r.between(1, 600), Slow: int64(r.between(20, 300))})
		}
	}
}

func genBulk(op *Op, c ClientCfg, p *Plan, r *rng) {
	size := func() int {
		switch r.n(4) {
		case 0:
			return r.between(1000, 9000)
		case 1:
			return []int{4 << 10, 16 << 10, 32 << 10, 64 << 10, 128 << 10}[r.n(5)] + r.between(-60, 60)
		default:
			return r.between(5000, 300000)
		}
	}
	limit := 1 << 30
	if strings.HasPrefix(c.Svc, "grpc") && p.Link.Bw > 0 {
		limit = 20000
	}
	if p.Link.Bw > 0 && p.Link.Bw < 1000 {
		limit = 20000
	}
	if r.p(70) {
		op.BulkIn = min(size(), limit)
	}
	if r.p(60) {
		op.BulkOut = min(size(), limit)
	}
}

func soloClients(p *Plan) (l []int) {
	for t := range p.Tasks {
		for _, o := range p.Tasks[t].Ops {
			if o.Kind == "setenc" && !p.Clients[o.Client].Switch {
				l = append(l, o.Client)
				break
			}
		}
	}
	return
}

func genOp(op *Op, c ClientCfg, m mix, r *rng, prop string, solo bool) {
	g := strings.HasPrefix(c.Svc, "grpc")
	x := r.n(100)
	if !g {
		switch {
		case solo && r.p(25):
			op.Kind, op.Size = "setenc", r.n(2)
			return
		case x < m.raw:
			op.Kind = "raw"
			op.Mode = rawVariants[r.n(len(rawVariants))]
			if prop == "C19" && r.p(92) {
				op.Mode = r.pick("ts", "ts", "ts", "ts-err")
			}
			if op.Mode == "unknown" && r.p(15) {
				op.Size = r.between(21, 600)
			}
			if r.p(30) {
				op.Cut = r.between(1, 300)
			}
			return
		case x < m.raw+m.skew:
			op.Kind = "skew"
			op.Mode = skewVariants[r.n(len(skewVariants))]
			return
		case x < m.raw+m.skew+m.control && c.Svc == "core":
			op.Method = "Control"
			op.Status = ctlStatuses[r.n(len(ctlStatuses))]
			if r.p(40) {
				op.Status = []int{408, 429, 500, 502, 503, 504}[r.n(6)]
			}
			if r.p(45) {
				op.Ctl = r.pick("twice", "hints", "bare", "pieces")
			}
		case x < m.raw+m.skew+m.control+m.errs && errMethods[c.Svc] != nil:
			op.Method = errMethods[c.Svc][r.n(len(errMethods[c.Svc]))]
			if r.p(88) {
				op.Mode = errModes[r.n(len(errModes))]
			}
			if prop == "C05" && r.p(2) {
				op.Mode = "intmap"
			}
		}
	}
	if g && c.Svc == "grpc" && m.instrument == "" && (prop == "C13" || prop == "C14") && r.p(2) {
		op.Kind, op.Mode, op.Method = "skew", "otherservice", r.pick("Pair", "Note")
		return
	}
	if op.Method == "" {
		l := callMethods[c.Svc]
		op.Method = l[r.n(len(l))]
		if op.Method == "Session" && r.p(m.errs) {
			op.Mode = errModes[r.n(len(errModes))]
		}
	}
	if (op.Method == "Choose" || op.Method == "Offer") && (c.Encoding == 1 || m.setenc) {
		if prop == "C01" && c.Encoding == 1 && !m.setenc && r.p(20) {
			op.Mode = "jsonunion"
		} else {
			op.Method = "Two"
		}
	}
	if (c.Encoding == 1 || m.setenc) && hasUnion(c.Svc, op.Method, false) {
		op.Method, op.Mode = "Pair", ""
	}
	if prop == "C01" && c.Svc == "shapes" && op.Method == "Times" && r.p(4) {
		op.Mode = "zerotime"
	}
	if r.p(m.panics) && hasID(c.Svc, op.Method) && op.Method != "Control" && !g {
		op.Mode = "panic"
	}
	if prop == "C06" && c.Svc == "core" && r.p(40) {
		op.Method, op.Mode, op.Status = r.pick("Session", "Touch"), "", 0
	}
	if !g && r.p(m.ctx) {
		switch r.n(6) {
		case 5: // a deadline nobody will wait for, given up earlier
			op.Timeout = int64(r.between(60000, 4000000))
			if r.p(75) {
				op.Cancel = int64(r.between(1, 4000))
			}
		case 0, 1:
			op.Timeout = int64(r.between(1, 400))
		case 2:
			op.Timeout = int64(r.between(1, 9000))
		case 3:
			op.Cancel = int64(r.between(1, 4000))
		case 4:
			op.Cancel = []int64{-1, 1, 10, 1000}[r.n(4)]
		}
	}
}

var mboxBodies = []string{
	"HTTP/1.1 502 Bad Gateway\r\nContent-Type: text/html\r\nContent-Length: 15\r\nConnection: close\r\n\r\n<h1>502</h1>\r\n\r",
	"HTTP/1.1 503 Service Unavailable\r\nRetry-After: 1\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
	"HTTP/1.1 504 Gateway Timeout\r\nConnection: close\r\n\r\ntimeout",
	"HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nConnection: close\r\n\r\n<html>Please log in</html>",
	"HTTP/1.1 200 OK\r\nContent-Length: 26\r\nConnection: close\r\n\r\n<html>Please log in</html>",
	"HTTP/1.1 500 Internal Server Error\r\nContent-Type: application/json; charset=utf-8\r\nConnection: close\r\n\r\n[\"a\",\"b\",null]",
	"HTTP/1.1 403 Forbidden\r\nContent-Type: application/msgpack; charset=utf-8\r\nContent-Length: 1\r\nConnection: close\r\n\r\n\x90",
	"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n5\r\n[\"x\",\r\n",
	"HTTP/1.1 200 OK\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: 500\r\nConnection: close\r\n\r\n[\"tru",
	"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
	"HTTP/1.1 301 Moved Permanently\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
	"HTTP/1.1 408 Request Timeout\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
	"HTTP/1.1 425 Too Early\r\nContent-Length: 0\r\nConnection: close\r\n\r\n",
	"HTTP/1.1 204 No Content\r\nConnection: close\r\n\r\n",
	"HTTP/1.1 202 Accepted\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: 14\r\nConnection: close\r\n\r\n[\"a\",\"b\",null]",
	"SSH-2.0-OpenSSH_9.6\r\n",
	"",
}

var mboxHeads = []string{
	"HTTP/1.1 403 Forbidden\r\nContent-Type: text/html\r\n",
	"HTTP/1.1 413 Payload Too Large\r\n",
	"HTTP/1.1 500 Internal Server Error\r\nContent-Type: text/plain\r\nConnection: close\r\n",
	"HTTP/1.1 429 Too Many Requests\r\nRetry-After: 1\r\n",
	"HTTP/1.1 200 OK\r\nContent-Type: text/html\r\n",
}

func genFaults(p *Plan, m mix, r *rng, prop string) {
	ops := 0
	for _, t := range p.Tasks {
		ops += len(t.Ops)
	}
	kinds := []string{"refuse", "synloss", "acceptreset", "reset", "fin", "stall", "swallow", "middlebox"}
	// a swarm: each run has only some kinds
	var on []string
	for _, k := range kinds {
		if r.p(45) {
			on = append(on, k)
		}
	}
	if len(on) == 0 {
		on = kinds
	}
	grpc := false
	for _, c := range p.Clients {
		if strings.HasPrefix(c.Svc, "grpc") {
			grpc = true
		}
	}
	for n := r.between(0, 2+ops/2); n > 0; n-- {
		f := ConnFault{Conn: r.n(ops + 3), Kind: on[r.n(len(on))]}
		switch f.Kind {
		case "synloss":
			if r.p(60) {
				f.Dur = int64(r.between(100, 5000))
			}
		case "middlebox":
			f.Body = mboxBodies[r.n(len(mboxBodies))]
			if grpc {
				f.Body = r.pick("HTTP/1.1 400 Bad Request\r\n\r\n", "", "\x00\x00\x00", "SSH-2.0-OpenSSH_9.6\r\n")
			}
			f.Dur = int64(r.n(200))
			if !grpc && r.p(30) {
				f.Body = r.pick(mboxHeads...)
				f.Fill = r.between(1, []int{600, 5000, 70000, 400000}[r.n(4)])
			}
			if !grpc && r.p(35) {
				f.Dur, f.Slow = 0, int64(r.between(1, 400))
			}
		case "reset", "fin", "stall", "swallow":
			f.Dir = r.n(2)
			f.At = r.n([]int{1, 60, 300, 600, 3000, 70000}[r.n(6)])
			if f.Kind == "stall" {
				f.Dur = int64(r.between(10, []int{200, 5000, 60000, 200000}[r.n(4)]))
			}
		}
		p.Conn = append(p.Conn, f)
	}
	horizon := 8000
	if r.p(30) {
		for n := r.between(1, 3); n > 0; n-- {
			from := r.n(horizon)
			p.Parts = append(p.Parts, Partition{From: int64(from), To: int64(from + r.between(50, []int{500, 5000, 60000, 150000}[r.n(4)])), Dirs: r.between(1, 3)})
		}
	}
	if r.p(m.crash) {
		for n := r.between(1, 3); n > 0; n-- {
			p.Crash = append(p.Crash, CrashCfg{Server: r.n(len(p.Servers)), At: int64(r.n(horizon / (1 + r.n(4)))), Down: int64(r.n(3000)), Soft: r.p(25)})
		}
	}
	p.HealAt = 20000
	for _, x := range p.Parts {
		if x.To+1000 > p.HealAt {
			p.HealAt = x.To + 1000
		}
	}
}
