package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/foomo/gotsrpc/v2"
	simprom "github.com/foomo/gotsrpc/v2/prometheus"
	p "github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"github.com/valyala/gorpc"

	"gotsrpcsim/svc/alt"
	"gotsrpcsim/svc/core"
	"gotsrpcsim/svc/shapes"
	twin "gotsrpcsim/svc/twin/core"
	"gotsrpcsim/svc/wire"
)

type reqKey struct{}

// execRec is one entry into a service method.
type execRec struct {
	svc, method, id string
	args            []any
	rets            []any
	srv             *server
	inc             int
	req             *reqRec
	start, end      time.Duration
	done            bool
	panicked        bool
	ctxDone         time.Duration // when the handler saw its context end, -1 if never
	hadReq          bool
	token           string
}

type monRec struct {
	at         time.Duration
	stats      gotsrpc.CallStats
	statsPtr   *gotsrpc.CallStats
	args, rets []any
	wroteHdr   bool
	written    int
	stray      bool
}

// reqRec is what the recorder in front of the proxies saw of one HTTP request.
type reqRec struct {
	n           int
	srv         *server
	inc         int
	httpMethod  string
	path        string
	hdr         http.Header
	clen        int64
	start, end  time.Duration
	done        bool
	panicked    any
	status      int
	wrote       int
	wroteAt     time.Duration
	body        []byte
	writeErr    bool
	execs       []*execRec
	stats       []gotsrpc.CallStats
	statsAt     []time.Duration
	statsLater  []*gotsrpc.CallStats
	mons        []monRec
	bodyRead    int
	head        []byte // of the request body
	bodyErr     error
	rawID       string
	callsBefore int
}

type opRec struct {
	op        *Op
	hb        sync.Mutex // orders what the harness prepares before its use by the service
	cl        *client
	args      []any
	rets      []any // what the service is to return
	svcErr    error
	svcRef    error // what svcErr is equivalent to for a caller
	got       []any
	err       error
	panicked  any
	started   bool
	done      bool
	start     time.Duration
	end       time.Duration
	cancelAt  time.Duration // -1 when never
	wantCtx   error
	raw       *rawRec
	probe     bool
	enc, hdr  int
	hdrWant   http.Header
	faultConn bool
}

type event struct {
	at   time.Duration
	kind string
	what string
}

type violation struct {
	Prop string `json:"property"`
	What string `json:"what"`
	// Class names the check that failed, without the particulars
	Class string `json:"class"`
}

type world struct {
	plan          *Plan
	mu            hmutex
	t0            time.Time
	net           *simNet
	servers       []*server
	clients       []*client
	headers       []http.Header
	hdrSnap       []http.Header
	ops           hmap[string, *opRec]
	opList        []*opRec
	execs         []*execRec
	reqs          []*reqRec
	grpcSt        []grpcStat
	cur           hmap[uint64, *reqRec]
	events        []event
	hash          uint64
	viol          []violation
	tokens        int
	strays        []monRec
	strayStats    int
	wg            sync.WaitGroup
	reg           *p.Registry
	healAt        time.Duration
	crashes       int
	goroutinesEnd int
	goroutineDump string
	openEnd       int
	openDetail    string
	logs          []string
	phase         string
	grpcLog       []string
	counts        hmap[string, int]
	known         map[string]int
	tsMisses      []func()
	fams          []*dto.MetricFamily
	famErr        error
}

type grpcStat struct {
	at    time.Duration
	srv   *server
	inc   int
	stats gotsrpc.CallStats
	g     uint64
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

func (w *world) event(kind, what string) {
	w.mu.Lock()
	at := time.Since(w.t0)
	w.events = append(w.events, event{at, kind, what})
	w.hash = mix64(w.hash ^ uint64(at)*0x9e3779b97f4a7c15 ^ hashStr(kind)*31 ^ hashStr(what))
	w.mu.Unlock()
}

func (w *world) count(k string) {
	w.mu.Lock()
	w.counts.set(k, w.counts.get(k)+1)
	w.mu.Unlock()
}

func (w *world) spawn(f func()) {
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		f()
	}()
}

// ---------------------------------------------------------------------------
// servers

type server struct {
	w           *world
	life        sync.Mutex
	i           int
	cfg         ServerCfg
	inc         int
	up          bool
	starting    bool
	http        *http.Server
	ln          net.Listener
	g1          *wire.WireGoRPCProxy
	g2          *wire.Wire2GoRPCProxy
	g3          rndServer
	mux         http.Handler
	prom        p.Gatherer
	grpcHandler gotsrpc.GoRPCCallStatsHandlerFun
}

type recWriter struct {
	http.ResponseWriter
	rec *reqRec
	hdr bool
}

func (r *recWriter) WriteHeader(s int) {
	if !r.hdr && s >= 200 {
		r.hdr = true
		r.rec.status = s
	}
	r.ResponseWriter.WriteHeader(s)
}

func (r *recWriter) Write(b []byte) (int, error) {
	if !r.hdr {
		r.hdr = true
		r.rec.status = http.StatusOK
	}
	n, err := r.ResponseWriter.Write(b)
	r.rec.wrote += n
	r.rec.wroteAt = time.Since(r.rec.srv.w.t0)
	if len(r.rec.body) < 1<<16 || r.rec.status != http.StatusOK {
		r.rec.body = append(r.rec.body, b[:n]...)
	}
	if err != nil {
		r.rec.writeErr = true
	}
	return n, err
}

type recBody struct {
	io.ReadCloser
	rec *reqRec
}

func (b recBody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	b.rec.bodyRead += n
	if k := 256 - len(b.rec.head); k > 0 {
		b.rec.head = append(b.rec.head, p[:min(n, k)]...)
	}
	if err != nil && err != io.EOF && b.rec.bodyErr == nil {
		b.rec.bodyErr = err
	}
	return n, err
}

func (s *server) buildMux() {

	mux := http.NewServeMux()
	type route struct {
		ep string
		h  http.HandlerFunc
	}
	var routes []route
	add := func(svc string, h http.HandlerFunc) {
		switch s.cfg.Instrument {
		case "stats":
			h = gotsrpc.InstrumentedService(h, s.onStats)
		}
		mux.HandleFunc(s.cfg.ep(svc)+"/", h)
		routes = append(routes, route{s.cfg.ep(svc), h})
	}
	coreP := core.NewDefaultCoreGoTSRPCProxy(&coreImpl{s})
	alphaP := alt.NewDefaultAlphaGoTSRPCProxy(&alphaImpl{s})
	betaP := alt.NewDefaultBetaGoTSRPCProxy(&alt.Beta{Name: "beta"})
	wireP := wire.NewDefaultWireGoTSRPCProxy(&wireImpl{s})
	shapesP := shapes.NewDefaultShapesGoTSRPCProxy(&shapesImpl{s})
	twinP := twin.NewDefaultCoreGoTSRPCProxy(&twinImpl{s})
	if s.cfg.Base != "" {
		coreP = core.NewCoreGoTSRPCProxy(&coreImpl{s}, s.cfg.ep("core"))
		alphaP = alt.NewAlphaGoTSRPCProxy(&alphaImpl{s}, s.cfg.ep("alpha"))
		betaP = alt.NewBetaGoTSRPCProxy(&alt.Beta{Name: "beta"}, s.cfg.ep("beta"))
		wireP = wire.NewWireGoTSRPCProxy(&wireImpl{s}, s.cfg.ep("wire"))
		shapesP = shapes.NewShapesGoTSRPCProxy(&shapesImpl{s}, s.cfg.ep("shapes"))
		twinP = twin.NewCoreGoTSRPCProxy(&twinImpl{s}, s.cfg.ep("twin"))
	}
	add("alpha", alphaP.ServeHTTP)
	add("beta", betaP.ServeHTTP)
	add("wire", wireP.ServeHTTP)
	add("shapes", shapesP.ServeHTTP)
	add("twin", twinP.ServeHTTP)
	for _, rs := range rndSvcs {
		if rs.proxy != nil {
			add(rs.key, rs.proxy(s, pick2(s.cfg.Base == "", "", s.cfg.ep(rs.key))))
		}
	}
	add("core", coreP.ServeHTTP)
	var h http.Handler = mux
	if s.cfg.Mount == "prefix" {
		h = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			for i, rt := range routes {
				if strings.HasPrefix(r.URL.Path, rt.ep) || i == len(routes)-1 {
					rt.h(rw, r)
					return
				}
			}
		})
	}
	if s.cfg.Instrument == "prom" {
		// the whole site behind one Prometheus instrumentation, the way the
		// helper is meant to be used (it registers its metrics once)
		h = simprom.InstrumentService(h.ServeHTTP)
	}
	s.mux = h
}

func (s *server) handler(inc int) http.Handler {
	w := s.w
	return http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		rec := &reqRec{srv: s, inc: inc, httpMethod: r.Method, path: r.URL.Path, hdr: r.Header.Clone(), clen: r.ContentLength, start: w.now()}
		rec.rawID = r.Header.Get("X-Sim-Raw")
		g := runtime.SimGoid()
		w.mu.Lock()
		rec.n = len(w.reqs)
		w.reqs = append(w.reqs, rec)
		prev := w.cur.get(g)
		w.cur.set(g, rec)
		w.mu.Unlock()
		r.Body = recBody{r.Body, rec}
		defer func() {
			e := recover()
			w.mu.Lock()
			rec.end = time.Since(w.t0)
			rec.done = true
			rec.panicked = e
			if prev == nil {
				w.cur.del(g)
			} else {
				w.cur.set(g, prev)
			}
			w.mu.Unlock()
			if e != nil {
				if _, ok := e.(simPanic); !ok && e != http.ErrAbortHandler {
					w.event("handler-panic", fmt.Sprint(e))
				}
				panic(http.ErrAbortHandler)
			}
		}()
		s.mux.ServeHTTP(&recWriter{ResponseWriter: rw, rec: rec}, r.WithContext(context.WithValue(r.Context(), reqKey{}, rec)))
	})
}

type simPanic struct{ what string }

func (s *server) onStats(st *gotsrpc.CallStats) {
	w := s.w
	w.mu.Lock()
	defer w.mu.Unlock()
	rec := w.cur.get(runtime.SimGoid())
	if rec == nil || st == nil {
		w.strayStats++
		return
	}
	rec.stats = append(rec.stats, *st)
	rec.statsLater = append(rec.statsLater, st)
	rec.statsAt = append(rec.statsAt, time.Since(w.t0))
}

func (w *world) monitor(rw http.ResponseWriter, r *http.Request, args, rets []interface{}, st *gotsrpc.CallStats) {
	m := monRec{at: w.now(), statsPtr: st}
	if st != nil {
		m.stats = *st
	}
	for _, a := range args {
		v := reflect.ValueOf(a)
		if v.IsValid() && v.Kind() == reflect.Ptr && !v.IsNil() {
			m.args = append(m.args, deepCopy(v.Elem()).Interface())
		} else {
			m.args = append(m.args, a)
		}
	}
	m.rets = append(m.rets, rets...)
	var rec *reqRec
	if r != nil {
		rec, _ = r.Context().Value(reqKey{}).(*reqRec)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if rec == nil {
		w.strays = append(w.strays, m)
		return
	}
	m.written = rec.wrote
	rec.mons = append(rec.mons, m)
}

func (s *server) grpcStats(st *gotsrpc.CallStats) {
	w := s.w
	w.mu.Lock()
	w.grpcSt = append(w.grpcSt, grpcStat{at: time.Since(w.t0), srv: s, inc: s.inc, stats: *st, g: runtime.SimGoid()})
	w.mu.Unlock()
	if s.grpcHandler != nil {
		s.grpcHandler(st)
	}
}

func (s *server) startUp() (err error) {
	if s.starting {
		return nil
	}
	s.life.Lock()
	s.life.Unlock()
	s.starting = true
	defer func() {
		s.life.Lock()
		s.life.Unlock()
	}()
	defer func() { s.starting, s.up = false, err == nil }()
	w := s.w
	s.inc++
	w.event("server-up", fmt.Sprintf("%d.%d", s.i, s.inc))
	switch s.cfg.Kind {
	case "http":
		if s.mux == nil {
			s.buildMux()
		}
		ln, err := w.net.Listen(s.cfg.Addr)
		if err != nil {
			return err
		}
		s.ln = ln
		hs := &http.Server{Handler: s.handler(s.inc), ErrorLog: log.New(io.Discard, "", 0)}
		s.http = hs
		w.spawn(func() { hs.Serve(ln) })
	case "gorpc":
		s.g1 = wire.NewWireGoRPCProxy(s.cfg.Addr, &wireImpl{s}, nil)
		if !s.cfg.NoStats {
			s.g1.SetCallStatsHandler(s.grpcStats)
		}
		return s.g1.Start()
	case "gorpc2":
		s.g2 = wire.NewWire2GoRPCProxy(s.cfg.Addr, &wire2Impl{s}, nil)
		if !s.cfg.NoStats {
			s.g2.SetCallStatsHandler(s.grpcStats)
		}
		return s.g2.Start()
	default: // gorpc-<service>
		g, stats := rndByKey[strings.Replace(s.cfg.Kind, "gorpc-", "grpc-", 1)].serve(s)
		if s.g3 = g; !s.cfg.NoStats {
			stats(s.grpcStats)
		}
		return g.Start()
	}
	return nil
}

// stop takes the server down; a crash resets every connection first and lets
// handlers that are still running die at their next step.
func (s *server) stop(crash bool) {
	s.life.Lock() // orders what the harness does to one server, nothing else
	s.life.Unlock()
	defer func() {
		s.life.Lock()
		s.life.Unlock()
	}()
	if !s.up {
		return
	}
	s.up = false
	kind := "server-stop"
	if crash {
		kind = "server-crash"
	}
	s.w.event(kind, fmt.Sprint(s.i))
	if crash {
		s.w.mu.Lock()
		s.w.crashes++
		s.inc++ // handlers of the old incarnation notice
		s.w.mu.Unlock()
		s.w.net.crashHost(s.cfg.Addr)
	}
	switch s.cfg.Kind {
	case "http":
		if crash {
			s.http.Close()
		} else {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			s.http.Shutdown(ctx)
			cancel()
			s.http.Close()
		}
	case "gorpc":
		s.g1.Stop()
	case "gorpc2":
		s.g2.Stop()
	default:
		s.g3.Stop()
	}
	// the process is gone now, with whatever sockets it still had
	s.w.net.crashHost(s.cfg.Addr)
}

// exec is the body of every service method.
func (s *server) exec(rw http.ResponseWriter, r *http.Request, svc, method, id string, args ...any) []any {
	w := s.w
	e := &execRec{svc: svc, method: method, id: id, srv: s, ctxDone: -1, hadReq: r != nil}
	e.args = copyAny(args)
	g := runtime.SimGoid()
	w.mu.Lock()
	e.start = time.Since(w.t0)
	e.inc = s.inc
	e.req = w.cur.get(g)
	if e.req != nil {
		e.inc = e.req.inc
		e.req.execs = append(e.req.execs, e)
	}
	op := w.ops.get(id)
	if id == "" {
		w.tokens++
		e.token = fmt.Sprintf("%s-%s-%d", svc, method, w.tokens)
	}
	w.execs = append(w.execs, e)
	w.mu.Unlock()
	if op != nil {
		op.hb.Lock()
		op.hb.Unlock()
	}
	w.event("exec", svc+"."+method+" "+id)
	s.checkAlive(e)
	var rets []any
	d := time.Duration(0)
	mode, status := "", 0
	if op != nil {
		rets = copyAny(op.rets)
		d = time.Duration(op.op.Exec)*time.Millisecond + time.Duration(op.op.ExecNS)
		mode, status = op.op.Mode, op.op.Status
		if op.raw != nil {
			d, mode, status = 0, "", 0
		}
	} else if id == "" {
		switch method {
		case "Nop":
		case "Census":
			rets = censusRets(svc, e.token)
		default:
			rets = []any{e.token}
		}
	} else {
		// unknown id: a request nobody made
		rets = zeroRets(svc, method)
	}
	if d > 0 {
		if r != nil {
			t := time.NewTimer(d)
			select {
			case <-t.C:
			case <-r.Context().Done():
				e.ctxDone = w.now()
			}
			t.Stop()
		} else {
			time.Sleep(d)
		}
		s.checkAlive(e)
	}
	if mode == "panic" {
		w.mu.Lock()
		e.panicked = true
		e.end = time.Since(w.t0)
		w.mu.Unlock()
		panic(simPanic{id})
	}
	if method == "Control" && rw != nil && status != 0 {
		control(rw, status, args[2].(string), op)
	}
	e.rets = rets
	w.mu.Lock()
	e.end = time.Since(w.t0)
	e.done = true
	w.mu.Unlock()
	return copyAny(rets)
}

// control writes a status the way the plan says.
func control(rw http.ResponseWriter, status int, body string, o *opRec) {
	ctl := ""
	if o != nil {
		ctl = o.op.Ctl
	}
	if ctl == "hints" {
		rw.Header().Set("Link", "</style.css>; rel=preload")
		rw.WriteHeader(http.StatusEarlyHints)
	}
	if status != 200 {
		rw.Header().Set("Content-Type", "text/plain")
		if o != nil {
			rw.Header().Set("X-Control", o.op.ID)
		}
	}
	rw.WriteHeader(status)
	if status == 200 {
		return
	}
	if status != 204 && ctl != "bare" {
		if ctl == "pieces" {
			for len(body) > 3 {
				k := (len(body) + 1) / 2
				io.WriteString(rw, body[:k])
				body = body[k:]
			}
		}
		io.WriteString(rw, body)
	}
	if ctl == "twice" {
		rw.WriteHeader([]int{200, 500, 404}[len(body)%3])
	}
}

func (s *server) checkAlive(e *execRec) {
	s.w.mu.Lock()
	dead := e.inc != s.inc
	s.w.mu.Unlock()
	if dead {
		panic(http.ErrAbortHandler) // the process this code ran in is gone
	}
}

// ---------------------------------------------------------------------------
// clients

type client struct {
	w    *world
	i    int
	cfg  ClientCfg
	svc  reflect.Value
	rpc  gotsrpc.Client
	http *http.Client
	g    *gorpc.Client
	enc  int
	hdr  int
	// held by whoever starts a call or switches the client
	start chan struct{}
}

type startKey struct{}

// startRT tells when a call's request is handed to the transport.
type startRT struct{ *http.Transport }

func (t startRT) RoundTrip(r *http.Request) (*http.Response, error) {
	if f, ok := r.Context().Value(startKey{}).(func()); ok {
		f()
	}
	return t.Transport.RoundTrip(r)
}

var svcTypes = map[string]reflect.Type{
	"core":   reflect.TypeOf(&core.HTTPCoreGoTSRPCClient{}),
	"alpha":  reflect.TypeOf(&alt.HTTPAlphaGoTSRPCClient{}),
	"beta":   reflect.TypeOf(&alt.HTTPBetaGoTSRPCClient{}),
	"wire":   reflect.TypeOf(&wire.HTTPWireGoTSRPCClient{}),
	"shapes": reflect.TypeOf(&shapes.HTTPShapesGoTSRPCClient{}),
	"twin":   reflect.TypeOf(&twin.HTTPCoreGoTSRPCClient{}),
	"grpc":   reflect.TypeOf(&wire.WireGoRPCClient{}),
	"grpc2":  reflect.TypeOf(&wire.Wire2GoRPCClient{}),
}

var svcName = map[string]string{"core": "core", "alpha": "alpha", "beta": "beta", "wire": "wire", "shapes": "shapes", "twin": "twin", "grpc": "wire", "grpc2": "wire2"}

// methodIO gives the argument and return types of a generated client method,
// without context and client error.
func methodIO(svc, method string) (in, out []reflect.Type) {
	m, ok := svcTypes[svc].MethodByName(method)
	if !ok {
		panic("no method " + svc + "." + method)
	}
	first := 1
	if !strings.HasPrefix(svc, "grpc") {
		first = 2
	}
	for i := first; i < m.Type.NumIn(); i++ {
		in = append(in, m.Type.In(i))
	}
	for i := 0; i < m.Type.NumOut()-1; i++ {
		out = append(out, m.Type.Out(i))
	}
	return
}

func zeroRets(svc, method string) (o []any) {
	for k, v := range svcName {
		if v == svc {
			_, out := methodIO(k, method)
			for _, t := range out {
				o = append(o, reflect.Zero(t).Interface())
			}
			return
		}
	}
	return
}

// censusRets are the results of a method without arguments: the token of its
// execution and values which follow from it.
func censusRets(svc, token string) (o []any) {
	for k, v := range svcName {
		if v == svc {
			_, out := methodIO(k, "Census")
			r := newRng(hashStr(token))
			o = append(o, token)
			for _, t := range out[1:] {
				o = append(o, genValue(r, t, 2).Interface())
			}
			return
		}
	}
	return
}

func (w *world) newClient(i int, cfg ClientCfg, shared *http.Client) *client {
	c := &client{w: w, i: i, cfg: cfg, enc: cfg.Encoding, hdr: cfg.Headers, start: make(chan struct{}, 1)}
	srv := w.servers[cfg.Server]
	url := "http://" + strings.TrimSuffix(srv.cfg.Addr, ":80")
	if strings.HasPrefix(cfg.Svc, "grpc") {
		if rs := rndByKey[cfg.Svc]; rs != nil {
			c.svc, c.g = rs.dial(srv.cfg.Addr)
		} else if cfg.Svc == "grpc" {
			g := wire.NewWireGoRPCClient(srv.cfg.Addr, nil)
			c.g = g.Client
			c.svc = reflect.ValueOf(g)
		} else {
			g := wire.NewWire2GoRPCClient(srv.cfg.Addr, nil)
			c.g = g.Client
			c.svc = reflect.ValueOf(g)
		}
		if cfg.Timeout > 0 {
			c.g.RequestTimeout = time.Duration(cfg.Timeout) * time.Millisecond
		}
		c.g.LogError = func(f string, a ...interface{}) { w.count("gorpc-client-log") }
		c.g.Start()
		return c
	}
	switch cfg.HTTP {
	case "default":
	case "pool":
		c.http = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 8, IdleConnTimeout: 90 * time.Second}}
	case "pool1":
		c.http = &http.Client{Transport: &http.Transport{MaxConnsPerHost: 2, MaxIdleConnsPerHost: 2, IdleConnTimeout: 90 * time.Second}}
	case "nokeep":
		c.http = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
	case "shared":
		c.http = shared
	}
	if t, ok := pick2(cfg.Switch, c.http, &http.Client{}).Transport.(*http.Transport); ok {
		c.http = &http.Client{Transport: startRT{t}}
	}
	if c.http != nil && cfg.HTTP != "shared" && cfg.Timeout > 0 {
		c.http.Timeout = time.Duration(cfg.Timeout) * time.Millisecond
	}
	var ep string
	if rs := rndByKey[cfg.Svc]; rs != nil {
		if srv.cfg.Base != "" {
			ep = srv.cfg.ep(cfg.Svc)
		}
		c.svc, c.rpc = rs.client(url, ep, c.http)
	}
	if srv.cfg.Base != "" {
		ep = srv.cfg.ep(cfg.Svc)
		switch cfg.Svc {
		case "core":
			x := core.NewCoreGoTSRPCClientWithClient(url, ep, c.http)
			if c.http == nil {
				x = core.NewCoreGoTSRPCClient(url, ep)
			}
			c.svc, c.rpc = reflect.ValueOf(x), x.Client
		case "alpha":
			x := alt.NewAlphaGoTSRPCClient(url, ep)
			if c.http != nil {
				x.Client.SetTransportHttpClient(c.http)
			}
			c.svc, c.rpc = reflect.ValueOf(x), x.Client
		case "beta":
			x := alt.NewBetaGoTSRPCClientWithClient(url, ep, c.http)
			c.svc, c.rpc = reflect.ValueOf(x), x.Client
		case "wire":
			x := wire.NewWireGoTSRPCClientWithClient(url, ep, c.http)
			if c.http == nil {
				x = wire.NewWireGoTSRPCClient(url, ep)
			}
			c.svc, c.rpc = reflect.ValueOf(x), x.Client
		case "shapes":
			x := shapes.NewShapesGoTSRPCClientWithClient(url, ep, c.http)
			c.svc, c.rpc = reflect.ValueOf(x), x.Client
		case "twin":
			x := twin.NewCoreGoTSRPCClientWithClient(url, ep, c.http)
			c.svc, c.rpc = reflect.ValueOf(x), x.Client
		}
	}
	switch pick2(srv.cfg.Base == "", cfg.Svc, "") {
	case "core":
		if c.http == nil {
			x := core.NewDefaultCoreGoTSRPCClient(url)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		} else {
			x := core.NewCoreGoTSRPCClientWithClient(url, "/rpc/core", c.http)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		}
	case "alpha":
		if c.http == nil {
			x := alt.NewDefaultAlphaGoTSRPCClient(url)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		} else {
			x := alt.NewAlphaGoTSRPCClientWithClient(url, "/rpc/alpha", nil)
			x.Client.SetTransportHttpClient(c.http)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		}
	case "beta":
		if c.http == nil {
			x := alt.NewDefaultBetaGoTSRPCClient(url)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		} else {
			x := alt.NewBetaGoTSRPCClientWithClient(url, "/rpc/beta", c.http)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		}
	case "wire":
		if c.http == nil {
			x := wire.NewDefaultWireGoTSRPCClient(url)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		} else {
			x := wire.NewWireGoTSRPCClientWithClient(url, "/rpc/wire", c.http)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		}
	case "shapes":
		if c.http == nil {
			x := shapes.NewDefaultShapesGoTSRPCClient(url)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		} else {
			x := shapes.NewShapesGoTSRPCClientWithClient(url, "/rpc/shapes", c.http)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		}
	case "twin":
		if c.http == nil {
			x := twin.NewDefaultCoreGoTSRPCClient(url)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		} else {
			x := twin.NewCoreGoTSRPCClientWithClient(url, "/rpc/twin", c.http)
			c.svc, c.rpc, ep = reflect.ValueOf(x), x.Client, x.EndPoint
		}
	}
	_ = ep
	if c.http == nil && i%2 == 1 {
		// the client itself can be replaced
		c.rpc = gotsrpc.NewClient()
		c.svc.Elem().FieldByName("Client").Set(reflect.ValueOf(c.rpc))
	}
	if cfg.Encoding != 0 {
		c.rpc.SetClientEncoding(gotsrpc.ClientEncoding(cfg.Encoding))
	}
	if cfg.Headers >= 0 && cfg.Headers < len(w.headers) {
		c.rpc.SetDefaultHeaders(w.headers[cfg.Headers])
	}
	return c
}

// prepare derives the call's arguments and the service's answer from the op.
func (w *world) prepare(op *Op) *opRec {
	o := w.prepareOp(op)
	o.hb.Lock()
	o.hb.Unlock()
	return o
}

func (w *world) prepareOp(op *Op) *opRec {
	r := newRng(op.Seed, hashStr(op.ID))
	o := &opRec{op: op, cancelAt: -1}
	if op.Kind == "raw" {
		o.raw = prepareRaw(w, op, r, o)
		return o
	}
	c := w.clients[op.Client]
	o.cl = c
	o.enc = c.cfg.Encoding
	if op.Kind == "skew" || strings.HasPrefix(op.Kind, "set") {
		return o
	}
	in, out := methodIO(c.cfg.Svc, op.Method)
	for i, t := range in {
		var v reflect.Value
		switch {
		case i == 0 && t.Kind() == reflect.String && hasID(c.cfg.Svc, op.Method):
			v = reflect.ValueOf(op.ID)
		case op.Method == "Control" && i == 1:
			v = reflect.ValueOf(op.Status)
		case op.Method == "Control" && i == 2:
			v = reflect.ValueOf(fmt.Sprintf("body of %s %x", op.ID, r.u64()&0xfff))
			if op.Ctl == "bare" {
				v = reflect.ValueOf("")
			}
		default:
			v = genValue(r, t, op.Size)
		}
		o.args = append(o.args, v.Interface())
	}
	if op.BulkIn > 0 && len(o.args) > 1 && op.Ctl != "bare" {
		padFirst(o.args[1:], op.BulkIn, op.ID)
	}
	for i, t := range out {
		if t == typErr {
			e, ref := makeErr(op.Mode, r)
			o.svcErr, o.svcRef = e, ref
			if e == nil {
				o.rets = append(o.rets, nil)
			} else {
				o.rets = append(o.rets, e)
			}
			continue
		}
		if typedErrs[t] {
			o.rets = append(o.rets, typedErr(op.Mode, t, r))
			continue
		}
		_ = i
		o.rets = append(o.rets, genValue(r, t, op.Size).Interface())
	}
	if op.Mode == "zerotime" {
		o.args[2], o.rets[1] = &time.Time{}, &time.Time{}
	}
	if op.BulkOut > 0 {
		padFirst(o.rets, op.BulkOut, op.ID)
	}
	return o
}

// padFirst makes the first string found in vals n bytes longer.
func padFirst(vals []any, n int, id string) {
	for i, x := range vals {
		if x == nil {
			continue
		}
		if _, ok := x.(error); ok {
			continue
		}
		v := reflect.New(reflect.TypeOf(x)).Elem()
		v.Set(reflect.ValueOf(x))
		if pad(v, n, id) {
			vals[i] = v.Interface()
			return
		}
	}
}

func pad(v reflect.Value, n int, id string) bool {
	switch v.Kind() {
	case reflect.String:
		var b strings.Builder
		b.Grow(n + 64)
		b.WriteString(v.String())
		for k := 0; b.Len() < n; k++ {
			fmt.Fprintf(&b, "|%s %d %x", id, k, mix64(uint64(k)))
		}
		v.SetString(b.String())
		return true
	case reflect.Ptr:
		return !v.IsNil() && pad(v.Elem(), n, id)
	case reflect.Slice:
		return v.Len() > 0 && pad(v.Index(0), n, id)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && !f.Anonymous && pad(v.Field(i), n, id) {
				return true
			}
		}
	}
	return false
}

func hasID(svc, method string) bool {
	switch method {
	case "Nop", "Pulse", "Whoami", "Ping", "Census":
		return false
	}
	return true
}

func (w *world) runOp(o *opRec) {
	op := o.op
	if op.Wait > 0 {
		time.Sleep(time.Duration(op.Wait) * time.Millisecond)
	}
	if o.raw != nil {
		w.runRaw(o)
		return
	}
	c := o.cl
	if c.cfg.Switch {
		c.start <- struct{}{}
	}
	if strings.HasPrefix(op.Kind, "set") {
		if op.Kind == "setenc" {
			c.enc = op.Size
			c.rpc.SetClientEncoding(gotsrpc.ClientEncoding(op.Size))
		} else if op.Size < len(w.headers) {
			c.hdr = op.Size
			c.rpc.SetDefaultHeaders(w.headers[op.Size])
		}
		o.started, o.done = true, true
		if c.cfg.Switch {
			<-c.start
		}
		return
	}
	o.enc, o.hdr = c.enc, c.hdr
	ctx := context.Background()
	if c.cfg.Switch {
		// the user of the client switches it between, not in the middle of, the
		// starts of calls: a call has started when its request is handed over
		var once sync.Once
		release := func() { once.Do(func() { <-c.start }) }
		defer release()
		ctx = context.WithValue(ctx, startKey{}, release)
	}
	var cancels []context.CancelFunc
	at := w.now()
	if op.Timeout > 0 {
		cx, cancel := context.WithTimeout(ctx, time.Duration(op.Timeout)*time.Millisecond)
		ctx = cx
		cancels = append(cancels, cancel)
		o.cancelAt = at + time.Duration(op.Timeout)*time.Millisecond
		o.wantCtx = context.DeadlineExceeded
	}
	if op.Cancel > 0 || op.Cancel < 0 {
		cx, cancel := context.WithCancel(ctx)
		ctx = cx
		cancels = append(cancels, cancel)
		d := time.Duration(op.Cancel) * time.Millisecond
		if d < 0 {
			d = 0
			cancel() // cancelled before the call
		} else {
			t := time.AfterFunc(d, cancel)
			defer t.Stop()
		}
		if o.cancelAt < 0 || at+d < o.cancelAt {
			o.cancelAt = at + d
			o.wantCtx = context.Canceled
		}
	}
	if op.Kind == "skew" {
		w.mu.Lock()
		o.started = true
		o.start = time.Since(w.t0)
		w.mu.Unlock()
		w.event("skew", op.ID)
		w.runSkew(o, ctx)
		w.mu.Lock()
		o.end = time.Since(w.t0)
		o.done = true
		w.mu.Unlock()
		w.event("skew-end", fmt.Sprint(op.ID, o.err != nil))
		for _, cancel := range cancels {
			cancel()
		}
		return
	}
	in := []reflect.Value{}
	if c.g == nil {
		in = append(in, reflect.ValueOf(ctx))
	}
	ins, outs := methodIO(c.cfg.Svc, op.Method)
	snap := copyAny(o.args)
	for i, a := range o.args {
		v := reflect.New(ins[i]).Elem()
		if a != nil {
			v.Set(reflect.ValueOf(a))
		}
		in = append(in, v)
	}
	w.mu.Lock()
	o.started = true
	o.start = time.Since(w.t0)
	w.mu.Unlock()
	w.event("call", op.ID)
	var res []reflect.Value
	func() {
		defer func() {
			if e := recover(); e != nil {
				o.panicked = e
			}
		}()
		res = c.svc.MethodByName(op.Method).Call(in)
	}()
	w.mu.Lock()
	o.end = time.Since(w.t0)
	o.done = true
	w.mu.Unlock()
	if o.panicked != nil {
		w.event("client-panic", op.ID)
		return
	}
	for i := range outs {
		o.got = append(o.got, res[i].Interface())
	}
	if e := res[len(res)-1]; !e.IsNil() {
		o.err = e.Interface().(error)
	}
	for _, cancel := range cancels {
		cancel()
	}
	if ok, where := equivAny(snap, o.args, false); !ok {
		w.violate("C01", "call %s %s: the caller's arguments were changed by the call at %s", op.ID, op.Method, where)
	}
	if o.err != nil {
		w.event("fail", op.ID)
	} else {
		w.event("ok", op.ID)
	}
}

func (w *world) violate(prop, f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.plan.Prop == "C20" && (prop == "C01" || prop == "C13") {
		prop = "C20" // no faults here: the generated code does not do what the definition says
	}
	if len(w.viol) < 50 {
		w.viol = append(w.viol, violation{prop, fmt.Sprintf(f, a...), f})
	}
}

// ---------------------------------------------------------------------------

type runResult struct {
	Viol       []violation
	Hash       uint64
	SchedHash  uint64
	SimTime    time.Duration
	Hits       map[string]int
	Stats      runtime.SimStats
	Ops        int
	Execs      int
	Reqs       int
	OK         int
	Methods    map[string]int
	Events     []event
	Counts     map[string]int
	Poisoned   bool
	Panic      string
	Known      map[string]int
	Nontrivial bool
}

type leakSnap struct{ conns int }

func (w *world) main() {
	pl := w.plan
	w.t0 = time.Now()
	w.net = newSimNet(w, pl.Sched.Rand, pl.Link, pl.Conn, pl.Parts)
	net.SimDial = w.net.Dial
	net.SimListen = func(network, address string) (net.Listener, error) { return w.net.Listen(address) }
	gotsrpc.Monitor = w.monitor
	w.reg = p.NewRegistry()
	p.DefaultRegisterer = w.reg
	for _, h := range pl.Headers {
		m := http.Header{}
		for i := 0; i+1 < len(h); i += 2 {
			m.Add(h[i], h[i+1])
		}
		w.headers = append(w.headers, m)
		w.hdrSnap = append(w.hdrSnap, m.Clone())
	}
	alt.H.Get = func(id, key string) (alt.Row, error) {
		o := w.curServer().exec(nil, nil, "beta", "Get", id, id, key)
		return as[alt.Row](o[0]), as[error](o[1])
	}
	alt.H.Put = func(id string, row alt.Row, tags []string) int64 {
		return as[int64](w.curServer().exec(nil, nil, "beta", "Put", id, id, row, tags)[0])
	}
	alt.H.Sess = func(rw http.ResponseWriter, r *http.Request, id string, row *alt.Row) (*alt.Row, error) {
		o := w.curServer().exec(rw, r, "beta", "Sess", id, id, row)
		return as[*alt.Row](o[0]), as[error](o[1])
	}
	alt.H.Ping = func() string { return as[string](w.curServer().exec(nil, nil, "beta", "Ping", "")[0]) }
	var grpcProm gotsrpc.GoRPCCallStatsHandlerFun
	for i, sc := range pl.Servers {
		s := &server{w: w, i: i, cfg: sc}
		if sc.Instrument == "prom" && strings.HasPrefix(sc.Kind, "gorpc") {
			if grpcProm == nil {
				grpcProm = simprom.InstrumentGoRPCService()
			}
			s.grpcHandler = grpcProm
		}
		w.servers = append(w.servers, s)
		if err := s.startUp(); err != nil {
			panic(err)
		}
	}
	synctest.Wait()
	baseline := runtime.SimBubble()
	_ = baseline
	shared := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4, IdleConnTimeout: 90 * time.Second}}
	for i, cc := range pl.Clients {
		w.clients = append(w.clients, w.newClient(i, cc, shared))
	}
	// everything a call will need is derived before anything runs
	var tasks [][]*opRec
	for ti := range pl.Tasks {
		var l []*opRec
		for oi := range pl.Tasks[ti].Ops {
			op := &pl.Tasks[ti].Ops[oi]
			o := w.prepare(op)
			w.ops.set(op.ID, o)
			w.opList = append(w.opList, o)
			l = append(l, o)
		}
		tasks = append(tasks, l)
	}
	var tw sync.WaitGroup
	w.phase = "load"
	for ti := range tasks {
		tw.Add(1)
		go func() {
			defer tw.Done()
			if d := pl.Tasks[ti].Start; d > 0 {
				time.Sleep(time.Duration(d) * time.Millisecond)
			}
			for _, o := range tasks[ti] {
				w.runOp(o)
			}
		}()
	}
	for i := range pl.Crash {
		cr := pl.Crash[i]
		tw.Add(1)
		go func() {
			defer tw.Done()
			time.Sleep(time.Duration(cr.At) * time.Millisecond)
			s := w.servers[cr.Server]
			if !s.up {
				return
			}
			s.stop(!cr.Soft)
			time.Sleep(time.Duration(cr.Down) * time.Millisecond)
			if !s.up {
				if err := s.startUp(); err != nil {
					w.violate("sim", "restart: %v", err)
				}
			}
		}()
	}
	tw.Wait()
	// faults are over: heal and probe
	if d := time.Duration(pl.HealAt)*time.Millisecond - w.now(); d > 0 {
		time.Sleep(d)
	}
	w.net.healed = true
	w.net.parts = nil
	w.healAt = w.now()
	for _, s := range w.servers {
		if !s.up {
			s.startUp()
		}
	}
	w.event("heal", "")
	time.Sleep(200 * time.Second) // anything half-dead times out
	w.phase = "probe"
	if pl.Probes > 0 {
		w.probe()
	}
	w.phase = "end"
	// connections and goroutines must come home once the clients are idle
	if tr, ok := shared.Transport.(*http.Transport); ok {
		tr.CloseIdleConnections()
	}
	for _, c := range w.clients {
		if c.http != nil {
			c.http.CloseIdleConnections()
		}
		if c.g != nil {
			c.g.Stop()
		}
	}
	time.Sleep(300 * time.Second)
	synctest.Wait()
	w.fams, w.famErr = w.reg.Gather() // on simulated time: the summaries age
	w.openEnd = w.net.openClientConns()
	if w.openEnd > 0 {
		var d []string
		for _, pr := range w.net.conns {
			if !pr.c.isClosed() {
				d = append(d, fmt.Sprintf("conn %d to %s", pr.n, pr.addr))
			}
		}
		w.openDetail = strings.Join(d, ", ")
	}
	for _, s := range w.servers {
		s.stop(false)
	}
	w.wg.Wait()
	time.Sleep(400 * time.Second)
	synctest.Wait()
	w.goroutinesEnd = runtime.SimBubble() - 2 // root and this one
	if w.goroutinesEnd > 0 {
		w.goroutineDump = stacks()
	}
}

func (w *world) curServer() *server {
	w.mu.Lock()
	defer w.mu.Unlock()
	if rec := w.cur.get(runtime.SimGoid()); rec != nil {
		return rec.srv
	}
	return w.servers[0]
}

// probe makes fault-free calls through every client, one after another.
func (w *world) probe() {
	for ci, c := range w.clients {
		// nobody is in a hurry any more
		if c.http != nil {
			c.http.Timeout = 0
		}
		if c.g != nil {
			c.g.RequestTimeout = 20 * time.Second
		}
		for k := 0; k < w.plan.Probes; k++ {
			m := probeMethod[c.cfg.Svc]
			op := &Op{ID: fmt.Sprintf("probe-%d-%d", ci, k), Kind: "call", Client: ci, Method: m, Seed: w.plan.Seed + uint64(ci*100+k), Size: 1}
			o := w.prepare(op)
			o.probe = true
			w.mu.Lock()
			w.ops.set(op.ID, o)
			w.opList = append(w.opList, o)
			w.mu.Unlock()
			w.runOp(o)
			time.Sleep(2 * time.Second)
		}
	}
}

var probeMethod = map[string]string{"core": "Swap", "alpha": "Put", "beta": "Put", "wire": "Pair", "shapes": "Two", "twin": "Swap", "grpc": "Pair", "grpc2": "Pair"}

func stacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range bytes.Split(buf[:n], []byte("\n\n")) {
		if i := bytes.IndexByte(g, '\n'); i > 0 && bytes.Contains(g[:i], []byte("synctest bubble")) && !bytes.Contains(g, []byte("main.stacks")) && !bytes.Contains(g[:i], []byte("synctest.Run")) {
			out = append(out, string(g))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n\n")
}

// runPlan executes one plan and judges it.
func runPlan(pl *Plan) (res runResult) {
	w := &world{plan: pl, known: map[string]int{}, hash: 14695981039346656037}
	sc := pl.Sched
	runtime.SimStart(&runtime.SimConfig{SchedSeed: sc.Seed, RandSeed: sc.Rand, Policy: sc.Policy, YieldP: sc.YieldP, Explicit: sc.Explicit, Choices: sc.Choices, Horizon: 20000})
	func() {
		defer func() {
			if e := recover(); e != nil {
				res.Poisoned = true
				res.Panic = fmt.Sprint(e)
				if err, ok := e.(error); ok && strings.Contains(err.Error(), "deadlock") {
					res.Panic = "deadlock: " + err.Error()
				}
			}
		}()
		synctest.Run(w.main)
	}()
	res.Stats = runtime.SimStop()
	net.SimDial, net.SimListen = nil, nil
	if n := len(w.events); n > 0 {
		res.SimTime = w.events[n-1].at
	}
	if res.Panic != "" && strings.HasPrefix(res.Panic, "deadlock") {
		w.onDeadlock(res.Panic)
	} else if res.Panic != "" {
		w.violate("sim", "panic in the harness: %s", res.Panic)
	}
	w.judge()
	reportLost(w)
	if raceBuild {
		raceReports(w)
	}
	res.Viol = w.viol
	res.Hash = w.hash
	res.SchedHash = res.Stats.Hash
	res.Methods = map[string]int{}
	res.Ops, res.Execs, res.Reqs = len(w.opList), len(w.execs), len(w.reqs)
	for _, o := range w.opList {
		if o.done && o.err == nil {
			res.OK++
			if o.op.Kind == "call" {
				res.Methods[w.plan.Clients[o.op.Client].Svc+"."+o.op.Method]++
			}
		}
	}
	if w.net != nil {
		res.Hits = w.net.hits.plain()
		if w.crashes > 0 {
			res.Hits["server-crash"] += w.crashes
		}
	}
	res.Events = w.events
	res.Counts = w.counts.plain()
	res.Known = w.known
	res.Nontrivial = len(w.execs) > 0 && res.Stats.Multi > 0
	return
}
