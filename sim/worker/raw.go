package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/foomo/gotsrpc/v2"

	"gotsrpcsim/svc/wire"
)

// Raw exchanges: requests no generated Go client would send, the way browsers,
// probes, old clients and broken proxies do.

const (
	ctMsgpack = "application/msgpack; charset=utf-8"
	ctJSON    = "application/json; charset=utf-8"
)

type rawRec struct {
	variant  string
	svc      string
	path     string
	method   string
	ct       string
	body     []byte
	clen     int // announced
	wantCode int // 0: no claim
	mayExec  bool
	lenient  bool // may run with other arguments
	chunked  bool
	accept   string
	expect   bool
	out      []reflect.Type
	svcMeth  string

	status int
	hdr    http.Header
	reply  []byte
	err    error
	conn   *simConn
}

var rawVariants = []string{"json-ok", "json-ok", "mp-ok", "json-err", "method", "unknown", "unknown", "trunc", "trunc-mp", "badjson", "fewer", "more", "object", "mismatch", "cutbody", "noise", "options"}

var httpSvcs = []string{"core", "alpha", "beta", "wire", "shapes", "twin"}

// ep is the endpoint of a service on this server.
func (c ServerCfg) ep(svc string) string {
	if c.Base == "" {
		return "/rpc/" + svc
	}
	return strings.TrimSuffix(c.Base, "/") + "/" + svc
}

func prepareRaw(w *world, op *Op, r *rng, o *opRec) *rawRec {
	rr := &rawRec{variant: op.Mode, method: "POST", svc: "core"}
	if r.p(30) {
		rr.svc = r.pick("alpha", "beta", "wire", "shapes", "shapes", "twin")
		if len(rndHTTP) > 0 && r.p(55) {
			rr.svc = r.pick(rndHTTP...)
		}
	}
	meth := map[string][]string{
		"core":  {"Echo", "EchoPtr", "Swap", "Sum", "Lists", "Maps", "Named", "Cross", "At", "OneWay", "Session"},
		"alpha": {"Put"}, "beta": {"Put"}, "wire": {"Pair", "Bulk", "Echo", "Deep", "Times", "Bytes", "Sess"}, "shapes": {"Nest", "Keys", "Bytes", "Ptrs", "Narrow", "Named", "Two", "Offer", "Offer", "Shape", "ShapePtr", "Many", "Any", "Times", "Rare", "Rare", "Names", "Combo"}, "twin": {"Swap", "Echo", "Session"},
	}[rr.svc]
	if rs := rndByKey[rr.svc]; rs != nil {
		meth = nil
		for _, m := range withID(rs.calls) {
			if !hasUnion(rr.svc, m, true) {
				meth = append(meth, m)
			}
		}
	}
	rr.svcMeth = meth[r.n(len(meth))]
	if op.Method != "" {
		rr.svc, rr.svcMeth = "core", op.Method
	}
	if rr.variant == "ts" {
		var l []string
		for _, m := range callMethods[rr.svc] {
			if hasID(rr.svc, m) && m != "Choose" && !hasUnion(rr.svc, m, true) && indexOf(errMethods[rr.svc], m) < 0 {
				l = append(l, m)
			}
		}
		rr.svcMeth = l[r.n(len(l))]
	}
	srv := w.httpServer(op.Client)
	if rr.variant == "json-err" || rr.variant == "ts-err" {
		rr.svc = r.pick("core", "core", "alpha", "beta", "shapes", "twin")
		if rs := rndByKey[r.pick(append([]string{""}, rndHTTP...)...)]; rs != nil && len(rs.errs) > 0 && r.p(40) {
			rr.svc = rs.key
		}
		rr.svcMeth = errMethods[rr.svc][r.n(len(errMethods[rr.svc]))]
	}
	in, out := methodIO(rr.svc, rr.svcMeth)
	rr.out = out
	for i, t := range in {
		if i == 0 {
			o.args = append(o.args, op.ID)
		} else {
			o.args = append(o.args, genValue(r, t, min(op.Size, 4)).Interface())
		}
	}
	for _, t := range out {
		switch mode := errModes[r.n(len(errModes))]; {
		case t == typErr && r.p(80):
			o.svcErr, o.svcRef = makeErr(mode, r)
			o.rets = append(o.rets, o.svcErr)
		case t == typErr:
			o.rets = append(o.rets, nil)
		case typedErrs[t]:
			o.rets = append(o.rets, typedErr(mode, t, r))
		default:
			o.rets = append(o.rets, genValue(r, t, min(op.Size, 4)).Interface())
		}
	}
	rr.path = srv.cfg.ep(rr.svc) + "/" + rr.svcMeth
	var want []any
	for _, a := range o.args {
		want = append(want, jsonWant(reflect.ValueOf(a)))
	}
	js, err := json.Marshal(want)
	if err != nil {
		panic(err)
	}
	var mp []byte
	gotsrpc.NewMSGPackEncoderBytes(&mp).MustEncode(o.args)
	rr.body, rr.ct = js, ctJSON
	if r.p(60) {
		rr.accept = r.pick("*/*", "application/json, text/plain, */*", "application/json", ctJSON, ctMsgpack, ctMsgpack, "application/msgpack", "text/html,application/xhtml+xml;q=0.9,*/*;q=0.8")
	}
	switch op.Mode {
	case "json-ok":
		rr.ct = r.pick(ctJSON, "application/json", "", "text/plain;charset=UTF-8", "application/json;charset=utf-8", fmt.Sprintf("application/json; v=%x", r.u64()&0xffff))
		if r.p(20) {
			rr.body = append([]byte(" \n\t"), rr.body...)
		}
		if r.p(15) {
			rr.path += r.pick("?", "?x=1", "?method=Nop&a[]=/rpc/core/Nop", "?"+rr.svcMeth)
		}
		rr.chunked = r.p(20)
		rr.expect = r.p(10)
		rr.wantCode, rr.mayExec = 200, true
	case "json-err":
		rr.wantCode, rr.mayExec = 200, true
	case "ts", "ts-err":
		rr.ct = r.pick(ctJSON, "application/json", "application/json;charset=utf-8", fmt.Sprintf("application/json; v=%x", r.u64()&0xffff))
		rr.wantCode, rr.mayExec = 200, true
		c, m := tsTab.method(rr.svc, rr.svcMeth)
		if m == nil {
			break // the table's own check reports it
		}
		ep := srv.cfg.ep(rr.svc)
		if srv.cfg.Base == "" && c.Endpoint != nil {
			ep = *c.Endpoint
		}
		rr.path = ep + "/" + m.Calls[0].Method
		var err error
		if rr.body, err = json.Marshal(tsTab.tsArgs(m, want)); err != nil {
			panic(err)
		}
		w.judgeTSArgs(o, m, in)
	case "mp-ok":
		rr.body, rr.ct = mp, ctMsgpack
		rr.chunked = r.p(20)
		rr.wantCode, rr.mayExec = 200, true
	case "method":
		rr.method = r.pick("GET", "PUT", "DELETE", "HEAD", "PATCH", "TRACE", "QUERY")
		if rr.method == "GET" || rr.method == "HEAD" || rr.method == "TRACE" {
			rr.body = nil
		}
		rr.wantCode = 405
	case "options":
		rr.method = "OPTIONS"
		rr.body = nil
		rr.wantCode = 200
	case "unknown":
		m := rr.svcMeth
		ep := srv.cfg.ep(rr.svc)
		other := srv.cfg.ep(httpSvcs[(r.n(3)+1+indexOf(httpSvcs, rr.svc))%4])
		rr.path = []string{
			ep + "/Nope", ep + "/" + m + "x", ep + "/" + m[:len(m)-1], ep + "/" + strings.ToLower(m), ep + "/" + m + "/",
			ep + "/" + m + "/" + m, ep + "/x/" + m, ep + "/", ep + "/" + strings.ToUpper(m), ep + "/%20" + m, ep + "/Get" + m,
			ep + "/Error", ep + "/ServeHTTP", ep + "/" + m + "%00", ep + "/" + m + ",", ep + "/service",
			ep + m, "/" + m, "/x" + ep + "/" + m, other + ep + "/" + m, ep + ep + "/" + m, ep + "x/" + m, ep + "./" + m, ep + "-/" + m, "/" + rr.svc + "/" + m + "/x",
			ep + "//" + m, ep + "/../" + rr.svc + "x/" + m, ep + "/./" + m, "//" + strings.TrimPrefix(ep, "/") + "/" + m, // cleaned by a mux
		}[r.n(29)]
		if x, ok := strings.CutPrefix(rr.path, ep+"/"); ok && hasMethod(rr.svc, x) {
			rr.path = ep + "/Nope"
		}
		if op.Size > 20 { // a body larger than what the server drains by itself
			rr.body = bytes.Repeat([]byte("x"), op.Size*1024)
		}
		rr.wantCode = 404
		if srv.cfg.Mount == "" && (strings.Contains(rr.path, "//") || strings.Contains(rr.path, "/.") || !under(srv.cfg, rr.path)) {
			rr.wantCode = 0 // a mux may redirect, and it answers without reading the body
		}
	case "trunc":
		rr.body = js[:1+r.n(len(js)-1)]
		rr.wantCode = 400
	case "trunc-mp":
		rr.body, rr.ct = mp[:1+r.n(len(mp)-1)], ctMsgpack
		rr.wantCode = 400
	case "badjson":
		rr.body = []byte([]string{
			`["` + op.ID + `", ["not", "a", "value"`, `[}`, `"` + op.ID + `"x`, `["` + op.ID + `" "b"]`, "\x00\x01\x02", `{"a":`, `[[[[[[`, "\xff\xfe",
			`[` + strings.Repeat("[", 100),
		}[r.n(9)])
		rr.wantCode = 400
	case "fewer", "more", "object": // decodes, but not as the list of arguments the method has
		list := want
		if op.Mode == "fewer" {
			n := 1 + r.n(len(list))
			list = list[:n]
			for i := n; i < len(o.args); i++ {
				o.args[i] = reflect.Zero(in[i]).Interface()
			}
		} else {
			for i := r.between(1, 4); i > 0; i-- {
				list = append(list, jsonWant(reflect.ValueOf(genAny(r, 2))))
			}
		}
		rr.body, _ = json.Marshal(list)
		if op.Mode == "object" {
			rr.body = []byte(fmt.Sprintf("{%q:%q}", op.ID, op.ID))
			rr.lenient = true
		}
		rr.mayExec = true
	case "mismatch": // JSON announced as msgpack
		rr.ct = ctMsgpack
		rr.wantCode = 400
	case "cutbody": // the body never arrives completely
		rr.clen = len(rr.body) + 1 + r.n(50)
		if r.p(70) {
			rr.clen = len(rr.body)
			rr.body = rr.body[:r.n(len(rr.body))]
		}
		rr.mayExec = false
		if rr.clen > len(js) {
			rr.mayExec = true // the arguments themselves are complete
		}
	case "noise": // no JSON value, not even an empty one
		n := 1 + r.n(80)
		rr.body = make([]byte, n)
		for i := range rr.body {
			rr.body[i] = byte(r.u64())
		}
		rr.body[0] = r.pick("{", "}", "x", "<")[0]
		if n > 1 {
			rr.body[1] = r.pick("{", "x", "<")[0]
		}
		if rr.body[0] == '{' {
			rr.body[len(rr.body)-1] = '{'
		}
		rr.wantCode = 400
	}
	if rr.clen == 0 {
		rr.clen = len(rr.body)
	}
	return rr
}

func withID(l []string) (out []string) {
	for _, m := range l {
		if hasID("", m) {
			out = append(out, m)
		}
	}
	return
}

func hasMethod(svc, name string) bool {
	for _, m := range append(append([]string{}, callMethods[svc]...), errMethods[svc]...) {
		if m == name {
			return true
		}
	}
	return false
}

func under(c ServerCfg, path string) bool {
	for _, s := range httpSvcs {
		if strings.HasPrefix(path, c.ep(s)+"/") {
			return true
		}
	}
	return false
}

func indexOf(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}

func (w *world) runRaw(o *opRec) {
	rr := o.raw
	w.mu.Lock()
	o.started = true
	o.start = time.Since(w.t0)
	w.mu.Unlock()
	w.event("raw", o.op.ID+" "+rr.variant)
	defer func() {
		w.mu.Lock()
		o.end = time.Since(w.t0)
		o.done = true
		w.mu.Unlock()
		o.err = rr.err
		w.event("raw-end", fmt.Sprint(o.op.ID, " ", rr.status))
	}()
	srv := w.httpServer(o.op.Client)
	if srv == nil {
		rr.err = errors.New("no server")
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	c, err := (&net.Dialer{}).DialContext(ctx, "tcp", srv.cfg.Addr)
	if err != nil {
		rr.err = err
		return
	}
	defer c.Close()
	if sc, ok := c.(*simConn); ok {
		rr.conn = sc
	}
	c.SetDeadline(time.Now().Add(40 * time.Second))
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nX-Sim-Raw: %s\r\nConnection: close\r\n", rr.method, rr.path, srv.cfg.Addr, o.op.ID)
	if rr.ct != "" {
		fmt.Fprintf(&b, "Content-Type: %s\r\n", rr.ct)
	}
	if rr.accept != "" {
		fmt.Fprintf(&b, "Accept: %s\r\n", rr.accept)
	}
	if rr.expect {
		b.WriteString("Expect: 100-continue\r\n")
	}
	if rr.chunked {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for rest := rr.body; len(rest) > 0; {
			k := min(len(rest), 1+o.op.Cut)
			fmt.Fprintf(&b, "%x\r\n%s\r\n", k, rest[:k])
			rest = rest[k:]
		}
		b.WriteString("0\r\n\r\n")
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", rr.clen)
		b.Write(rr.body)
	}
	wrote := make(chan struct{})
	go func() {
		defer close(wrote)
		buf := b.Bytes()
		if rr.variant == "cutbody" {
			c.Write(buf)
			c.(*simConn).CloseWrite()
			return
		}
		// in two parts now and then
		if k := o.op.Cut; k > 0 && k < len(buf) {
			c.Write(buf[:k])
			time.Sleep(5 * time.Millisecond)
			buf = buf[k:]
		}
		c.Write(buf)
	}()
	br := bufio.NewReader(c)
	resp, err := http.ReadResponse(br, &http.Request{Method: rr.method})
	for err == nil && resp.StatusCode == http.StatusContinue {
		resp, err = http.ReadResponse(br, &http.Request{Method: rr.method})
	}
	if err != nil {
		rr.err = err
		c.Close()
		<-wrote
		return
	}
	rr.status, rr.hdr = resp.StatusCode, resp.Header
	rr.reply, rr.err = io.ReadAll(resp.Body)
	if rr.variant != "unknown" {
		c.Close()
	}
	<-wrote
}

func (w *world) httpServer(i int) *server {
	var l []*server
	for _, s := range w.servers {
		if s.cfg.Kind == "http" {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[i%len(l)]
}

// skew ops: a gotsrpc client whose idea of the service is not the server's.
var skewVariants = []string{"nomethod", "lowercase", "badargs", "noargs", "bignomethod", "wrongendpoint", "nullargs"}

func (w *world) runSkew(o *opRec, ctx context.Context) {
	op := o.op
	c := o.cl
	r := newRng(op.Seed, 99)
	if op.Mode == "otherservice" {
		w.runOtherService(o)
		return
	}
	ep, meth := w.servers[c.cfg.Server].cfg.ep(c.cfg.Svc), "Echo"
	args := []interface{}{op.ID, "payload"}
	switch op.Mode {
	case "nomethod":
		meth = r.pick("Vanished", "Echo2", "echo", "Ech")
	case "lowercase":
		meth = "swap"
	case "bignomethod":
		meth = "Vanished"
		args = append(args, strings.Repeat("big payload ", 1000*(1+r.n(100))))
		padFirst(args[2:], op.BulkIn, op.ID)
	case "badargs":
		if meth = map[string]string{"core": "Lists", "alpha": "Put", "beta": "Put", "wire": "Bulk", "shapes": "Nest", "twin": "Echo"}[c.cfg.Svc]; meth == "" {
			meth = "Bulk"
		}
		args = []interface{}{op.ID, "not a list"}
		if meth == "Put" {
			args = []interface{}{op.ID, "not a row"}
		}
	case "noargs":
		meth = probeMethod[c.cfg.Svc]
		args = nil
	case "nullargs":
		meth = "Vanished"
		args = []interface{}{nil}
	case "wrongendpoint":
		ep = "/rpc/nowhere" + strings.Repeat("/deep", r.n(2))
	}
	o.raw = &rawRec{variant: "skew-" + op.Mode, wantCode: 404, path: ep + "/" + meth}
	if op.Mode == "badargs" || op.Mode == "noargs" {
		o.raw.wantCode = 400
	}
	var out string
	srv := w.servers[c.cfg.Server]
	url := "http://" + strings.TrimSuffix(srv.cfg.Addr, ":80")
	o.err = c.rpc.Call(ctx, url, ep, meth, args, []interface{}{&out})
	if out != "" {
		w.violate("C04", "%s: a %s call left %q in the caller's reply", op.ID, op.Mode, clip(out))
	}
}

// runOtherService calls a service which the GoRPC server does not have.
func (w *world) runOtherService(o *opRec) {
	o.raw = &rawRec{variant: "skew-" + o.op.Mode}
	g := wire.NewWire2GoRPCClient(w.servers[o.cl.cfg.Server].cfg.Addr, nil)
	g.Client.LogError = func(f string, a ...interface{}) { w.count("gorpc-client-log") }
	g.Client.RequestTimeout = 3 * time.Second
	g.Start()
	defer g.Stop()
	defer func() { o.panicked = recover() }()
	switch o.op.Method {
	case "Note":
		o.err = g.Note(o.op.ID, 1)
	default:
		_, _, o.err = g.Pair(o.op.ID, "a", "b")
	}
}
