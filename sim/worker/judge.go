package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/foomo/gotsrpc/v2"
)

const tol = 20 * time.Millisecond

var svcPackage = map[string]string{"core": "gotsrpcsim/svc/core", "alpha": "gotsrpcsim/svc/alt", "beta": "gotsrpcsim/svc/alt", "wire": "gotsrpcsim/svc/wire", "wire2": "gotsrpcsim/svc/wire", "shapes": "gotsrpcsim/svc/shapes", "twin": "gotsrpcsim/svc/twin/core"}
var svcTitle = map[string]string{"core": "Core", "alpha": "Alpha", "beta": "Beta", "wire": "Wire", "wire2": "Wire2", "shapes": "Shapes", "twin": "Core"}

// overRPC tells whether the service of a method is served over GoRPC, too.
func overRPC(k string) bool {
	svc, _, _ := strings.Cut(k, ".")
	return rndByKey["grpc-"+svc] != nil
}

func isGrpc(c *client) bool { return c.g != nil }

// faulty says whether the environment misbehaves at all in this plan.
func (w *world) faulty() bool {
	return len(w.plan.Conn)+len(w.plan.Parts)+len(w.plan.Crash) > 0
}

func (o *opRec) statusCtl() bool {
	return o.op.Method == "Control" && o.op.Status != 0 && o.op.Status != 200
}

func (o *opRec) ctxBound() bool { return o.cancelAt >= 0 }

// lostNilElem: gob cannot carry some values; the generator avoids them.

func (w *world) judge() {
	byID := map[string][]*execRec{}
	byToken := map[string]*execRec{}
	for _, e := range w.execs {
		if e.id != "" {
			byID[e.id] = append(byID[e.id], e)
		}
		if e.token != "" {
			byToken[e.token] = e
		}
	}
	w.judgeExecs(byID)
	used := map[string]string{}
	issued := map[string]int{}
	for _, o := range w.opList {
		if !o.started || strings.HasPrefix(o.op.Kind, "set") {
			continue
		}
		switch {
		case o.raw != nil:
			w.judgeRaw(o, byID[o.op.ID])
		case o.op.Kind == "call":
			if !hasID(o.cl.cfg.Svc, o.op.Method) {
				issued[svcName[o.cl.cfg.Svc]+"."+o.op.Method]++
			}
			w.judgeCall(o, byID[o.op.ID], byToken, used)
		}
	}
	// calls which carry no id are counted
	count := map[string]int{}
	for _, e := range w.execs {
		if e.id == "" {
			count[e.svc+"."+e.method]++
		}
	}
	for k, n := range count {
		if n > issued[k] {
			w.violate(pick2(strings.HasPrefix(k, "wire") || overRPC(k), "C13", "C03"), "%s ran %d times for %d calls", k, n, issued[k])
		}
	}
	if w.phase == "end" {
		w.judgeEnd()
	}
	w.judgeRequests()
	w.judgeHeaders(byID)
	w.judgeGrpcStats()
	w.judgeTS()
	w.judgeProm()
}

func pick2[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func (w *world) judgeExecs(byID map[string][]*execRec) {
	for _, e := range w.execs {
		if e.id == "" {
			continue
		}
		o := w.ops.get(e.id)
		if o == nil {
			w.violate("C01", "service method %s.%s ran with an id nobody sent: %q", e.svc, e.method, clip(e.id))
			continue
		}
		grpc := o.cl != nil && isGrpc(o.cl)
		prop := pick2(grpc, "C13", "C01")
		if o.raw != nil {
			if o.raw.mayExec {
				if e.svc != o.raw.svc || e.method != o.raw.svcMeth {
					w.violate(o.raw.prop("C04"), "%s: asked for %s.%s, ran %s.%s", e.id, o.raw.svc, o.raw.svcMeth, e.svc, e.method)
				} else if ok, at := equivAny(e.args, o.args, true); !ok && !o.raw.lenient {
					w.violate(o.raw.prop("C04"), "%s: raw call %s.%s received other arguments: %s", e.id, e.svc, e.method, at)
					w.violate("C01", "%s: raw call %s.%s received other arguments: %s", e.id, e.svc, e.method, at)
				}
			}
			continue
		}
		if o.op.Kind != "call" {
			continue
		}
		if e.svc != svcName[o.cl.cfg.Svc] || e.method != o.op.Method {
			w.violate(prop, "%s: called %s.%s but %s.%s ran", e.id, svcName[o.cl.cfg.Svc], o.op.Method, e.svc, e.method)
			continue
		}
		if e.srv.i != o.cl.cfg.Server {
			w.violate(prop, "%s: ran on server %d, called server %d", e.id, e.srv.i, o.cl.cfg.Server)
		}
		if ok, at := equivAny(e.args, w.zeroTimes(o, o.args, e.args), grpc); !ok && o.op.Mode == "jsonunion" {
			w.known["a union sent as JSON by a Go client arrives empty"]++
		} else if !ok {
			w.violate(prop, "%s: %s.%s received other arguments than were sent: %s (encoding %d)", e.id, e.svc, e.method, at, o.enc)
		}
		if e.start < o.start {
			w.violate(prop, "%s ran before it was called", e.id)
		}
	}
	for id, l := range byID {
		if len(l) > 1 {
			o := w.ops.get(id)
			if o == nil {
				continue
			}
			prop := "C03"
			if o.cl != nil && isGrpc(o.cl) {
				prop = "C13"
			}
			w.violate(prop, "%s: one call of %s.%s ran %d times (at %v and %v)", id, l[0].svc, l[0].method, len(l), l[0].start, l[1].start)
		}
	}
}

func (w *world) judgeCall(o *opRec, execs []*execRec, byToken map[string]*execRec, used map[string]string) {
	c := o.cl
	grpc := isGrpc(c)
	name := svcName[c.cfg.Svc] + "." + o.op.Method
	corr := pick2(grpc, "C13", "C01")
	nofalse := pick2(grpc, "C13", "C02")
	if o.panicked != nil {
		w.violate(nofalse, "%s: the client panicked in %s: %s", o.op.ID, name, clip(fmt.Sprint(o.panicked)))
		return
	}
	if !o.done {
		return // onDeadlock reports it
	}
	_, outs := methodIO(c.cfg.Svc, o.op.Method)
	ok := o.err == nil
	// a call that came back fine was carried out, by this call's own execution
	if ok {
		var e *execRec
		if hasID(c.cfg.Svc, o.op.Method) {
			if len(execs) > 0 {
				e = execs[len(execs)-1]
				for _, x := range execs {
					if x.done {
						e = x
						break
					}
				}
			}
			switch {
			case e == nil:
				w.violate(nofalse, "%s: %s reported success but was never carried out", o.op.ID, name)
			case !e.done || e.panicked:
				w.violate(nofalse, "%s: %s reported success but the service did not complete", o.op.ID, name)
			case e.end > o.end:
				w.violate(nofalse, "%s: %s reported success at %v before the service completed at %v", o.op.ID, name, o.end, e.end)
			case o.statusCtl():
				w.violate(nofalse, "%s: the service answered with status %d, the client reported success", o.op.ID, o.op.Status)
			}
		} else if len(outs) > 0 {
			tok, _ := o.got[0].(string)
			e = byToken[tok]
			if e == nil || e.svc+"."+e.method != name {
				w.violate(pick2(tok == "", nofalse, corr), "%s: %s returned %q, which no execution of it handed out", o.op.ID, name, clip(tok))
			} else if prev := used[tok]; prev != "" {
				w.violate(corr, "%s: %s returned %q, which %s already got", o.op.ID, name, tok, prev)
			} else {
				used[tok] = o.op.ID
				if e.start < o.start || e.end > o.end {
					w.violate(corr, "%s: %s returned a result made outside the call", o.op.ID, name)
				}
				if ok, at := equivAny(w.zeroTimes(o, e.rets, o.got), o.got, grpc); len(outs) > 1 && !ok {
					w.violate(corr, "%s: %s handed back other values than the service returned: %s (encoding %d)", o.op.ID, name, at, o.enc)
				}
			}
		}
		if e != nil && hasID(c.cfg.Svc, o.op.Method) && !o.statusCtl() {
			w.judgeResult(o, e, outs, name, corr, grpc)
		}
	} else if o.op.Mode == "intmap" && o.svcErr != nil {
		w.known["typed error with a map whose keys are not strings"]++
	} else if o.op.Mode == "jsonunion" {
		w.known["a JSON call of a Go client with a union fails"]++
	} else if !w.faulty() && !o.ctxBound() && o.op.Mode != "panic" && !o.statusCtl() &&
		!(o.svcErr != nil && o.enc == int(gotsrpc.EncodingJson)) && !w.overload(o) {
		w.violate(pick2(o.svcErr != nil, "C05", corr), "%s: %s failed although nothing was wrong: %v", o.op.ID, name, clip(o.err.Error()))
	}
	if !grpc {
		w.judgeCtx(o, execs, name)
		w.judgeStatus(o, execs, name)
	}
	w.judgeHTTPError(o, name)
	// bounded waiting
	limit := time.Duration(0)
	switch {
	case o.probe: // nobody is in a hurry any more
		limit = 2 * time.Minute
		if grpc {
			limit = 20 * time.Second
		}
	case grpc:
		limit = 20 * time.Second
		if c.cfg.Timeout > 0 {
			limit = time.Duration(c.cfg.Timeout) * time.Millisecond
		}
	case c.cfg.HTTP == "default":
		limit = 2 * time.Minute
	case c.cfg.HTTP != "shared" && c.cfg.Timeout > 0:
		limit = time.Duration(c.cfg.Timeout) * time.Millisecond
	}
	if limit > 0 && o.end-o.start > limit+tol {
		w.violate(pick2(grpc, "C13", "C06"), "%s: %s took %v, the limit is %v", o.op.ID, name, o.end-o.start, limit)
	}
	if o.op.Mode == "panic" && ok && o.op.Method != "Nop" {
		w.violate(nofalse, "%s: the service panicked, the client reported success", o.op.ID)
	}
}

// spent: the default client gives up after two minutes.
func (o *opRec) spent(c ClientCfg) bool {
	return c.HTTP == "default" && o.end-o.start >= 2*time.Minute
}

// overload: the plan asks for more time than the client is willing to wait.
func (w *world) overload(o *opRec) bool {
	c := o.cl.cfg
	return c.Timeout > 0 && c.HTTP != "shared" || o.spent(c) || isGrpc(o.cl) && o.op.Exec > 15000
}

func (w *world) judgeResult(o *opRec, e *execRec, outs []reflect.Type, name, corr string, grpc bool) {
	var got, want []any
	for i, t := range outs {
		if t == typErr {
			g, _ := o.got[i].(error)
			switch {
			case o.svcErr == nil && g != nil:
				w.violate("C05", "%s: %s returned no error, the caller got %v", o.op.ID, name, clip(fmt.Sprint(g)))
			case o.svcErr != nil && o.enc == int(gotsrpc.EncodingJson):
				if g == nil {
					w.violate("C05", "%s: %s returned error %q, the JSON caller saw neither a service error nor a client error", o.op.ID, name, clip(o.svcErr.Error()))
				}
			case o.svcErr != nil:
				if bad := checkErr(o.svcRef, g); bad != "" {
					w.violate("C05", "%s: %s (%s): %s", o.op.ID, name, o.op.Mode, bad)
				}
			}
			continue
		}
		if typedErrs[t] {
			if ok, at := eqv(reflect.ValueOf(o.rets[i]), reflect.ValueOf(o.got[i]), true, ""); !ok {
				w.violate("C05", "%s: %s: typed error changed: %s", o.op.ID, name, at)
			}
			continue
		}
		got = append(got, o.got[i])
		want = append(want, o.rets[i])
	}
	if ok, at := equivAny(w.zeroTimes(o, want, got), got, grpc); !ok && o.op.Mode == "jsonunion" {
		w.known["a union sent as JSON to a Go client arrives empty"]++
	} else if !ok {
		w.violate(corr, "%s: %s handed back other values than the service returned: %s (encoding %d)", o.op.ID, name, at, o.enc)
	}
}

func (w *world) judgeCtx(o *opRec, execs []*execRec, name string) {
	if !o.ctxBound() {
		return
	}
	late := tol
	if o.op.BulkIn > 0 {
		late += 50 * time.Millisecond // net/http lets a request that was answered early finish
	}
	if o.end > o.cancelAt+late {
		w.violate("C06", "%s: %s returned at %v, its context ended at %v", o.op.ID, name, o.end, o.cancelAt)
	}
	if o.cancelAt <= o.start {
		if o.err == nil {
			w.violate("C06", "%s: %s succeeded although its context was over before the call", o.op.ID, name)
		}
		if len(execs) > 0 {
			w.violate("C06", "%s: %s ran although its context was over before the call", o.op.ID, name)
		}
	}
	if o.err != nil && o.end >= o.cancelAt && !w.faulty() && o.op.Mode != "panic" {
		var he *gotsrpc.HTTPError
		// an answer which is an error itself may come in at the same instant
		answered := errors.As(o.err, &he) && o.statusCtl() || o.svcErr != nil && o.enc == int(gotsrpc.EncodingJson) && o.end == o.cancelAt
		if !errors.Is(o.err, o.wantCtx) && !answered {
			w.violate("C06", "%s: %s ended with its context, but the error is not %v: %v", o.op.ID, name, o.wantCtx, clip(o.err.Error()))
		}
	}
	if o.err != nil && o.end < o.cancelAt && (errors.Is(o.err, context.Canceled) || errors.Is(o.err, context.DeadlineExceeded)) && !w.faulty() && o.cl.cfg.Timeout == 0 && !o.spent(o.cl.cfg) {
		w.violate("C06", "%s: %s reports an ended context %v before it ended", o.op.ID, name, o.cancelAt-o.end)
	}
	if w.faulty() || o.err == nil {
		return
	}
	slack := 2*time.Second + 20*time.Duration(w.plan.Link.Latency+w.plan.Link.Jitter)*time.Microsecond
	for _, e := range execs {
		if !e.hadReq || e.panicked || !e.done && e.end == 0 {
			continue
		}
		full := time.Duration(o.op.Exec) * time.Millisecond
		if e.start < o.cancelAt && e.start+full > o.cancelAt+slack {
			if e.ctxDone < 0 || e.ctxDone > o.cancelAt+slack {
				w.violate("C06", "%s: the caller of %s gave up at %v, the handler was not told (ended %v)", o.op.ID, name, o.cancelAt, e.end)
			}
		}
	}
}

func (w *world) judgeStatus(o *opRec, execs []*execRec, name string) {
	if o.op.Method != "Control" || len(execs) == 0 {
		return
	}
	e := execs[0]
	rq := e.req
	if rq == nil || !e.done || rq.panicked != nil || !rq.done {
		return
	}
	body := o.args[2].(string)
	if !o.statusCtl() {
		if o.err == nil && o.op.Status == 200 && rq.status != 200 {
			w.violate("C12", "%s: explicit 200 became %d", o.op.ID, rq.status)
		}
		return
	}
	if rq.status != o.op.Status {
		w.violate("C12", "%s: the handler wrote status %d, the response has %d", o.op.ID, o.op.Status, rq.status)
	}
	want := body
	if o.op.Status == 204 || o.op.Ctl == "bare" {
		want = ""
	}
	if string(rq.body) != want && !rq.writeErr {
		w.violate("C12", "%s: the handler wrote body %q with status %d, the response has %q", o.op.ID, want, o.op.Status, clip(string(rq.body)))
	}
	if w.faulty() || o.ctxBound() || w.overload(o) {
		return
	}
	if o.err == nil {
		w.violate("C12", "%s: handler status %d, but the client saw success", o.op.ID, o.op.Status)
		return
	}
	var he *gotsrpc.HTTPError
	if !errors.As(o.err, &he) {
		w.violate("C12", "%s: handler status %d does not reach the caller as an HTTPError: %v", o.op.ID, o.op.Status, clip(o.err.Error()))
		return
	}
	if he.StatusCode != o.op.Status {
		w.violate("C12", "%s: handler status %d reached the caller as %d", o.op.ID, o.op.Status, he.StatusCode)
	}
	if o.op.Status != 204 && (!strings.Contains(he.Error(), body) || he.Body != body) {
		w.violate("C12", "%s: handler body %q reached the caller as %q in %q", o.op.ID, clip(body), clip(he.Body), clip(he.Error()))
	}
}

var padding = regexp.MustCompile(`\|(o\d+\.[0-9a-f]+) \d+ [0-9a-f]+`)

// judgeForeign: what came in on one connection, seen by an intermediary. Each
// request body carries one call's bytes.
func (w *world) judgeForeign(b []byte) {
	br := bufio.NewReader(bytes.NewReader(b))
	for {
		rq, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		body, err := io.ReadAll(rq.Body)
		own := ""
		for _, m := range padding.FindAllSubmatch(body, -1) {
			if own == "" {
				own = string(m[1])
			}
			if id := string(m[1]); id != own {
				w.violate("C01", "a request of call %s carries bytes of call %s", own, id)
				return
			}
		}
		if err != nil {
			return
		}
	}
}

// judgeHTTPError: a reported status and body are ones which somebody answered with.
func (w *world) judgeHTTPError(o *opRec, name string) {
	var he *gotsrpc.HTTPError
	if o.err == nil || !errors.As(o.err, &he) {
		return
	}
	for _, rq := range w.reqs {
		if rq.status == he.StatusCode && string(rq.body) == he.Body {
			return
		}
	}
	for _, f := range w.plan.Conn {
		if f.Kind != "middlebox" {
			continue
		}
		b := string(f.answer())
		if i := strings.Index(b, "\r\n\r\n"); i > 0 && strings.HasPrefix(b, fmt.Sprintf("HTTP/1.1 %d", he.StatusCode)) {
			// without an announced length a truncated answer looks complete
			if rest := b[i+4:]; rest == he.Body || strings.HasPrefix(rest, he.Body) && (!strings.Contains(b[:i], "Content-Length") || f.Fill == 0) {
				return
			}
		}
	}
	if w.faulty() {
		// net/http's own answers to a mangled request, of no announced length
		switch own := fmt.Sprintf("%d %s", he.StatusCode, http.StatusText(he.StatusCode)); he.StatusCode {
		case 400, 431, 501, 505:
			if strings.HasPrefix(he.Body, own) || strings.HasPrefix(own, he.Body) {
				return
			}
		}
	}
	w.violate("C12", "%s: %s failed with status %d and body %q, which nobody sent", o.op.ID, name, he.StatusCode, clip(he.Body))
}

func (w *world) judgeRaw(o *opRec, execs []*execRec) {
	rr := o.raw
	if o.op.Mode == "otherservice" {
		for _, e := range execs {
			w.violate("C13", "%s: a call of a service the server does not have ran %s.%s", o.op.ID, e.svc, e.method)
		}
		switch {
		case o.panicked != nil && strings.Contains(fmt.Sprint(o.panicked), "interface conversion: interface {} is nil"):
			w.known["a GoRPC client panics on the reply of a server without the service"]++
		case o.panicked != nil:
			w.violate("C13", "%s: a call of a service the server does not have panicked: %v", o.op.ID, o.panicked)
		case o.err == nil && o.op.Method == "Note":
			w.known["a GoRPC call without results succeeds on a server without the service"]++
		case o.err == nil:
			w.violate("C13", "%s: a call of a service the server does not have reported success", o.op.ID)
		}
		return
	}
	if o.op.Kind == "skew" {
		for _, e := range execs {
			w.violate("C04", "%s: a %s call ran %s.%s", o.op.ID, rr.variant, e.svc, e.method)
		}
		if o.err == nil {
			w.violate("C04", "%s: a %s call reported success", o.op.ID, rr.variant)
			return
		}
		if !w.faulty() && !o.ctxBound() && !w.overload(o) {
			var he *gotsrpc.HTTPError
			if !errors.As(o.err, &he) && o.op.Mode == "wrongendpoint" {
				return // the mux answers without reading the body: a reset may overtake the answer
			}
			if !errors.As(o.err, &he) || he.StatusCode != rr.wantCode {
				w.violate("C04", "%s: a %s call (%s) should fail with status %d: %v", o.op.ID, rr.variant, rr.path, rr.wantCode, clip(o.err.Error()))
			}
		}
		return
	}
	if !rr.mayExec {
		for _, e := range execs {
			w.violate("C04", "%s: raw %s %s (%s) ran %s.%s", o.op.ID, rr.method, rr.path, rr.variant, e.svc, e.method)
		}
		// nothing with another id may have run inside that request either
		for _, rq := range w.reqs {
			if rq.rawID == o.op.ID && len(rq.execs) > 0 {
				w.violate("C04", "%s: raw %s %s (%s) ran a service method", o.op.ID, rr.method, rr.path, rr.variant)
			}
		}
	}
	clean := !w.faulty()
	if clean && rr.wantCode != 0 {
		if rr.err != nil {
			if rr.variant == "method" && len(rr.body) > 0 {
				return // answered without reading the body: the connection may be reset before the answer is read
			}
			w.violate(rr.prop("C04"), "%s: raw %s %s (%s): no answer: %v", o.op.ID, rr.method, rr.path, rr.variant, rr.err)
			return
		}
		if rr.status != rr.wantCode {
			w.violate(rr.prop("C04"), "%s: raw %s %s (%s, %q): status %d, want %d", o.op.ID, rr.method, rr.path, rr.variant, clip(string(rr.body)), rr.status, rr.wantCode)
			return
		}
	}
	if rr.variant == "mp-ok" && rr.err == nil && rr.status == 200 && rr.conn != nil && rr.conn.p.mbox == nil {
		if len(execs) == 0 {
			w.violate(rr.prop("C02"), "%s: raw call answered 200 but never ran", o.op.ID)
		} else if ct := rr.hdr.Get("Content-Type"); ct != ctMsgpack {
			w.violate(rr.prop("C04"), "%s: a msgpack caller got %q", o.op.ID, ct)
		} else {
			var reply []any
			for _, t := range rr.out {
				if t == typErr {
					t = reflect.TypeOf((*gotsrpc.Error)(nil))
				}
				reply = append(reply, reflect.New(t).Interface())
			}
			if err := gotsrpc.NewMSGPackDecoderBytes(rr.reply).Decode(&reply); err != nil || len(reply) != len(rr.out) {
				w.violate(rr.prop("C04"), "%s: raw msgpack reply of %s.%s: %d values for %d (%v)", o.op.ID, rr.svc, rr.svcMeth, len(reply), len(rr.out), err)
				return
			}
			for i := range reply {
				if rr.out[i] == typErr {
					var g error
					if e, ok := reply[i].(**gotsrpc.Error); ok && *e != nil {
						g = *e
					}
					if o.svcErr != nil || g != nil {
						bad := "an error out of nothing"
						if o.svcErr != nil {
							bad = checkErr(o.svcRef, g)
						}
						if bad != "" {
							w.violate(rr.prop("C05"), "%s: raw msgpack reply of %s.%s: %s", o.op.ID, rr.svc, rr.svcMeth, bad)
						}
					}
					continue
				}
				if reply[i] != nil {
					reply[i] = reflect.ValueOf(reply[i]).Elem().Interface()
				} else if isNilValue(o.rets[i]) || encodesAsNil(o.rets[i]) {
					reply[i] = o.rets[i]
				}
			}
			for i := range rr.out {
				if rr.out[i] == typErr {
					reply[i] = nil
				}
			}
			if ok, at := equivAny(noErrs(o.rets, rr.out), reply, true); !ok {
				w.violate(rr.prop("C04"), "%s: raw msgpack reply of %s.%s differs: %s", o.op.ID, rr.svc, rr.svcMeth, at)
				w.violate(rr.prop("C01"), "%s: raw msgpack reply of %s.%s differs: %s", o.op.ID, rr.svc, rr.svcMeth, at)
			}
		}
	}
	if rr.variant != "json-ok" && rr.variant != "json-err" && !rr.ts() || rr.err != nil || rr.status != 200 || rr.conn == nil || rr.conn.p.mbox != nil {
		return
	}
	if len(execs) == 0 {
		w.violate(rr.prop("C02"), "%s: raw call answered 200 but never ran", o.op.ID)
		return
	}
	if ct := rr.hdr.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		w.violate(rr.prop("C04"), "%s: a JSON caller got %q", o.op.ID, ct)
		return
	}
	if n, err := strconv.Atoi(rr.hdr.Get("Content-Length")); err == nil && n != len(rr.reply) {
		w.violate(rr.prop("C04"), "%s: Content-Length %d, body %d", o.op.ID, n, len(rr.reply))
	}
	var parts []json.RawMessage
	if err := json.Unmarshal(rr.reply, &parts); err != nil || len(parts) != len(rr.out) {
		w.violate(rr.prop("C04"), "%s: raw reply is no array of %d values: %q", o.op.ID, len(rr.out), clip(string(rr.reply)))
		return
	}
	if rr.ts() {
		w.judgeTSReply(o, parts)
	}
	for i, t := range rr.out {
		if t == typErr {
			null := string(bytes.TrimSpace(parts[i])) == "null"
			if o.svcErr != nil && null {
				w.violate(rr.prop("C05"), "%s: %s.%s returned error %q, a JSON caller got null", o.op.ID, rr.svc, rr.svcMeth, clip(o.svcErr.Error()))
			} else if o.svcErr == nil && !null {
				w.violate(rr.prop("C05"), "%s: %s.%s returned no error, a JSON caller got %s", o.op.ID, rr.svc, rr.svcMeth, clip(string(parts[i])))
			}
			continue
		}
		got, err := jsonParse(parts[i])
		if err != nil {
			w.violate(rr.prop("C04"), "%s: raw reply value %d: %v", o.op.ID, i, err)
		} else if ok, at := jsonEq(jsonWant(reflect.ValueOf(o.rets[i])), got, ""); !ok {
			w.violate(rr.prop("C04"), "%s: raw reply value %d of %s.%s differs at %s", o.op.ID, i, rr.svc, rr.svcMeth, at)
			w.violate(rr.prop("C01"), "%s: raw reply value %d of %s.%s differs at %s", o.op.ID, i, rr.svc, rr.svcMeth, at)
		}
	}
}

// judgeRequests checks statistics and monitoring request by request.
func (w *world) judgeRequests() {
	for _, rq := range w.reqs {
		if !rq.done || rq.panicked != nil {
			if len(rq.mons) > 1 {
				w.violate("C08", "request %d: the monitor was called %d times", rq.n, len(rq.mons))
			}
			continue
		}
		if len(rq.execs) > 1 {
			w.violate("C03", "request %d to %s ran %d service methods", rq.n, rq.path, len(rq.execs))
			continue
		}
		var e *execRec
		if len(rq.execs) == 1 {
			e = rq.execs[0]
		}
		w.judgeMonitor(rq, e)
		if rq.srv.cfg.Instrument == "stats" {
			w.judgeStats(rq, e)
		}
	}
	for range w.strays {
		w.violate("C08", "the monitor was called without the request it belongs to")
	}
	if w.strayStats > 0 {
		w.violate("C07", "%d statistics callbacks outside a request or without statistics", w.strayStats)
	}
}

// nilErr: no error, or a nil pointer in a concrete error type's place
func nilErr(err error) bool {
	if err == nil {
		return true
	}
	v := reflect.ValueOf(err)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func (w *world) expectErr(e *execRec) (code int, typ, msg string) {
	if len(e.rets) == 0 {
		return
	}
	v, ok := e.rets[len(e.rets)-1].(error)
	if !ok || nilErr(v) {
		return
	}
	code = 1
	if c, ok := v.(interface{ ErrorCode() int }); ok {
		code = c.ErrorCode()
	}
	return code, fmt.Sprintf("%T", v), v.Error()
}

func (rq *reqRec) bypass(e *execRec) bool {
	if e.method != "Control" || len(e.args) < 3 {
		return false
	}
	op := e.srv.w.ops.get(e.id)
	return op != nil && op.statusCtl()
}

func (w *world) judgeMonitor(rq *reqRec, e *execRec) {
	if e == nil {
		if len(rq.mons) > 0 {
			w.violate("C08", "request %d to %s ran nothing, but the monitor was called", rq.n, rq.path)
		}
		return
	}
	name := e.svc + "." + e.method + " " + e.id
	if len(rq.mons) > 1 {
		w.violate("C08", "%s: the monitor was called %d times", name, len(rq.mons))
	}
	if len(rq.mons) == 0 {
		if !rq.writeErr {
			w.violate("C08", "%s: the monitor was never called", name)
		}
		return
	}
	m := rq.mons[0]
	if ok, at := equivAny(m.args, e.args, false); !ok {
		w.violate("C08", "%s: the monitor saw other arguments: %s", name, at)
	}
	if !rq.bypass(e) {
		if len(m.rets) != len(e.rets) {
			w.violate("C08", "%s: the monitor saw %d return values, there are %d", name, len(m.rets), len(e.rets))
		} else {
			for i := range m.rets {
				we, isErr := e.rets[i].(error)
				if isErr && !nilErr(we) {
					ge, _ := m.rets[i].(error)
					if ge == nil || reflect.TypeOf(ge) != reflect.TypeOf(we) || ge.Error() != we.Error() {
						w.violate("C08", "%s: the service returned %T %q, the monitor saw %T %q", name, we, clip(we.Error()), m.rets[i], clip(fmt.Sprint(m.rets[i])))
					}
					continue
				}
				if ok, at := eqv(reflect.ValueOf(e.rets[i]), reflect.ValueOf(m.rets[i]), false, fmt.Sprintf("#%d", i)); !ok {
					w.violate("C08", "%s: the monitor saw other return values: %s", name, at)
				}
			}
		}
	}
	if m.statsPtr == nil {
		w.violate("C08", "%s: the monitor got no statistics", name)
		return
	}
	w.statsMatch("C08", name+" (monitor)", m.stats, rq, e)
	if m.at < e.end {
		w.violate("C08", "%s: monitored before the service returned", name)
	}
	if m.written != rq.wrote {
		w.violate("C08", "%s: monitored when %d of %d response bytes were written", name, m.written, rq.wrote)
	}
}

func isNilValue(a any) bool {
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr:
		return v.IsNil()
	}
	return !v.IsValid()
}

func (w *world) statsMatch(prop, name string, st gotsrpc.CallStats, rq *reqRec, e *execRec) {
	if st.Package != svcPackage[e.svc] || st.Service != svcTitle[e.svc] || st.Func != e.method {
		w.violate(prop, "%s: statistics name %s.%s.%s", name, st.Package, st.Service, st.Func)
	}
	if st.Execution != e.end-e.start {
		w.violate(prop, "%s: statistics say the execution took %v, it took %v", name, st.Execution, e.end-e.start)
	}
	if in, _ := methodIO(svcKey(e.svc), e.method); len(in) > 0 {
		size := int(rq.clen)
		if size < 0 {
			size = rq.bodyRead
		}
		if st.RequestSize != size {
			w.violate(prop, "%s: statistics say %d request bytes, there were %d", name, st.RequestSize, size)
		}
		if st.Unmarshalling != e.start-rq.start {
			w.violate(prop, "%s: statistics say unmarshalling took %v, it took %v", name, st.Unmarshalling, e.start-rq.start)
		}
	}
	if !rq.writeErr && !rq.bypass(e) {
		if st.ResponseSize != rq.wrote {
			w.violate(prop, "%s: statistics say %d response bytes, there were %d", name, st.ResponseSize, rq.wrote)
		}
		if st.Marshalling != rq.wroteAt-e.end {
			w.violate(prop, "%s: statistics say marshalling took %v, it took %v", name, st.Marshalling, rq.wroteAt-e.end)
		}
		code, typ, msg := w.expectErr(e)
		if st.ErrorCode != code || st.ErrorType != typ || st.ErrorMessage != msg {
			w.violate(prop, "%s: statistics record error %d %s %q, the service returned %d %s %q", name, st.ErrorCode, st.ErrorType, clip(st.ErrorMessage), code, typ, clip(msg))
		}
	}
}

// grpcKey is the key of the clients of a GoRPC server.
func grpcKey(kind string) string { return strings.Replace(kind, "gorpc", "grpc", 1) }

func svcKey(svc string) string {
	if svc == "wire2" {
		return "grpc2"
	}
	return svc
}

func (w *world) judgeStats(rq *reqRec, e *execRec) {
	if e == nil {
		// nothing ran: an unknown method must not be counted as a call
		if rq.httpMethod == "POST" && rq.status == 404 && len(rq.stats) > 0 {
			w.violate("C07", "request %d: unknown method %s was recorded as a call", rq.n, rq.path)
		}
		for _, st := range rq.stats {
			if st.Execution != 0 {
				w.violate("C07", "request %d to %s ran nothing but has execution time %v", rq.n, rq.path, st.Execution)
			}
		}
		if len(rq.stats) > 1 {
			w.violate("C07", "request %d to %s: %d statistics callbacks", rq.n, rq.path, len(rq.stats))
		}
		return
	}
	name := e.svc + "." + e.method + " " + e.id
	if len(rq.stats) != 1 {
		w.violate("C07", "%s: %d statistics callbacks for one call", name, len(rq.stats))
		return
	}
	w.statsMatch("C07", name, rq.stats[0], rq, e)
	if rq.statsAt[0] < e.end {
		w.violate("C07", "%s: statistics delivered before the call was over", name)
	}
	// nobody else's call may write into them later
	if rq.stats[0] != *rq.statsLater[0] {
		w.violate("C07", "%s: statistics changed after they were delivered", name)
	}
}

// judgeHeaders: every request carries exactly its client's default headers.
func (w *world) judgeHeaders(byID map[string][]*execRec) {
	for i := range w.headers {
		if !reflect.DeepEqual(w.headers[i], w.hdrSnap[i]) {
			w.violate("C11", "default headers %d were changed from %v to %v", i, w.hdrSnap[i], w.headers[i])
		}
	}
	all := map[string]bool{}
	for _, h := range w.hdrSnap {
		for k := range h {
			all[k] = true
		}
	}
	for _, o := range w.opList {
		if o.cl == nil || isGrpc(o.cl) || o.op.Kind != "call" {
			continue
		}
		for _, e := range byID[o.op.ID] {
			if e.req != nil {
				w.judgeHeader(o, e.req, all)
			}
		}
	}
	for _, rq := range w.reqs {
		// turned down, but its first argument tells whose it is
		if len(rq.execs) > 0 || rq.rawID != "" {
			continue
		}
		if o := w.ops.get(string(opID.Find(rq.head))); o != nil && o.cl != nil && o.op.Kind == "call" {
			w.judgeHeader(o, rq, all)
		}
	}
}

var opID = regexp.MustCompile(`o\d+\.[0-9a-f]+|probe-\d+-\d+`)

func (w *world) judgeHeader(o *opRec, rq *reqRec, all map[string]bool) {
	want := http.Header{}
	if h := o.hdr; h >= 0 && h < len(w.hdrSnap) {
		want = w.hdrSnap[h].Clone()
	}
	ct := ctMsgpack
	if o.enc == int(gotsrpc.EncodingJson) {
		ct = ctJSON
	}
	want.Set("Content-Type", ct)
	want.Set("Accept", ct)
	want.Set(gotsrpc.HeaderServiceToService, "true")
	got := rq.hdr
	for k, v := range want {
		if !reflect.DeepEqual(got[k], v) {
			w.violate("C11", "%s: request header %s is %q, should be %q", o.op.ID, k, got[k], v)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && (all[k] || k == gotsrpc.HeaderServiceToService) {
			w.violate("C11", "%s: request carries header %s %q of another client", o.op.ID, k, v)
		}
	}
}

func (w *world) judgeGrpcStats() {
	type key struct {
		srv  int
		name string
		d    time.Duration
	}
	execN := map[key]int{}
	complete := map[key]int{}
	for _, e := range w.execs {
		if e.req != nil || e.srv.cfg.Kind == "http" || e.srv.cfg.NoStats {
			continue
		}
		n := svcTitle[e.svc] + e.method + "Request"
		k := key{e.srv.i, n, e.end - e.start}
		if e.done && !e.panicked {
			complete[k]++
		}
		execN[k]++
	}
	got := map[key]int{}
	for _, s := range w.grpcSt {
		k := svcName[grpcKey(s.srv.cfg.Kind)]
		svc := svcTitle[k]
		if s.stats.Package != svcPackage[k] || s.stats.Service != svc {
			w.violate("C14", "GoRPC statistics name %s.%s on the %s server", s.stats.Package, s.stats.Service, svc)
		}
		if svc == "Wire" && strings.HasPrefix(s.stats.Func, "Wire2") && s.stats.Execution == 0 {
			w.known["GoRPC statistics record a call of a service the server does not have"]++
			continue
		}
		got[key{s.srv.i, s.stats.Func, s.stats.Execution}]++
	}
	if len(w.plan.Crash) > 0 {
		return // executions which died with their process are not counted
	}
	for k, n := range complete {
		if got[k] != n {
			w.violate("C14", "GoRPC server %d: %d completed calls %s of %v, statistics record %d", k.srv, n, k.name, k.d, got[k])
		}
	}
	for k, n := range got {
		if complete[k] < n {
			w.violate("C14", "GoRPC server %d: statistics record %d calls %s of %v, there were %d", k.srv, n, k.name, k.d, complete[k])
		}
	}
}

// judgeProm compares the exported metrics with what really happened.
func (w *world) judgeProm() {
	if w.reg == nil || w.phase != "end" || len(w.plan.Crash) > 0 {
		return
	}
	fams, err := w.fams, w.famErr
	if err != nil {
		w.violate("C15", "metrics cannot be gathered: %v", err)
		return
	}
	type agg struct {
		n   uint64
		sum float64
	}
	want := map[string]*agg{}
	// requests for a method which were turned down before it ran may be counted
	// as calls which took no time; panics and unknown methods are not
	rejected := map[string]uint64{}
	for _, rq := range w.reqs {
		if rq.srv.cfg.Instrument == "prom" && len(rq.execs) == 0 && rq.panicked == nil {
			for _, svc := range httpSvcs {
				if f, ok := strings.CutPrefix(rq.path, rq.srv.cfg.ep(svc)+"/"); ok {
					rejected[svcPackage[svc]+"|"+svcTitle[svc]+"|"+f+"|"]++
				}
			}
		}
	}
	spare := func(k string) uint64 {
		for p, n := range rejected {
			if strings.Contains(k, "|"+p) {
				return n
			}
		}
		return 0
	}
	add := func(k string, v float64) {
		if want[k] == nil {
			want[k] = &agg{}
		}
		want[k].n++
		want[k].sum += v
	}
	for _, rq := range w.reqs {
		if rq.srv.cfg.Instrument != "prom" || len(rq.execs) != 1 || rq.panicked != nil || !rq.done {
			continue
		}
		e := rq.execs[0]
		l := svcPackage[e.svc] + "|" + svcTitle[e.svc] + "|" + e.method + "|"
		add("gotsrpc_service_time_nanoseconds|"+l+"execution", float64(e.end-e.start))
		um, rs := e.start-rq.start, rq.clen
		if rs < 0 {
			rs = int64(rq.bodyRead)
		}
		if in, _ := methodIO(svcKey(e.svc), e.method); len(in) == 0 {
			um, rs = 0, 0
		}
		add("gotsrpc_service_time_nanoseconds|"+l+"unmarshalling", float64(um))
		add("gotsrpc_service_size_bytes|"+l+"request", float64(rs))
		if rq.writeErr || rq.bypass(e) {
			add("gotsrpc_service_time_nanoseconds|"+l+"marshalling", 0)
			add("gotsrpc_service_size_bytes|"+l+"response", 0)
		} else {
			add("gotsrpc_service_time_nanoseconds|"+l+"marshalling", float64(rq.wroteAt-e.end))
			add("gotsrpc_service_size_bytes|"+l+"response", float64(rq.wrote))
		}
	}
	for _, e := range w.execs {
		if e.req == nil && e.srv.cfg.Kind != "http" && e.srv.cfg.Instrument == "prom" && !e.srv.cfg.NoStats && e.done && !e.panicked {
			add("gorpc_service_time_seconds|"+svcPackage[e.svc]+"|"+svcTitle[e.svc]+"|"+svcTitle[e.svc]+e.method+"Request|execution", (e.end - e.start).Seconds())
		}
	}
	got := map[string]*agg{}
	for _, f := range fams {
		for _, m := range f.GetMetric() {
			l := map[string]string{}
			for _, p := range m.GetLabel() {
				l[p.GetName()] = p.GetValue()
			}
			if l["service"] == "" && l["package"] == "" {
				continue // requests which named no service (not POST)
			}
			k := f.GetName() + "|" + l["package"] + "|" + l["service"] + "|" + l["func"] + "|" + l["type"]
			got[k] = &agg{m.GetSummary().GetSampleCount(), m.GetSummary().GetSampleSum()}
		}
	}
	for k, a := range want {
		g := got[k]
		if g == nil {
			w.violate("C15", "%d samples of %s are missing", a.n, k)
		} else if g.n < a.n || g.n > a.n+spare(k) {
			w.violate("C15", "%s: %d samples exported, there were %d calls", k, g.n, a.n)
		} else if d := g.sum - a.sum; d > 1e-6*(1+a.sum) || d < -1e-6*(1+a.sum) {
			w.violate("C15", "%s: sum %g exported, the calls add up to %g", k, g.sum, a.sum)
		}
	}
	for k, g := range got {
		if want[k] == nil && g.n > 0 {
			if g.n <= spare(k) && g.sum == 0 {
				continue
			}
			w.violate("C15", "%s: %d samples exported for calls that never ran", k, g.n)
		}
	}
}

// judgeEnd: after the faults the system serves again and nothing is left over.
func (w *world) judgeEnd() {
	type pr struct{ n, okAt int }
	seen := map[int]*pr{}
	for _, o := range w.opList {
		if !o.probe || !o.started {
			continue
		}
		p := seen[o.op.Client]
		if p == nil {
			p = &pr{okAt: -1}
			seen[o.op.Client] = p
		}
		if o.err == nil && o.panicked == nil && o.done {
			if p.okAt < 0 {
				p.okAt = p.n
			}
		} else if p.okAt >= 0 {
			w.violate("C09", "%s: a call failed after the client had recovered: %v", o.op.ID, o.err)
		}
		p.n++
	}
	for ci, p := range seen {
		c := w.clients[ci]
		max := 2
		if c.cfg.HTTP == "default" || c.cfg.HTTP == "nokeep" {
			max = 0
		}
		prop := pick2(isGrpc(c), "C13", "C09")
		if p.okAt < 0 {
			w.violate(prop, "client %d (%s, %s): none of %d calls succeeded after the faults were over", ci, c.cfg.Svc, c.cfg.HTTP, p.n)
		} else if p.okAt > max {
			w.violate(prop, "client %d (%s, %s): only call %d after the faults succeeded", ci, c.cfg.Svc, c.cfg.HTTP, p.okAt+1)
		}
	}
	if w.openEnd > 0 {
		w.violate("C10", "%d connections are still open at the client: %s", w.openEnd, w.openDetail)
	}
	if w.goroutinesEnd > 0 {
		w.violate("C10", "%d goroutines are left over: %s", w.goroutinesEnd, clipN(w.goroutineDump, 2000))
	}
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// onDeadlock: nothing can run any more and no timer is pending.
func (w *world) onDeadlock(msg string) {
	n := 0
	for _, o := range w.opList {
		if o.started && !o.done {
			n++
			prop := "C09"
			if o.cl != nil && isGrpc(o.cl) {
				prop = "C13"
			}
			w.violate(prop, "%s: %s never returned", o.op.ID, o.op.Method)
		}
	}
	if n == 0 {
		w.violate("C10", "the system never came to rest: %s", clipN(msg, 1500))
	}
}

func encodesAsNil(x any) bool {
	if v := reflect.ValueOf(x); v.IsValid() && isUnion(v.Type()) {
		return v.IsZero()
	}
	t, ok := x.(time.Time)
	return ok && t.IsZero()
}

// zeroTimes is want without the pointers to the zero time, which MessagePack
// has no value for: they are a known finding of calls made to show it.
func (w *world) zeroTimes(o *opRec, want, got []any) []any {
	if o.op.Mode != "zerotime" || len(want) != len(got) {
		return want
	}
	l := append([]any{}, want...)
	for i, x := range l {
		p, ok := x.(*time.Time)
		q, ok2 := got[i].(*time.Time)
		if ok && ok2 && p != nil && p.IsZero() && q == nil && o.enc == int(gotsrpc.EncodingMsgpack) {
			l[i] = q
			w.known["a pointer to the zero time arrives as nil"]++
		}
	}
	return l
}

// noErrs is vals without what is returned as an error.
func noErrs(vals []any, types []reflect.Type) []any {
	l := append([]any{}, vals...)
	for i := range l {
		if types[i] == typErr {
			l[i] = nil
		}
	}
	return l
}
