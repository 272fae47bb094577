package main

import (
	"net/http"
	"reflect"
	"sort"
	"strings"

	"github.com/foomo/gotsrpc/v2"
	"github.com/valyala/gorpc"
)

// rndSvc is one of the random services which toolchain/mkrnd.py wrote, as one
// kind of client sees it.
type rndSvc struct {
	key, svc, pkg, title string
	typ                  reflect.Type // of the client
	calls, errs          []string
	unions, unionArgs    []string // methods with unions, which JSON is for TypeScript only
	proxy                func(s *server, ep string) http.HandlerFunc
	client               func(url, ep string, h *http.Client) (reflect.Value, gotsrpc.Client)
	serve                func(s *server) (rndServer, func(gotsrpc.GoRPCCallStatsHandlerFun))
	dial                 func(addr string) (reflect.Value, *gorpc.Client)
	gob                  []any
	defs                 map[string]reflect.Type // what the client's methods have to be
}

type rndServer interface {
	Start() error
	Stop()
}

var (
	rndSvcs         []*rndSvc
	rndByKey        = map[string]*rndSvc{}
	rndHTTP, rndRPC []string
)

func addRnd(s *rndSvc) {
	rndSvcs = append(rndSvcs, s)
	rndByKey[s.key] = s
	svcTypes[s.key], svcName[s.key] = s.typ, s.svc
	svcPackage[s.svc], svcTitle[s.svc] = s.pkg, s.title
	callMethods[s.key] = s.calls
	if len(s.errs) > 0 {
		errMethods[s.key] = s.errs
	}
	probeMethod[s.key] = "Pair"
	if s.dial != nil {
		rndRPC = append(rndRPC, s.key)
		return
	}
	rndHTTP = append(rndHTTP, s.key)
	httpSvcs = append(httpSvcs, s.key)
}

// rndMethods is how many methods the random services have, for each kind of
// client.
func rndMethods() int {
	n := 0
	for _, s := range rndSvcs {
		m := map[string]bool{}
		for _, l := range [][]string{s.calls, s.errs} {
			for _, x := range l {
				m[x] = true
			}
		}
		n += len(m)
	}
	return n
}

// hasUnion tells whether a method of a random service takes or returns unions.
func hasUnion(svc, method string, args bool) bool {
	s := rndByKey[svc]
	if s == nil {
		return false
	}
	if args {
		return indexOf(s.unionArgs, method) >= 0
	}
	return indexOf(s.unions, method) >= 0
}

// lostMethods are methods of a definition which the generated client does not
// have, or not as they were defined.
var lostMethods = map[string][]string{}

// findLost takes what is missing out of what is simulated: it is reported, and
// the rest is still there.
func findLost() {
	for key, typ := range svcTypes {
		var defs map[string]reflect.Type
		if s := rndByKey[key]; s != nil {
			defs = s.defs
			for m := range defs {
				lost(key, typ, m, defs)
			}
		}
		keep := func(l []string) (o []string) {
			for _, m := range l {
				if !lost(key, typ, m, defs) {
					o = append(o, m)
				}
			}
			return
		}
		if l, ok := callMethods[key]; ok {
			callMethods[key] = keep(l)
		}
		if l, ok := errMethods[key]; ok {
			if l = keep(l); len(l) > 0 {
				errMethods[key] = l
			} else {
				delete(errMethods, key)
			}
		}
	}
	for key := range lostMethods {
		if s := rndByKey[key]; s != nil {
			without := func(l []string) (o []string) {
				for _, k := range l {
					if k != key {
						o = append(o, k)
					}
				}
				return
			}
			httpSvcs, rndHTTP, rndRPC = without(httpSvcs), without(rndHTTP), without(rndRPC)
		}
	}
}

func lost(key string, typ reflect.Type, method string, defs map[string]reflect.Type) bool {
	m, ok := typ.MethodByName(method)
	what := ""
	if !ok {
		what = "the client has no method " + method
	} else if d := defs[method]; d != nil {
		var in, out []reflect.Type
		for i := 1; i < m.Type.NumIn(); i++ {
			in = append(in, m.Type.In(i))
		}
		for i := 0; i < m.Type.NumOut(); i++ {
			out = append(out, m.Type.Out(i))
		}
		if f := reflect.FuncOf(in, out, m.Type.IsVariadic()); f != d {
			what = "the client's method " + method + " is a " + f.String() + ", the definition makes it a " + d.String()
		}
	}
	if what != "" && indexOf(lostMethods[key], what) < 0 {
		lostMethods[key] = append(lostMethods[key], what)
	}
	return what != ""
}

// reportLost are the violations which lost methods are.
func reportLost(w *world) {
	var keys []string
	for k := range lostMethods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		prop := "C01"
		if strings.HasPrefix(k, "grpc") {
			prop = "C13"
		}
		sort.Strings(lostMethods[k])
		for _, x := range lostMethods[k] {
			if w.plan.Prop == prop || w.plan.Prop == "C20" {
				w.violate(prop, "%s (%s): %s", svcTitle[svcName[k]], k, x)
			}
		}
	}
}
