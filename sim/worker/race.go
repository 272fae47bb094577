package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
)

// The race detector watches every run of a -race worker. It writes what it
// finds to log_path.<pid>; raceReports reads what the last run added.

var (
	raceLog    *os.File
	raceFrame  = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n\s+(\S+):(\d+)`)
	raceAccess = regexp.MustCompile(`(?m)^(Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) at .* by .*:\n((?:  .*\n)+)`)
)

func raceOpen() {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if path, ok := strings.CutPrefix(o, "log_path="); ok {
			raceLog, _ = os.Open(fmt.Sprintf("%s.%d", path, os.Getpid()))
		}
	}
}

// raceSide says whose an access is, by the innermost frame that is neither the
// standard library's nor a codec's: the library (with generated code), the
// harness or gorpc.
func raceSide(stack string) (owner, at string) {
	for _, m := range raceFrame.FindAllStringSubmatch(stack, -1) {
		fn, file := m[1], m[2]
		base := file[strings.LastIndexByte(file, '/')+1:]
		where := strings.TrimPrefix(fn[strings.LastIndexByte(fn, '/')+1:], "v2.") + " (" + base + ")"
		switch {
		case strings.HasPrefix(fn, "github.com/foomo/gotsrpc/"), strings.HasPrefix(fn, "gotsrpcsim/svc/") && strings.HasSuffix(base, "_gen.go"):
			return "lib", where
		case strings.HasPrefix(fn, "main."), strings.HasPrefix(fn, "gotsrpcsim/"), strings.HasPrefix(fn, "rnd/"):
			return "user", where
		case strings.HasPrefix(fn, "github.com/valyala/gorpc."):
			return "gorpc", where
		case at == "":
			at = where
		}
	}
	return "", at
}

func raceReports(w *world) {
	if raceLog == nil {
		if raceOpen(); raceLog == nil {
			return
		}
	}
	var b []byte
	buf := make([]byte, 1<<16)
	for {
		n, err := raceLog.Read(buf)
		b = append(b, buf[:n]...)
		if n == 0 || err != nil {
			break
		}
	}
	for _, r := range strings.Split(string(b), "==================\n") {
		if !strings.Contains(r, "WARNING: DATA RACE") {
			continue
		}
		acc := raceAccess.FindAllStringSubmatch(r, -1)
		if len(acc) != 2 {
			continue
		}
		o0, at0 := raceSide(acc[0][2])
		o1, at1 := raceSide(acc[1][2])
		if o0 == "user" || o1 == "user" || o0 == "gorpc" || o1 == "gorpc" || o0 != "lib" && o1 != "lib" || at0 == "" || at1 == "" {
			w.count("race-ignored")
			if os.Getenv("SIM_RACE_ALL") != "" {
				fmt.Fprintf(os.Stderr, "ignored: %s %s, %s %s\n%s\n", o0, at0, o1, at1, r)
			}
			continue
		}
		if os.Getenv("SIM_RACE_ALL") != "" {
			fmt.Fprintln(os.Stderr, r)
		}
		w.violate("C21", "data race: %s in %s, %s in %s, not ordered by anything", strings.ToLower(acc[0][1]), at0, strings.ToLower(acc[1][1]), at1)
	}
}
