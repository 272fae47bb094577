#!/usr/bin/env python3
"""Build the standard-library overlay that turns the pinned Go toolchain into a
deterministic simulator: mkoverlay.py GOROOT OUTDIR -> OUTDIR/std.json

Every edit is an anchored replacement which must match exactly once, so a
different toolchain fails loudly instead of silently losing determinism."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    goroot, out = sys.argv[1], sys.argv[2]
    src = os.path.join(goroot, "src")
    os.makedirs(out, exist_ok=True)
    repl = {}

    def edit(rel, *pairs):
        with open(os.path.join(src, rel)) as f:
            s = f.read()
        for old, new in pairs:
            if s.count(old) != 1:
                sys.exit("mkoverlay: anchor in %s matches %d times: %r" % (rel, s.count(old), old))
            s = s.replace(old, new)
        put(rel, s)

    def put(rel, s):
        dst = os.path.join(out, rel.replace("/", "__"))
        old = None
        if os.path.exists(dst):
            with open(dst) as f:
                old = f.read()
        if old != s:
            with open(dst, "w") as f:
                f.write(s)
        repl[os.path.join(src, rel)] = dst

    def add(rel, name):
        with open(os.path.join(HERE, name)) as f:
            put(rel, f.read())

    # ---- sync.Pool under the race detector: keep little, an object which goes
    # from one goroutine to another orders what they do
    edit("sync/pool.go", ("\t\tif runtime_randn(4) == 0 {\n", "\t\tif runtime_randn(4) != 0 {\n"))

    # ---- runtime: scheduling, randomness --------------------------------
    add("runtime/zsim.go", "zsim_runtime.go")
    edit(
        "runtime/proc.go",
        # one scheduling point decides everything
        ("\tif pp.schedtick%61 == 0 && !sched.runq.empty() {",
         "\tif !simst.on && pp.schedtick%61 == 0 && !sched.runq.empty() {"),
        ("\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {",
         "\tif simst.on {\n\t\tif gp := simPick(pp); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n"
         "\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {"),
        ("func runqput(pp *p, gp *g, next bool) {\n",
         "func runqput(pp *p, gp *g, next bool) {\n\tif simst.on {\n\t\tnext = false\n\t}\n"),
        ("func Gosched() {\n\tcheckTimeouts()\n",
         "func Gosched() {\n\tcheckTimeouts()\n\tif simst.on {\n\t\tmcall(goyield_m)\n\t\treturn\n\t}\n"),
        ("\tnewg.goid = pp.goidcache\n",
         "\tnewg.goid = pp.goidcache\n\tif simst.on {\n\t\tnewg.simid = simst.nextID\n\t\tnewg.simrnd = simhash64(simst.rnd + simst.nextID*0x9e3779b97f4a7c15)\n\t\tsimst.nextID++\n\t}\n"),
        # no preemption and no P hand-off while simulating
        ("func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif simst.on {\n\t\treturn false\n\t}\n"),
        ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simst.on {\n\t\treturn 0\n\t}\n"),
    )
    edit(
        "runtime/rand.go",
        # fixed start-up entropy: hash keys, per-M generators
        ("\tif len(startupRand) >= 16 &&", "\tif true {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i*7 + 1)\n\t\t}\n\t} else if len(startupRand) >= 16 &&"),
        ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simst.on {\n\t\treturn simRandG()\n\t}\n"),
    )
    edit("runtime/select.go", ("cheaprandn(uint32(norder + 1))", "simcheaprandn(uint32(norder + 1))"))
    edit("runtime/sema.go",
         ("s.ticket = cheaprand() | 1", "s.ticket = simcheaprand() | 1"),
         ("func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif simst.on {\n\t\treturn simNow()\n\t}\n"))
    edit("runtime/time.go", ("t.rand = cheaprand()", "t.rand = simcheaprand()"))
    edit("runtime/runtime2.go",
         ("\tgoid         uint64\n", "\tgoid         uint64\n\tsimid        uint64\n\tsimrnd       uint64\n"),
         ("\twaitReasonSynctestWaitGroupWait: true,\n",
          "\twaitReasonSynctestWaitGroupWait: true,\n"
          # everything runs in one bubble, so a goroutine waiting for a lock is
          # blocked for good unless another goroutine or a timer helps it
          "\twaitReasonSyncMutexLock:         true,\n"
          "\twaitReasonSyncRWMutexRLock:      true,\n"
          "\twaitReasonSyncRWMutexLock:       true,\n"
          "\twaitReasonSyncWaitGroupWait:     true,\n"
          "\twaitReasonSemacquire:            true,\n"
          "\twaitReasonSelect:                true,\n"
          "\twaitReasonChanReceive:           true,\n"
          "\twaitReasonChanSend:              true,\n"))
    # ---- synctest.Run for ordinary binaries ------------------------------
    put("testing/synctest/run.go",
        "package synctest\n\nimport \"internal/synctest\"\n\nfunc Run(f func()) { synctest.Run(f) }\n")
    # ---- net: dial and listen go to the simulated network ------------------
    put("net/zsim.go",
        "package net\n\nimport \"context\"\n\n"
        "var SimDial func(ctx context.Context, network, address string) (Conn, error)\n"
        "var SimListen func(network, address string) (Listener, error)\n")
    edit("net/dial.go",
         ("\t// Shadow the nettrace (if any) during resolve so Connect events don't fire for DNS lookups.\n",
          "\tif SimDial != nil {\n\t\treturn SimDial(ctx, network, address)\n\t}\n\n"
          "\t// Shadow the nettrace (if any) during resolve so Connect events don't fire for DNS lookups.\n"),
         ("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
          "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n"
          "\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n"))
    # ---- net/http: a map keyed by address must not decide the closing order ---
    edit("net/http/server.go",
         ("\tfor c := range s.activeConn {\n\t\tc.rwc.Close()\n", "\tfor _, c := range simConns(s.activeConn) {\n\t\tc.rwc.Close()\n"),
         ("\tfor c := range s.activeConn {\n\t\tst, unixSec", "\tfor _, c := range simConns(s.activeConn) {\n\t\tst, unixSec"),
         ("func (s *Server) closeIdleConns() bool {\n",
          "func simConns(m map[*conn]struct{}) (l []*conn) {\n\tfor c := range m {\n\t\tl = append(l, c)\n\t}\n"
          "\tslices.SortFunc(l, func(a, b *conn) int {\n\t\treturn strings.Compare(a.rwc.RemoteAddr().String(), b.rwc.RemoteAddr().String())\n\t})\n\treturn l\n}\n\n"
          "func (s *Server) closeIdleConns() bool {\n"))
    # ---- os: file-system faults, exit; os/exec: child processes ----------------
    add("os/zsim.go", "zsim_os.go")
    add("os/exec/zsim.go", "zsim_exec.go")

    def guard(sig, op, arg, ret, flag="0"):
        return (sig, sig + '\tif err := simfs("%s", %s, %s); err != nil {\n\t\treturn %s\n\t}\n' % (op, arg, flag, ret))

    edit("os/file.go",
         guard("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "open", "name", "nil, err", "flag"),
         guard("func Mkdir(name string, perm FileMode) error {\n", "mkdir", "name", "err"),
         guard("func Rename(oldpath, newpath string) error {\n", "rename", "newpath", "err"),
         ("func Chmod(name string, mode FileMode) error { return chmod(name, mode) }",
          "func Chmod(name string, mode FileMode) error {\n\tif err := simfs(\"chmod\", name, 0); err != nil {\n\t\treturn err\n\t}\n\treturn chmod(name, mode)\n}"),
         ("\tn, e := f.write(b)\n\tif n < 0 {\n",
          "\tif SimFS != nil {\n\t\tm, err := SimFS(\"write\", f.name, 0, len(b))\n\t\tif m < 0 {\n\t\t\treturn len(b), nil\n\t\t}\n"
          "\t\tif err != nil {\n\t\t\tif m > 0 {\n\t\t\t\tm, _ = f.write(b[:m])\n\t\t\t}\n\t\t\tif SimAfter != nil {\n\t\t\t\tSimAfter()\n\t\t\t}\n"
          "\t\t\treturn m, &PathError{Op: \"write\", Path: f.name, Err: err}\n\t\t}\n\t}\n"
          "\tn, e := f.write(b)\n\tif n < 0 {\n"),
         ("\tn, e := f.read(b)\n",
          "\tif SimFS != nil {\n\t\tm, err := SimFS(\"read\", f.name, 0, len(b))\n\t\tif err != nil {\n\t\t\treturn 0, &PathError{Op: \"read\", Path: f.name, Err: err}\n\t\t}\n"
          "\t\tif m >= 0 && m < len(b) {\n\t\t\tb = b[:m]\n\t\t}\n\t}\n\tn, e := f.read(b)\n"),
         ("\tn, handled, e := f.readFrom(r)\n\tif !handled {\n", "\tvar handled bool\n\tvar e error\n\tif SimFS == nil {\n\t\tn, handled, e = f.readFrom(r)\n\t}\n\tif !handled {\n"),
         )
    edit("os/file_unix.go",
         guard("func Remove(name string) error {\n", "remove", "name", "err"),
         guard("func Truncate(name string, size int64) error {\n", "truncate", "name", "err"),
         guard("func Link(oldname, newname string) error {\n", "link", "newname", "err"),
         guard("func Symlink(oldname, newname string) error {\n", "symlink", "newname", "err"))
    edit("os/file_posix.go",
         ("\treturn f.file.close()\n", "\tif SimFS != nil && f.file != nil {\n\t\tif _, err := SimFS(\"close\", f.name, 0, 0); err != nil {\n\t\t\tf.file.close()\n\t\t\treturn &PathError{Op: \"close\", Path: f.name, Err: err}\n\t\t}\n\t}\n\treturn f.file.close()\n"),
         guard("func (f *File) Sync() error {\n", "sync", "f.name", "err"),
         guard("func (f *File) Truncate(size int64) error {\n", "truncate", "f.name", "err"))
    edit("os/path.go", guard("func RemoveAll(path string) error {\n", "removeall", "path", "err"))
    edit("os/stat.go",
         guard("func Stat(name string) (FileInfo, error) {\n", "stat", "name", "nil, err"),
         guard("func Lstat(name string) (FileInfo, error) {\n", "lstat", "name", "nil, err"))
    edit("os/dir.go",
         ("\t_, dirents, _, err := f.readdir(n, readdirDirEntry)\n",
          "\tif err := simfs(\"readdir\", f.name, 0); err != nil {\n\t\treturn nil, err\n\t}\n\t_, dirents, _, err := f.readdir(n, readdirDirEntry)\n"
          "\tif SimDirOrder != nil && n <= 0 {\n\t\tSimDirOrder(len(dirents), func(i, j int) { dirents[i], dirents[j] = dirents[j], dirents[i] })\n\t}\n"),
         ("\t_, _, infos, err := f.readdir(n, readdirFileInfo)\n",
          "\tif err := simfs(\"readdir\", f.name, 0); err != nil {\n\t\treturn nil, err\n\t}\n\t_, _, infos, err := f.readdir(n, readdirFileInfo)\n"
          "\tif SimDirOrder != nil && n <= 0 {\n\t\tSimDirOrder(len(infos), func(i, j int) { infos[i], infos[j] = infos[j], infos[i] })\n\t}\n"),
         ("\tnames, _, _, err = f.readdir(n, readdirName)\n",
          "\tif err := simfs(\"readdir\", f.name, 0); err != nil {\n\t\treturn nil, err\n\t}\n\tnames, _, _, err = f.readdir(n, readdirName)\n"
          "\tif SimDirOrder != nil && n <= 0 {\n\t\tSimDirOrder(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })\n\t}\n"),
         )
    edit("os/proc.go", ("func Exit(code int) {\n", "func Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n"))
    edit("os/exec/exec.go",
         ("func (c *Cmd) Start() error {\n", "func (c *Cmd) Start() error {\n\tif SimRun != nil {\n\t\tc.sim = simRun{true, SimRun(c)}\n\t\treturn nil\n\t}\n"),
         ("func (c *Cmd) Wait() error {\n", "func (c *Cmd) Wait() error {\n\tif c.sim.done {\n\t\treturn c.sim.err\n\t}\n"),
         ("type Cmd struct {\n", "type Cmd struct {\n\tsim simRun\n\n"))
    with open(os.path.join(out, "std.json"), "w") as f:
        json.dump({"Replace": repl}, f, indent=1)


main()
