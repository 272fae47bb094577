"""prep.py REPO SIM S CORPUS: the generator's command as a package of the
worker, and the generator's fixed inputs."""
import glob, os, re, shutil, sys

repo, sim, s, out = sys.argv[1:]
dst = os.path.join(s, "cmdmain")
os.makedirs(dst, exist_ok=True)
for f in glob.glob(dst + "/*.go"):
    os.remove(f)
n = 0
for f in sorted(glob.glob(repo + "/cmd/gotsrpc/*.go")):
    if f.endswith("_test.go"):
        continue
    t = open(f).read()
    t = re.sub(r"(?m)^package main$", "package cmdmain", t)
    t, k = re.subn(r"(?m)^func main\(\)", "func Main()", t)
    n += k
    open(os.path.join(dst, os.path.basename(f)), "w").write(t)
if n != 1:
    sys.exit("no main in cmd/gotsrpc")
open(dst + "/zsim_run.go", "w").write("""package cmdmain

import (
	"flag"
	"os"
)

// Run is one process of the command.
func Run(args []string) {
	os.Args = append([]string{"gotsrpc"}, args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	Main()
}
""")

shutil.rmtree(out, ignore_errors=True)


def put(src, to):
    to = os.path.join(out, to)
    os.makedirs(os.path.dirname(to), exist_ok=True)
    shutil.copyfile(src, to)


for f in os.listdir(repo):
    if f in ("go.mod", "go.sum") or f.endswith(".go") and not f.endswith("_test.go"):
        put(os.path.join(repo, f), "repo/" + f)
for d, ds, fs in os.walk(os.path.join(repo, "example")):
    ds[:] = [x for x in ds if x != "node_modules"]
    for f in fs:
        if f.endswith((".go", ".yml")) and not f.endswith("_test.go"):
            put(os.path.join(d, f), "repo/" + os.path.relpath(os.path.join(d, f), repo))
for d, ds, fs in os.walk(os.path.join(sim, "svc")):
    for f in fs:
        if f.endswith(".go") and not f.endswith("_gen.go"):
            put(os.path.join(d, f), "sim/" + os.path.relpath(os.path.join(d, f), sim))
put(os.path.join(sim, "svc", "gotsrpc.yml.tmpl"), "sim/gotsrpc.yml")
put(os.path.join(s, "go.mod"), "sim/go.mod")
