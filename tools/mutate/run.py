#!/usr/bin/env python3
"""Runs the changes that mutate lists (muts.jsonl) on copies of /repo.

  run.py tests MUTS OUT WORKERS           writes those that compile and pass the tests of /repo
  run.py checks SURVIVORS OUT WORKERS     runs the checks of the properties anchored in the changed file, writes the outcome
"""
import json, os, queue, shutil, subprocess, sys, threading

PROPS = {
    "code/api.go": "C31", "code/statements.go": "C30", "code/types.go": "C30", "conv/": "C03 C01 C02 C04",
    "encoding/json/parse/lex.go": "C11 C13 C12", "encoding/json/parse/parse.go": "C11 C13", "encoding/json/search.go": "C14", "encoding/json/value.go": "C14 C12",
    "encoding/json/write/write.go": "C12", "event/event.go": "C24", "funcs/funcs.go": "C22 C23 C28 C29 C07 C24", "io/io.go": "C21", "io/writer/": "C21",
    "iter/gen.go": "C16 C15", "iter/iter.go": "C15", "math/decimal.go": "C08 C09 C10 C07", "math/math.go": "C05 C06 C07", "math/range.go": "C07",
    "reflect/reflect.go": "C27 C26", "rest/": "C25", "stream/stream.go": "C17 C18 C20 C19", "tuple/": "C26", "union/reflect": "C26 C27", "union/union.go": "C26",
    "strukt/": "",
}
ENV = ". /opt/vp/env.sh; cd $OLDPWD; export GOTOOLCHAIN=local GOPROXY=off GOWORK=off; ulimit -v 16000000; export GOCACHE=/tmp/mutcache GOMAXPROCS=1; "


def sh(c, cwd, t):
    p = subprocess.Popen(c, shell=True, executable="/bin/bash", cwd=cwd, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def main():
    mode, src, dst, workers = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    muts = [json.loads(l) for l in open(src)]
    key = lambda m: (m["file"], m["start"], m["end"], m["new"])
    done = set()
    if os.path.exists(dst):
        done = {key(json.loads(l)) for l in open(dst)}
    q = queue.Queue()
    for m in muts:
        if key(m) not in done:
            q.put(m)
    lock = threading.Lock()
    deps = {}
    out = open(dst, "a")

    def work(i):
        w = "/tmp/mw%s%d" % (mode, i)
        shutil.rmtree(w, ignore_errors=True)
        sh("git clone -q /repo " + w, "/", 60)
        if mode == "checks":
            vc = w + "v"
            shutil.rmtree(vc, ignore_errors=True)
            os.makedirs(vc)
            sh("cp -a /verif/bin /verif/harness /verif/known_findings.txt " + vc, "/", 60)
            g = vc + "/harness/go.mod"
            t = open(g).read()
            open(g, "w").write(t.replace("=> /repo", "=> " + w))
            g = vc + "/bin/check.py"
            t = open(g).read()
            open(g, "w").write(t.replace('"quick_shards", 3', '"quick_shards", 1'))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(w, m["file"])
            orig = open(p, "rb").read()
            assert orig[m["start"]:m["end"]].decode() == m["old"], m
            open(p, "wb").write(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
            try:
                if mode == "tests":
                    pkg = "./" + os.path.dirname(m["file"])
                    rc, o = sh(ENV + "go test -vet=off " + pkg, w, 60)
                    if "[build failed]" in o or "[setup failed]" in o:
                        m["result"] = "compile"
                    elif rc != 0:
                        m["result"] = "killed"
                    else:
                        if pkg not in deps:
                            o = sh(ENV + "go list -f '{{.ImportPath}} {{join .Deps \" \"}} {{join .TestImports \" \"}} {{join .XTestImports \" \"}}' ./...", w, 60)[1]
                            full = "github.com/bantling/micro/" + pkg[2:]
                            deps[pkg] = " ".join(l.split()[0] for l in o.splitlines() if full in l.split()[1:])
                        rc = 0
                        if deps[pkg]:
                            rc, o = sh(ENV + "go test -vet=off " + deps[pkg] + " > /dev/null 2>&1", w, 120)
                        m["result"] = "survives" if rc == 0 else "killed"
                else:
                    props = ""
                    for k, v in PROPS.items():
                        if m["file"].startswith(k):
                            props = v
                            break
                    m["result"] = "missed"
                    m["by"] = ""
                    for pr in props.split():
                        rc, o = sh("python3 bin/check.py " + pr, vc, 850)
                        if rc == 1 and "VIOLATION property=" + pr in o:
                            m["result"], m["by"] = "caught", pr
                            break
                        if rc != 0:
                            m["result"] = "noanswer"
                            m["by"] += " %s:%s" % (pr, rc)
            finally:
                open(p, "wb").write(orig)
            with lock:
                out.write(json.dumps(m) + "\n")
                out.flush()
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + "v", ignore_errors=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
