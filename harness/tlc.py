"""Running TLC: exhaustive model checking of the MC_* models and trace validation of recorded traces."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def cmd(module, cfg, meta, workers, heap, extra=()):
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    return ["java", gc, f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC",
            "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg, *extra, module]


def run_model(module, cfg, workers=8, heap="4g", timeout=600, scratch=None, extra=()):
    """exhaustive model check; returns dict(ok, states, distinct, out)"""
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=scratch)
    t0 = time.time()
    try:
        p = subprocess.run(cmd(os.path.join(SPEC, module), os.path.join(SPEC, cfg), meta, workers, heap, ("-deadlock", *extra)),
                           capture_output=True, text=True, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as e:
        raise TLCError(f"{module}: TLC timed out after {timeout}s") from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout + p.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    ok = "No error has been found" in out
    return {"ok": ok, "states": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0, "out": out,
            "wall": time.time() - t0, "model": module}


def start_trace(prop, ndjson, scratch, heap="2500m"):
    """start trace validation of one shard, returns a Popen-like handle"""
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=scratch)
    env = dict(os.environ, TRACE_FILE=ndjson, TRACE_PROP=prop)
    out = open(os.path.join(meta, "out.txt"), "w+")
    p = subprocess.Popen(cmd(os.path.join(SPEC, "Trace.tla"), os.path.join(SPEC, "Trace.cfg"), meta, 1, heap, ("-deadlock",)),
                         stdout=out, stderr=subprocess.STDOUT, cwd=meta, env=env)
    return p, out, meta


def finish_trace(h, timeout):
    p, out, meta = h
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired as e:
        p.kill()
        p.wait()
        raise TLCError("trace validation timed out") from e
    out.seek(0)
    text = out.read()
    out.close()
    shutil.rmtree(meta, ignore_errors=True)
    bads, counts, done = [], {}, None
    for line in text.splitlines():
        line = line.strip()
        if line.startswith('"@'):
            line = json.loads(line)
        if line.startswith("@BAD "):
            bads.append(json.loads(line[5:]))
        elif line.startswith("@CNT "):
            d = json.loads(line[5:])
            counts[d["c"]] = counts.get(d["c"], 0) + d["n"]
        elif line.startswith("@DONE "):
            done = json.loads(line[6:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if "No error has been found" not in text or done is None or not m:
        raise TLCError("trace validation did not complete:\n" + text[-4000:])
    return {"bads": bads, "counts": counts, "done": done, "states": int(m.group(2))}
