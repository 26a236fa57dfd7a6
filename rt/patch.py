#!/usr/bin/env python3
"""Writes patched copies of a few Go runtime files and an overlay JSON.
usage: patch.py GOROOT OUTDIR   (extra overlay entries may be merged by the caller)"""
import json, os, sys
goroot, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
rt = os.path.join(goroot, "src/runtime")
os.makedirs(out, exist_ok=True)
replace = {}
def patch(name, edits):
    p = os.path.join(rt, name)
    s = open(p).read()
    for old, new in edits:
        if s.count(old) != 1:
            sys.exit(f"patch.py: anchor found {s.count(old)} times in {name}: {old!r}")
        s = s.replace(old, new)
    q = os.path.join(out, name)
    open(q, "w").write(s)
    replace[p] = q

patch("proc.go", [
 ("func runqget(pp *p) (gp *g, inheritTime bool) {\n",
  "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\treturn simRunqget(pp), false\n\t}\n"),
 ("\t\trunqput(pp, gp, true)\n\t} else {\n\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)",
  "\t\trunqput(pp, gp, true)\n\t} else if simOn && gp.bubble != nil {\n\t\trunqput(pp, gp, false)\n\t} else {\n\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)"),
 ("const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"),
 ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n"),
 ("\t\tnewg.bubble = callergp.bubble\n", "\t\tnewg.bubble = callergp.bubble\n\t\tnewg.simID = 0\n\t\tif simOn && newg.bubble != nil {\n\t\t\tsim.nextID++\n\t\t\tnewg.simID = sim.nextID\n\t\t}\n"),
])
patch("rand.go", [
 ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\tif x, ok := simRand(); ok {\n\t\t\treturn x\n\t\t}\n\t}\n"),
 ("\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tstartupRand = simStartup[:]\n"),
])
patch("select.go", [
 ("\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simSelect(uint32(norder))\n"),
 ("\tif debugSelect {\n\t\tprint(\"select: cas0=\", cas0, \"\\n\")\n\t}\n",
  "\tif simOn {\n\t\tsimPoint()\n\t}\n\tif debugSelect {\n\t\tprint(\"select: cas0=\", cas0, \"\\n\")\n\t}\n"),
])
patch("chan.go", [
 ("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n",
  "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tif simOn {\n\t\tsimPoint()\n\t}\n"),
 ("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n",
  "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tif simOn {\n\t\tsimPoint()\n\t}\n"),
 ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tif simOn {\n\t\tsimPoint()\n\t}\n"),
])
patch("synctest.go", [
 ("\tif total != 1 {\n", "\tif total != 1 && simOn {\n\t\tsim.deadlock = !bubble.done\n\t\treturn\n\t}\n\tif total != 1 {\n"),
])
patch("time.go", [
 ("\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simTimerRand()\n"),
])
patch("sema.go", [
 ("func internal_sync_nanotime() int64 {\n\treturn nanotime()\n}",
  "func internal_sync_nanotime() int64 {\n\tif simOn {\n\t\treturn 0\n\t}\n\treturn nanotime()\n}"),
])
patch("runtime2.go", [
 ("\tvalgrindStackID uintptr\n", "\tvalgrindStackID uintptr\n\tsimID           uint64 // index of a simulated goroutine within its run\n"),
 ("func (w waitReason) isIdleInSynctest() bool {\n",
  "func (w waitReason) isIdleInSynctest() bool {\n\tif simOn {\n\t\tswitch w {\n\t\tcase waitReasonChanReceive, waitReasonChanSend, waitReasonSelect, waitReasonSyncMutexLock,\n\t\t\twaitReasonSyncRWMutexRLock, waitReasonSyncRWMutexLock, waitReasonSemacquire, waitReasonSyncWaitGroupWait:\n\t\t\treturn true\n\t\t}\n\t}\n"),
])
p = os.path.join(out, "zsim.go")
open(p, "w").write(open(os.path.join(here, "sim.go")).read())
replace[os.path.join(rt, "zsim.go")] = p
json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
