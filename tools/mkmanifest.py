#!/usr/bin/env python3
"""Writes MANIFEST.json; run in /verif after editing."""
import json
T = "deterministic simulation: seeded search over schedules and injected faults"
trust = (" Trusted: the simulator (sim/simrt, simsync, simatomic, ...), the instrumenter and the oracles; "
         "what the Go runtime itself does below them. Sampling, not proof: it says nothing about schedules and inputs not drawn.")
checks = {
 "C01": ("; history judged by a just-in-time linearizability checker",
  "Every sampled interleaving (at statement granularity) of 2-4 callers of one Merger, with and without the provided or a user cache, with stalling and failing streams, is linearizable against a sequential twin of the same code and, for simple sheets, an independent model; sheets are chosen so that a part of one is visible in an answer."),
 "C02": ("; freshness of every answer against sequential states",
  "In every sampled interleaving each Merge that starts after an AddRules returned nil is answered from a state that includes that stylesheet, under all cache kinds, including entries computed while the load ran."),
 "C03": ("; linearizability of SimpleCache histories, race detector under the simulated schedule",
  "Every sampled interleaving of up to 4 callers of a real SimpleCache (sync.Map and locks behind the simulator) is linearizable to a map that Clear empties; no race is reported by the Go race detector along the schedule."),
 "C04": ("; happens-before race detection, deadlock and crash detection under the simulated schedule",
  "No sampled interleaving has a data race as the Go race detector defines it (the simulator hides its own hand-overs from it), a deadlock, a crash or an unbounded spin."),
 "C05": ("; twin without the failed load",
  "After every sampled load that failed (read error at a drawn point, or a rejected sheet) all answers of Merge and Rules equal those of a twin that never saw it; the retried load takes its normal effect."),
 "C06": ("; twin fed from a plain in-memory reader",
  "For every sampled delivery (chunking, empty reads, EOF with data, scratch use of the buffer, extra reader methods) answers equal those of plain delivery of the same bytes."),
 "C07": ("; damage injection, step budget as the hang detector",
  "Every sampled damaged stream (torn, lost, repeated, swapped, zeroed blocks, flipped bytes, mixed files, deep nesting on a small stack) ends within a step budget proportional to its length, without a panic or a dead process, and leaves the Merger usable and unmentioned classes answered as before."),
 "C08": ("; stalled tasks, quiescence analysis, panic injection",
  "In every sampled interleaving no call is found waiting while only stalled streams remain, and an injected panic of a stream or user cache reaches its own caller only and changes nothing; all other calls complete."),
 "C09": ("; guard bytes around and inside the caller's memory, overwritten after the call",
  "Along every sampled run the caller's array and its surroundings are unchanged whenever the simulator looks (every read, every switch, at the end), and overwriting them after the call changes no answer."),
 "C10": ("; uncached twin",
  "In every sampled run, with the provided cache or a lossy user cache, every answer equals that of an uncached Merger with the same stylesheets, for lists that are near misses of one another."),
 "C11": ("; same calls under varied schedules, map orders and restarts",
  "Every answer is byte-identical across repeats, concurrent callers, several schedules and map iteration orders per seed, and a restart."),
 "C12": ("; twins in separate Mergers and caches",
  "In every sampled interleaving of callers of 2-3 Mergers and caches, each one's history is that of the same calls made on it alone."),
 "C13": ("; refinement of the whole load by its pieces, crash and restart",
  "For every sampled sheet, cut points, failed attempts, repeats and crashes, loading in pieces answers as loading whole, and a restart recovers the same answers."),
 "C14": ("; goroutines, stream reads and cache calls after each return observed by the simulator",
  "In every sampled run, with failing, stalling and panicking streams and caches, no goroutine of the library is left waiting once all calls have returned, and no stream is read and no user cache called on behalf of a call that has returned."),
 "C15": ("; maps returned by Rules compared with themselves later in the run",
  "In every sampled interleaving of loads, failed loads and merges, each map that Rules returned reads the same at drawn later moments and at the end as at its return."),
 "C16": ("; the same concurrent calls repeated under ever new schedules, live heap and steps per call measured",
  "For every sampled set of calls, repeated 20-40 times and up to 640 times when a measurement grows, neither the live heap nor the steps of a fixed set of calls keeps growing."),
}
na = {
 "C20": "A pure function of the loaded rules and one class list in one call: no schedule, clock, I/O, fault or second party can influence it, so simulation has nothing to vary. (What concurrency, caching, repetition and delivery could do to it is decided by C01, C02, C10 and C11.)",
 "C21": "As C20: a relation between the input and output of one pure call.",
 "C22": "As C20: how conditions enter the conflict key is decided by the sheet's text alone.",
 "C23": "As C20: !important handling is a pure function of the declarations.",
 "C24": "As C20: custom-property tracking is a pure function of the declarations and the list.",
 "C25": "A pure function on selector text with no state, schedule or I/O.",
 "C26": "A pure function of a selector and a document tree; nothing in it depends on scheduling, time, I/O or faults.",
 "C27": "A fixed embedded table: deciding it means comparing it with the CSS specifications, not running anything under faults.",
 "C28": "As C20: a relation between two pure calls on the same state. That equal calls give equal answers is C11.",
}
m = {"version": 1, "setup_cmd": "true",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"./check.sh {k} -tier thorough",
   "technique": T + v[0], "level": "exploration", "level_note": v[1] + trust} for k, v in checks.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "No hooks in /repo: the seams (sync, atomics, maps, goroutines, clocks, randomness, statement-level yields) are put into a scratch copy of the current tree by sim/instr at every run, so the shipped code is unchanged. Repairs of defects are the fix: commits; see known-findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
