"""Writes /verif/MANIFEST.json."""
import json, pathlib
NOTES = {
"C01": "Seeded runs of several agents (API and shell) on one real sandbox, compared step by step with a sequential reference model; interleavings at provider, hook and process waits.",
"C02": "One fault at a chosen storage, provider, loader, hook or disk call per operation; full state compared with the state before; retried without the fault.",
"C03": "Storage contents compared with the model after each acknowledged step; process death at any storage or disk call, then a fresh sandbox on the same backend.",
"C04": "Several sandboxes share a backend; a seeded scheduler interleaves them at every storage call; the history is judged by a versioned-register oracle.",
"C05": "The real FileSystemAdapter on an interposed scratch disk; crash, error, full disk or short write at a chosen I/O call; old-or-new and exact-text oracle by a fresh adapter. Process death only, no power loss.",
"C06": "Links inside and out of the root and hostile paths appear between and during operations; every disk call's resolved target is recorded, mutations outside are refused by the harness.",
"C07": "Recorded hook events compared with the committed changes of the model; raising and re-entrant hooks.",
"C08": "Policy-heavy runs against the model, plus independent monitors on protected contents and listings.",
"C09": "Several agents with different views; exact expected output from the model plus taint tokens in hidden contents.",
"C10": "Snapshots and restores anywhere in a run; full state equality with the model and usability afterwards.",
"C11": "Search and search-view answers compared with a scan by the model after arbitrary histories with the index on or off.",
"C12": "Generated command lines in a faulty world: always a result, stop on failure, session intact.",
"C13": "Generated allowlists, limits and command lines; started processes and handler calls recorded.",
"C14": "Scripted host processes on the materialised copy, other agents acting while they run, process and disk faults.",
"C15": "Every disk and process call recorded per operation; exports compared with the model under disk faults.",
"C16": "Scripted providers with failure schedules and re-entrancy; call log compared with the model.",
"C17": "Clock standing still and jumping both ways; exact timestamp model; disagreements re-run with a steady clock.",
"C21": "Real main() sessions, interactive ones interleaved at their input waits, on shared host directories with outside edits, disk faults, interrupts and kills; compared with a sandbox assembled by hand on twin directories and with the texts plainly written.",
"C18": "Several sandboxes and shells interleaved in one process, each against its own model.",
}
TRUST = " Trusts the reference model and interposer in /verif/sim; assurance is that of the seeds run, not a proof."
done = [c for c in NOTES if (pathlib.Path("/verif/tools/claimed").read_text().split().count(c))]
man = {"version": 1, "setup_cmd": "true",
 "checks": [{"property": c, "quick_cmd": f"bash run.sh {c}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {c}",
   "evidence_file": f"evidence/{c}.json",
   "technique": "deterministic simulation with fault injection: seeded search against a reference model",
   "level": "exploration", "level_note": NOTES[c] + TRUST} for c in done],
 "not_applicable": [{"property": c, "reason": "check not built yet"} for c in NOTES if c not in done] + [
  {"property": "C19", "reason": "Confinement of arbitrary program texts inside one interpreter: no schedule, clock, I/O fault or crash takes part, so seeded simulation decides nothing about it (and curated builtins in CPython are known not to be a security boundary)."},
  {"property": "C20", "reason": "Pure functions of their input: no concurrency, time, I/O or faults for a simulator to control."}],
 "notes": "No hooks in /repo: the simulator uses the existing seams (adapters, providers, hooks) and interposes time, disk and process calls from outside. 'bash run.sh --replay FILE' re-executes a replay file."}
pathlib.Path("/verif/MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
