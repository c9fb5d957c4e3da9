#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "runtime monitor: account-substitution workload through the entry point, ledger-diff oracle on every instruction",
 "C02": "runtime monitor: signer/delegate workload, oracle over ledger diffs, signer sets and cross-program calls",
 "C03": "runtime monitor: limits placed on, next to and around the observed amounts, ledger-diff oracle",
 "C04": "runtime monitor: full account diff of every instruction in multi-pool histories, conservation oracle",
 "C05": "runtime monitor: overflow-checked build, hostile inputs, unwinding caught at the entry point, hang watchdog",
 "C06": "runtime monitor: single and combined violations of the creation rules, rule oracle read off the ledger",
 "C07": "runtime monitor: raw pool bytes, mint supply and recipient checked after every creation and re-creation attempt",
 "C08": "runtime monitor: trade histories on linear pools, exact big-integer collateral oracle after every event",
 "C09": "runtime monitor: attacker histories on linear pools, conserved-potential oracle with exact integers",
 "C10": "runtime monitor: every trade compared with the exact integral and square root in 1024-bit integers",
 "C11": "runtime monitor: trades around both curve ends through whole instructions, exact oracle on the token movements",
 "C12": "runtime monitor: hostile deposits and withdrawals on linear pools, result and supply oracle",
 "C13": "runtime monitor: swaps through whole instructions compared with an exact reference model, acceptance included",
 "C14": "runtime monitor: fee and mint movements of every swap compared with exact rational worth",
 "C15": "runtime monitor: pool token movements of every withdrawal compared with an exact reference model",
 "C16": "runtime monitor: operation histories, exact value-per-pool-token oracle after every operation",
 "C17": "runtime monitor: two-sided operations compared with exact proportional shares, acceptance included",
 "C18": "runtime monitor: single-sided operations compared with exact formulas in 1024-bit integers",
 "C19": "runtime monitor: swaps compared with an exact product-rule model, acceptance included",
 "C20": "runtime monitor: stable swaps compared with an exact big-integer invariant solver",
 "C21": "runtime monitor: encoder and decoder run on arbitrary states and bytes against an independent layout oracle",
 "C22": "runtime monitor: every arithmetic result compared with exact 1024-bit rational arithmetic, overflow-checked build",
 "C23": "runtime monitor: constrained creations against a rule oracle, plus the production build in a binary of its own",
 "C24": "runtime monitor: pairs of executions from one state compared",
 "C25": "runtime monitor: mirrored account orders and raw instruction bytes, ledger-diff and format oracle",
 "C27": "runtime monitor: pairs of executions in unlike settings with equal pool numbers, compared leg by leg",
 "C28": "runtime monitor: fault injection into succeeding requests, error codes judged against the documented causes",
 "C29": "runtime monitor: values returned by the library's curve objects compared with exact wide-integer values",
 "C30": "runtime monitor: random closed attacks on pools, balances of the attackers before and after",
 "C26": "runtime monitor: compiler coverage callbacks count executed basic blocks per instruction, guided search for costly inputs",
}
N = "held on the executions listed in the evidence file, not proved; "
TR = "trusted: the in-process runtime of the harness (accounts, privileges, rollback), the real SPL token processor it calls, the harness's wide-integer oracle"
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
      "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": N + TR})
m = {"version": 1, "setup_cmd": "./build.sh && ./build.sh production && ./build.sh work", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the monitors drive the program's real entry point (and public API) and observe the ledger from outside. ./check.sh <id> --replay seed:case re-runs one case."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
