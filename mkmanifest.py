#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json
SEQ = "bounded exhaustive enumeration of operation/input/fault sequences on the real code against an independent reference model"
SCHED = "stateless model checking of the real code: all schedules and environment answers within pre-emption and deviation bounds"
NOTE_K = ("Every case of the stated finite space is executed on the real crate and compared byte for byte with an independently written schoolbook model, "
          "which itself reproduces the published vectors. Key material is parametrised by VERIF_SEED; the spaces around each key (bits, lanes, residues, object forms) are complete. Trusts SHA3/SHAKE of the sha3 crate.")
NOTE_N = ("All call sequences of the stated alphabets and depths run on the real vru-noise crate (SHA-256/SHA-512/SHA3-256, AES-256-GCM/ChaCha20-Poly1305, both byte orders), "
          "each compared with an independent implementation of the Noise symmetric state that reproduces the 144 applicable published vectors. Trusts the hash and AEAD crates.")
NOTE_S = ("All listed cases run on the real vru-session, vru-noise and vru-kyber crates; parties that break the rules are modelled on the public interface of vru-noise and are validated by also playing the honest part. "
          "Bounded to the stated key holders, messages and depths; the concrete keys come from VERIF_SEED. Trusts SHA3, ChaCha20-Poly1305 and curve25519-dalek.")
NOTE_R = ("All listed cases run on the real rac crate against an independent big-integer model of the groups and encodings that reproduces the RFC 7748, RFC 8032 and SEC 2 vectors it is checked against. "
          "Complete over the stated scalars, nestings, lengths and bit positions. Trusts SHA3 and the curve crates' field arithmetic elsewhere.")
NOTE_T = ("The real code of the threaded crates is copied from /repo's working tree with only the path std replaced by a controlled facade, so every synchronisation, socket, store and time operation is a scheduling point; "
          "all schedules within the stated pre-emption/fault/crash bounds are executed. Trusts: sequentially consistent memory, the facade's model of the operating system (validated against the real one in the check or by litmus programs).")
NOTE_P = "All listed command lines run the real client binary against a real socket; the bytes it writes are then decoded by the node program's real listener code under the controlled facade."
CHECKS = {
 "C01": (SEQ, NOTE_K), "C02": (SEQ, NOTE_K), "C03": (SEQ, NOTE_K), "C04": (SEQ, NOTE_K),
 "C05": (SEQ, NOTE_N), "C06": (SEQ, NOTE_N + " Keys and nonces are read through a recording AEAD plugged in by the public Config trait."), "C07": (SEQ, NOTE_N), "C08": (SEQ, NOTE_N),
 "C09": (SEQ, NOTE_S), "C10": (SEQ, NOTE_S), "C11": (SEQ, NOTE_S), "C12": (SEQ, NOTE_S), "C13": (SEQ, NOTE_S), "C14": (SEQ, NOTE_S),
 "C15": (SEQ, NOTE_R), "C16": (SEQ, NOTE_R), "C17": (SEQ, NOTE_R),
 "C18": (SCHED, NOTE_T), "C19": (SCHED, NOTE_T), "C20": (SCHED, NOTE_T), "C21": (SCHED, NOTE_T), "C22": (SCHED, NOTE_T), "C23": (SCHED, NOTE_T + " The store's crash model is checked against the real sled with killed processes on every run."),
 "C30": (SEQ, "All listed histories of lives of the real node and client binaries, as an unprivileged user in a scratch directory on the real operating system; moments of a kill are those between the program's externally visible steps (C23 covers finer ones)."),
 "C31": (SCHED, NOTE_T), "C32": (SEQ, NOTE_S), "C33": (SCHED, NOTE_T + " The random generator is replaced by a stream of which single bytes are changed."),
 "C24": (SCHED, NOTE_T), "C25": (SCHED, NOTE_T), "C26": (SEQ, NOTE_P), "C27": (SEQ, "All ordered pairs of an alphabet of identities, executed on the real crate."),
}
NA = {
 "C28": "Execution time and memory access patterns are not part of the state space a model checker explores; deciding it needs timing or binary-level analysis.",
 "C29": "Computational indistinguishability quantifies over adversaries' computations, not over executions of this code; no bounded enumeration of executions decides it.",
}
import os
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "properties.jsonl"))]
PENDING = "Check under construction."
m = {
 "version": 1,
 "setup_cmd": "./run.sh --build",
 "checks": [{"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}", "evidence_file": f"evidence/{p}.json",
             "technique": CHECKS[p][0], "level": "model_checking", "level_note": CHECKS[p][1]} for p in props if p in CHECKS],
 "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CHECKS],
 "notes": "No hooks in /repo: libraries are used through their public API, the threaded crates are mirrored at build time with std replaced by a controlled facade. See DESIGN.md.",
}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "MANIFEST.json"), "w"), indent=1)
