#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: run to regenerate it."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("generated gate calls (operand origins, aliasing, all levels) against truth tables and exact output phases", "calibrated upper bound on bootstrap noise (7.5 sigma)"),
 "C02": ("generated gate DAGs against a plaintext model with bitwise snapshots of all earlier values", "same noise bound at every node"),
 "C03": ("generated batches, histories and concurrent batches against the element-wise model", "schedules are sampled (GOMAXPROCS variants, concurrent callers), not enumerated"),
 "C04": ("generated functions/moduli/messages/entry points and bootstrap chains against the function itself", "moduli limited to what each level's noise supports"),
 "C05": ("generated ciphertexts and tables against the table entry selected by an independent index computation", "index computed from the definition; two evaluation paths compared; noise bound 7.5 sigma"),
 "C06": ("generated functions, moduli and table histories, every table position checked against the definition", "up to one position next to a slot boundary is left open when the modulus does not divide the ring degree"),
 "C07": ("round trips and crafted-noise ciphertexts against the nearest-encoding definition", "fresh-noise cases use 8 sigma admissible moduli"),
 "C08": ("generated operation sequences with aliasing against exact phase arithmetic modulo 2^32", "exact oracle, no tolerance"),
 "C09": ("differential: transform-based products against an integer schoolbook product", "floating-point tolerance outside the exact range is a stated multiple of the rounding unit"),
 "C10": ("generated rotations and compositions against the definition of X^k", "exact oracle, no tolerance"),
 "C11": ("generated coefficients/gadgets against digit range and recomposition", "exact oracle, no tolerance"),
 "C12": ("generated external products and CMUX sequences against exact phases with a derived bound", "bound = truncation + 8 sigma key noise + floating-point error"),
 "C13": ("generated ring ciphertexts and keys against the exact coefficient phase", "exact oracle, no tolerance"),
 "C14": ("generated ciphertexts and key-switching keys against exact phases; differential between both forms", "noiseless keys: deterministic bound; real keys: 8 sigma"),
 "C15": ("every entry of generated cloud keys decrypted with the secret key and compared with its definition", "7.5 sigma noise bound per entry"),
 "C16": ("generated re-encryption programs (mode, digits, hops) against exact phases under the target key", "known finding K1: default asymmetric parameters of the 80/110/128-bit levels are too noisy"),
 "C17": ("generated public keys and encryptions against exact phases, collision search over masks", "8 sigma noise bound"),
 "C18": ("generated histories of key generation and encryption with statistical and reproducibility oracles", "uses the real system generator; thresholds have false-alarm probability below 1e-9 per run; unpredictability itself is not testable, only its observable consequences"),
 "C19": ("measured noise moments of generated ciphertexts of every kind against the declared deviation", "two-sided statistical bounds, false-alarm probability below 1e-9; known finding K2"),
 "C20": ("stateful generation of level-switch histories against a plaintext model", "histories over all levels with bootstrapping"),
 "C21": ("generated concurrent programs against the sequential model, under the race detector and without", "schedules are sampled, not enumerated"),
 "C22": ("stateful generation of evaluator histories with bitwise snapshots of every live value", "documented lifetime of temporary results: four slots"),
 "C23": ("generated reals and integers against big-number arithmetic; round trips", "exact oracle"),
 "C24": ("generated switch/getter histories against the documented parameter table, created-object sizes and a derived noise budget", "parameter table pinned from the repository documentation"),
 "C25": ("generated programs of linear operations, lookups, conversions and gates (radix arithmetic among them) against an integer model at every node", "exact phases; noise bound 7.5 sigma; noise-limited lookups counted and not judged"),
 "C26": ("generated operation histories with panicking callbacks; termination watchdog, goroutine count and retained memory compared between two history lengths", "growth below 16 KiB and 60 objects per history is not seen"),
 "C27": ("generated operations evaluated with originals, serialised copies, a second process and objects overwritten in place, compared bitwise", "five levels (memory of several cloud keys)"),
 "C28": ("generated valid and invalid calls against the documented limits; fault injection into the system randomness of fresh processes", "a refusal is a panic or the end of the process"),
 "C29": ("stateful model-based generation of buffer histories, contents and addresses compared after every call", "exact model; transform-domain contents compared after the inverse transform"),
}
checks, na = [], []
for i in sorted(T):
    if os.path.exists(os.path.join(ROOT, "harness", "cmd", i.lower(), "main.go")):
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s thorough" % i,
            technique="property-based testing (rapid, shrinking, replay files): " + tech, level="exploration",
            level_note="Exploration of generated cases only, no proof of absence. " + note[0].upper() + note[1:] + "."))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every check uses the public Go API. Fixed defects and known findings: known_findings.json."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
