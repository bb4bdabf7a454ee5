#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.abspath(__file__))
P = {
 "C01": ("req.attacks, req.sweep, req.chains, pair.mitm", "`model_req` decides acceptance from the bytes this requester really sent and received, the certificate register and own SHA-2/P-256; a completed session that the model refuses is the violation, and so is an attack class that succeeds", "40 attack classes, pool of ~60 bad hierarchies, edits at every byte", "an attacker's choices are unbounded; tests try one bad signature"),
 "C02": ("pair.honest, pair.peer", "each call must be accepted, completion exactly once, exchange count = what the capabilities call for, transcripts equal", "all hierarchies that fit, all slot populations, up to 3 restarts", "interaction of two sides, chain sizes and options"),
 "C03": ("pair.nonces, pair.starts, pair.mitm", "pairwise distinctness of every nonce seen (sessions, threads, fresh processes), per-bit and per-byte statistics with false-alarm probability < 1e-12, replay of recorded responses", "about 10^5 nonces quick", "freshness is a property of histories"),
 "C04": ("all pair.* and model worlds", "transcripts read back after every call and compared with the concatenation the harness keeps, buffers too small and requests asked again included; pairs of transcripts compared with ==", "restarts, failures, edits; transcripts up to 70000 bytes", "holds after every call of every history"),
 "C05": ("rsp.any, rsp.order, rsp.long", "phase model: accepted exactly when legal, terminated after the first error, state name after every call", "sequences up to 40 requests in every phase, sessions beyond 256 requests", "order x message x history"),
 "C06": ("rsp.restart_diff, rsp.restarts, pair.honest", "restarted responder against a newly built one, call by call, with buffers too small before and after the restart", "restart in every phase, after faults and full transcripts; 66,000 restarts of one responder", "leftovers show only after particular histories"),
 "C07": ("rsp.any, rsp.order, rsp.sweep", "panic hook + unwinding, overflow checks, 60 s CPU watchdog; state must still be readable and reset must work", "bytes of any length up to 70000, buffers 0..4096", "all byte strings"),
 "C08": ("req.any, req.order, req.sweep, req.chains, req.long", "as C07 for the requester", "as C07, hostile certificates included", "all byte strings, hostile peer"),
 "C09": ("req.any, req.order, req.sweep", "model refuses -> error, error state, nothing works afterwards; completion stable; edits before signing included", "every position of every response, re-signed", "any response, any later call"),
 "C10": ("rsp.algs, rsp.algs_all", "answer in the model's set of legal selections; one bit, offered, supported; same structure order", "2^15 base offers exhaustively + random structures", "combinatorial offers"),
 "C11": ("req.algs", "offer equals configuration; acceptance iff each selection is one bit of the offer", "single and double edits, exactly one selection outside the offer, unknown and repeated structures", "any answer"),
 "C12": ("req.versions", "highest common version of the list or error", "0-255 entries, all fields", "any list"),
 "C13": ("rsp.caps, req.caps, pair.honest", "advertised words = configuration; remembered words; phases run", "all flag bits, 4 configurations", "flag combinations x exchanges"),
 "C14": ("codec.all, codec.built", "bytes = independent encoder, chains, opaque and measurement records included; the names of the flag constants against a table from the specification; poisoned buffers of ample, exact and each smaller size; nothing beyond the size touched", "all message types, records beyond 64 KiB (F)", "any field values"),
 "C15": ("codec.all, codec.built, rsp.any, req.any", "independent three-valued decoder; re-encoding gives the input back", "truncation at each byte, edits at each byte", "any bytes"),
 "C16": ("rsp.buffers, req.buffers", "canaries around the buffer, exact-fit must succeed, one less must fail cleanly, retry gives the same request", "every message x size around the need", "size x phase x history"),
 "C17": ("rsp.ident", "mask, own SHA-2 of own serialization per slot; served bytes", "all populations of 8 slots, chains to the limit", "population x hash x size"),
 "C18": ("rsp.challenges", "response fields, signer's log, own verification over own transcript", "up to 30 challenges per session", "history-dependent signature"),
 "C19": ("rsp.faults", "fault injection in the signer; response class, log, reset afterwards", "lengths 0..1024, garbage, foreign key, n-th challenge", "fault points"),
 "C20": ("rsp.any, req.any, req.order", "error message complete and decodable; code by kind of violation; expected/got codes", "every refusal seen", "any refusal"),
 "C21": ("chain.any, chain.built, req.chains", "independent chain splitter; rebuild; all buffer sizes", "up to 65535 bytes, 25 certificates, all DER length forms", "any bytes"),
 "C22": ("crypto.encode, crypto.verify, crypto.trust, crypto.signer, req.chains", "own DER reader gives the two integers back minimally; verification = ring's fixed-width verifier; chains = own path rules", "all leading-byte shapes; ~60 bad hierarchies", "numeric corner cases"),
 "C23": ("crypto.digests", "own SHA-2", "0..140000 bytes, lengths around every power of two, any split", "any data, any split"),
 "C24": ("iso.types, iso.interleaved, iso.threads, iso.process", "each session's observations = the same session alone; Send decided as a value at compile time", "3-8 sessions (hundreds in iso.many), 2-4 threads, migration", "schedules"),
 "C25": ("rsp.any, req.any, codec.*", "counting global allocator armed around each library call of every workload, certificate and signature checks included", "every call incl. error paths", "all paths"),
 "C26": ("cursor.reader, cursor.writer, cursor.bits_all", "independent bit/byte cursor", "random sequences, all 65536 byte pairs", "operation sequences"),
 "C27": ("cursor.store, rsp.long, rsp.exact_fill, req.long", "model store; sessions driven to the last byte of capacity", "capacities 1200..70000", "long histories"),
 "C28": ("codec.meas", "independent codec", "blocks and sizes at each limit", "any block mix"),
 "C29": ("codec.opaque", "independent codec; ERROR of every code and data shape", "all registries, counts, paddings; elements beyond 255 bytes, up to 20x300 and 2x1012 (B, D, E)", "any list"),
 "C30": ("config sweep, config dumps, config probes, config.limits", "the library's own build script is run over configurations, generated constants compiled and printed; real builds probed at limit-1, limit, limit+1, +2 and for what they announce; edited files must be picked up", "160 configurations through the script, 20+ real builds (quick)", "the set of configurations is unbounded, tests have two"),
 "C31": ("profiles, AddressSanitizer, Miri", "per-case digests of everything observed, compared between a checked and an optimized build and with other buffer contents; ASan over the same workloads; Miri over library calls without ring", "about 10^5 cases compared", "undefined behaviour and wrapping show only in particular builds and inputs"),
}
head = open(os.path.join(H, "design_head.md")).read()
tail = open(os.path.join(H, "design_tail.md")).read()
# the workloads that decide a property, from the table the harness itself uses
table = {}
for l in open(os.path.join(H, "..", "harness", "src", "props", "mod.rs")):
    m = re.match(r'\s*(?:all\.push\()?\("([a-z_.0-9]+)", [a-z_0-9:]+, \d+, &\[(.*)\]\)', l)
    if m:
        for t in re.findall(r'"(C\d\d)"', m.group(2)):
            table.setdefault(t, []).append(m.group(1))
extra = {"C30": ["configuration sweep", "configuration dumps", "probes"], "C31": ["profiles (checked against optimized builds)", "AddressSanitizer", "Miri"],
         "C24": ["ThreadSanitizer"], "C03": ["ThreadSanitizer"]}
titles = {}
for l in open(os.path.join(H, "..", "properties.jsonl")):
    p = json.loads(l); titles[p["id"]] = p["title"]
out = [head, "\n## 3. Properties\n"]
for k, (w, o, b, t) in P.items():
    w = ", ".join(table.get(k, []) + extra.get(k, []))
    out.append(f"**{k} {titles[k]}.** Runs: {w}. Oracle: {o}. Bounds: {b}. Beyond tests: {t}.\n")
out.append("**C32** is not claimed: timing independent of key material is not a property of the values an execution shows, the arithmetic happens in ring's assembly and in the user's signer, and a statistical timing test in this shared sandbox could not be both sensitive and free of false alarms.\n")
m = os.path.join(H, "matrix.txt")
rows = []
for l in open(m):
    a = l.split(None, 4)
    if len(a) >= 4 and a[2].startswith("rc="):
        rows.append((a[0], a[1], "caught" if a[2] == "rc=1" else "missed", a[3], a[4].strip()[:110] if len(a) > 4 else ""))
out.append(f"\n## 4. Planted bugs\n\n{len(rows)} changes in `seeded/` (each compiles, passes the 93 tests and has a demonstration), each run against the quick check of its property; "
           f"{sum(r[2] == 'caught' for r in rows)} are caught. Times include the rebuild on a loaded machine.\n\n| change | check | outcome | time | first finding |\n|---|---|---|---|---|\n")
for r in rows:
    f = r[4].replace("|", "/")
    out.append(f"| {r[0]} | {r[1]} | {r[2]} | {r[3]} | {f} |\n")
out.append(tail)
open(os.path.join(H, "..", "DESIGN.md"), "w").write("".join(out))
