"""What each check runs, and what it must have observed to count as an answer."""
import glob
import json
import os
import random
import re
import subprocess
import tomllib
from concurrent.futures import ThreadPoolExecutor

ALL8 = ["A", "B", "C", "D", "E", "F", "G", "N"]
DRIVEN = ("Cases are generated from a fixed seed: a protocol phase, provisioning, certificate hierarchy and a mix of well-formed, "
          "boundary, mutated, reordered and hostile messages; each call of the real library is compared with independent models. ")


def plan(quick, rule, need, thorough=None, steps=(), assumptions=(), deep=100):
    """quick: {variant or variant/mode: scale percent}."""
    def runs(tier):
        if tier == "quick":
            todo = quick
        else:
            todo = thorough or {**{v: deep for v in variants(quick)}, "A/plain": deep}
        return [(k.split("/")[0], (k.split("/") + ["checked"])[1], s) for k, s in todo.items()]
    return {"runs": runs, "need": list(need), "rule": rule, "steps": list(steps), "assumptions": list(assumptions)}


def variants(quick):
    """Thorough runs use every configuration in which the property says something."""
    if set(quick) & {"D", "E", "G", "N"}:
        return ALL8
    return ["A", "B", "C", "F"]


ORACLE = "the independent codec, protocol models and SHA-2 of the harness state the property"
RING = "ring's fixed-width P-256 verification and SHA-2 are correct (cross-checked with an own SHA-2)"
CERTS = "the verdict of a certificate path is that of the harness's own path rules over hierarchies it built itself"

# ---------------------------------------------------------------- C24
def raced(job):
    """The same sessions, moved between threads under ThreadSanitizer (library and std instrumented)."""
    quick = job.tier == "quick"
    for v, scale in [("A", 30)] if quick else [("A", 2000), ("N", 1000)]:
        b = job.build(v, "tsan")
        d = job.run(b, v, "C24", job.seed + 1, "quick", scale, 120 if quick else 1500, [], 400 if quick else 3000)
        if d is None:
            raise job.NoAnswer("no workload")
        job.merge(d, f"{v}/tsan")
        k = job.total["counters"]
        k["tsan.library_calls"] = k.get("tsan.library_calls", 0) + d["lib_calls"]
        k["tsan.migrations"] = k.get("tsan.migrations", 0) + d["counters"].get("iso.migrations", 0)


PLAN = {
    "C01": plan({"A": 400, "B": 120, "C": 120},
                DRIVEN + "Non-trivial: an attack or an edit that changed what the requester received, or a chain/signature variation at the accepting step; distinct by the bytes delivered.",
                [r"attack\.control_completed", r"mitm\.authenticated", r"sweep\.refused", r"sweep\.accepted", r"chains\.refused", r"chains\.accepted",
                 r"attack\.chain-hash", r"attack\.const-sig", r"attack\.drop-message", r"attack\.previous-session", r"attack\.other-root", r"attack\.bad-chain", r"attack\.bad-root"],
                assumptions=[ORACLE, RING, CERTS]),
    "C02": plan({"A": 500, "B": 150, "D": 200, "G": 200},
                DRIVEN + "Non-trivial: a whole session of two library endpoints, or of the library and an independent peer; distinct by bytes exchanged.",
                [r"pair\.completed", r"peer\.(authenticated|sessions)"], assumptions=[ORACLE, RING]),
    "C03": plan({"A": 500, "C": 200},
                "Nonces of many sessions, repeated challenges, threads and freshly started processes are collected and compared pairwise, bit by bit and as sequences; recorded responses are replayed into later sessions. Non-trivial: a nonce observed on the wire; distinct by value.",
                [r"nonces\.statistics", r"nonces\.process", r"nonces\.thread", r"nonces\.requester", r"nonces\.responder", r"nonces\.repeated_sessions", r"mitm\.response_attacks"],
                assumptions=["the statistical limits are set so that an ideal source violates them with probability below 1e-12"]),
    "C04": plan({"A": 400, "B": 120, "D": 120},
                DRIVEN + "After every call the transcripts are compared with the concatenation the harness keeps. Non-trivial: a session with restarts, repeated or failing requests, or an edited message; distinct by bytes exchanged.",
                [r"compare\.equal", r"compare\.different", r"pair\.completed", r"peer\.sessions", r"mitm\.end\..*"], assumptions=[ORACLE]),
    "C05": plan({"A": 1000, "D": 300, "N": 200},
                DRIVEN + "Non-trivial: a request sequence; distinct by (phase, request bytes).",
                [r"responder\.Version\.GET_VERSION\.ok", r"responder\..*\.CHALLENGE\.err", r"responder\.Error\..*\.err", r"responder\.IdAuth\.GET_DIGESTS\.ok", r"responder\.Version\.(GET_CAPABILITIES|GET_DIGESTS|CHALLENGE)\.err", r"session\.beyond_256_requests"],
                assumptions=[ORACLE]),
    "C06": plan({"A": 500, "C": 150, "D": 150},
                "A responder is taken through a random history, restarted by reset or GET_VERSION and then compared call by call with a freshly constructed one. Non-trivial: a compared restart; distinct by history.",
                [r"restart\.compared", r"restart\.by_reset", r"restart\.by_get_version", r"restart\.from\.Challenge", r"restart\.from\.Error", r"restart\.beyond_65536", r"pair\.completed"],
                assumptions=[ORACLE]),
    "C07": plan({"A": 1000, "A/plain": 1000, "C": 300, "N": 200},
                DRIVEN + "A panic or a call longer than 60 s is the violation. Non-trivial: a call with a malformed, truncated or out-of-order input; distinct by (phase, bytes).",
                [r"responder\.[A-Za-z]+\.short\.err", r"responder\.Error\..*\.err", r"responder\.Challenge\.CHALLENGE\.ok|responder\.IdAuth\.GET_CERTIFICATE\.ok|responder\.Algorithms\.NEGOTIATE_ALGORITHMS\.ok"],
                assumptions=["a panic anywhere under a library call is observed through the panic hook and unwinding"]),
    "C08": plan({"A": 500, "A/plain": 500, "B": 150, "N": 60},
                DRIVEN + "A panic or a call longer than 60 s is the violation. Non-trivial: a delivered message that is malformed, truncated, out of order or hostile; distinct by (phase, bytes).",
                [r"requester\.[A-Za-z]+\.short\.err", r"requester\.Error\..*\.err", r"requester\.Version\.VERSION\.ok", r"chains\.refused", r"sweep\.refused"],
                assumptions=["a panic anywhere under a library call is observed through the panic hook and unwinding"]),
    "C09": plan({"A": 600, "D": 200, "G": 200},
                DRIVEN + "Non-trivial: a response the model refuses; distinct by (phase, bytes).",
                [r"requester\.refusal\..*", r"order\.refused", r"sweep\.refused", r"sweep\.accepted", r"sweep\.resigned", r"requester\.Error\..*\.err", r"requester\.Version\.[A-Z_]+\.err"],
                assumptions=[ORACLE]),
    "C10": plan({"A": 400, "C": 200, "G": 200, "N": 200},
                "Every one of the 2^15 combinations of base asymmetric and hash offers, and generated requests with every structure mix; the answer is compared with the model's set of legal choices. Distinct by request bytes.",
                [r"responder\.Algorithms\.NEGOTIATE_ALGORITHMS\.ok", r"responder\.Algorithms\.NEGOTIATE_ALGORITHMS\.err"], assumptions=[ORACLE]),
    "C11": plan({"A": 2000, "C": 800, "N": 800},
                "Requests offered and every kind of ALGORITHMS answer (single-field edits, multiple bits, not offered, unknown, reserved). Non-trivial: an ALGORITHMS response differing from the honest one; distinct by bytes.",
                [r"algs\.accepted", r"algs\.refused", r"algs\.completed"], assumptions=[ORACLE]),
    "C12": plan({"A": 3000, "N": 1500},
                "VERSION responses with 0 to 255 entries, any order, any major/minor/update/alpha, truncated and padded. Non-trivial: a VERSION response; distinct by bytes.",
                [r"versions\.accepted", r"versions\.refused"], assumptions=[ORACLE]),
    "C13": plan({"A": 500, "D": 200, "E": 200, "G": 200},
                DRIVEN + "All capability flag words of both sides and the exchanges that follow. Distinct by flags and bytes exchanged.",
                [r"caps\.done\..*", r"responder\.Capabilities\.GET_CAPABILITIES\.ok", r"responder\.Capabilities\.GET_CAPABILITIES\.err", r"pair\.completed"], assumptions=[ORACLE]),
    "C14": plan({"A": 1000, "B": 200, "F": 200, "C": 500, "N": 300},
                "Messages built through the public constructors and messages obtained by decoding are written into buffers of ample, exact and every smaller size with different prior contents; the bytes are compared with an independent encoder. Non-trivial: a write; distinct by message bytes.",
                [r"built", r"written\.(VERSION|ALGORITHMS|DIGESTS|CERTIFICATE|CHALLENGE_AUTH|MEASUREMENTS|ERROR)"], assumptions=[ORACLE]),
    "C15": plan({"A": 500, "B": 150, "F": 150, "C": 250, "N": 150},
                "Well-formed messages of every type, every truncation, single-byte edits, extended and random bodies are decoded and the outcome and every field compared with an independent decoder. Non-trivial: a decode; distinct by bytes.",
                [r"decoded\.(VERSION|NEGOTIATE_ALGORITHMS|ALGORITHMS|DIGESTS|CERTIFICATE|CHALLENGE_AUTH|MEASUREMENTS|ERROR)", r"refused\.(VERSION|NEGOTIATE_ALGORITHMS|ALGORITHMS|DIGESTS|CERTIFICATE|CHALLENGE_AUTH|MEASUREMENTS|ERROR)"],
                assumptions=[ORACLE]),
    "C16": plan({"A": 1200, "B": 300, "C": 400, "D": 200},
                "Every request and response is produced into buffers of ample, exact, one-too-small and arbitrary size with guard bytes on both sides. Non-trivial: a call with a chosen buffer; distinct by (message, size).",
                [r"buffer\.exact", r"buffer\.sufficient", r"buffer\.too_small", r"buffers\.completed", r"buffers\.small", r"buffers\.beyond_16_bits"], assumptions=[ORACLE]),
    "C17": plan({"A": 2000, "B": 600, "C": 800},
                "Every population of the slots with chains of every size up to the limit, every negotiated hash, every slot, offset and length requested. Non-trivial: DIGESTS or CERTIFICATE answered or refused; distinct by request and provisioning.",
                [r"certificate\.slot0\.filled", r"certificate\.slot.\.empty", r"responder\.IdAuth\.GET_DIGESTS\.ok"], assumptions=[ORACLE, RING]),
    "C18": plan({"A": 1000, "B": 300, "C": 400},
                "Repeated challenges of every slot, hash and measurement type; the response, the bytes the signer was asked to sign and the signature are checked. Non-trivial: a challenge; distinct by bytes.",
                [r"challenge\.slot0\.hash1", r"challenge\.slot.\.hash2"], assumptions=[ORACLE, RING]),
    "C19": plan({"A": 1200, "C": 600},
                "An instrumented signer fails, or returns signatures of every wrong length, garbage or of another key, at chosen challenges. Non-trivial: a faulty signing; distinct by (history, fault).",
                [r"signer_fault\.Fail\.refused", r"signer_fault\.Len\(65\)\.refused", r"signer_fault\.Len\(63\)\.refused", r"signer_fault\.elsewhere\.answered"], assumptions=[ORACLE]),
    "C20": plan({"A": 500, "D": 150, "N": 80},
                DRIVEN + "The error code of every refusal is compared with the kind of the violation. Non-trivial: a refusal; distinct by (phase, bytes).",
                [r"responder\..*\.err", r"requester\..*\.err", r"order\.refused"], assumptions=[ORACLE]),
    "C21": plan({"A": 2500, "C": 500, "F": 300, "G": 300},
                "Well-formed, damaged, truncated, over-deep, over-long and random chains are parsed and compared with an independent parser; built chains are written into buffers of every size. Distinct by bytes.",
                [r"chain\.parsed\..*", r"chain\.refused", r"chain\.deepest", r"chain\.too_deep", r"chain\.built"], assumptions=[ORACLE]),
    "C22": plan({"A": 1500, "C": 400},
                "Signature integers of every length and leading-byte shape are encoded and read back by an own DER reader; genuine, damaged, swapped and out-of-range signatures of several keys and messages are verified against ring's fixed-width verifier; chains are verified against own path rules. Distinct by input bytes.",
                [r"der\.within", r"der\.beyond", r"verify\.genuine\.true", r"verify\.flipped\.false", r"verify\.key\.false", r"verify\.message\.false", r"trust\.valid\.true", r"trust\.invalid\.false", r"signer\.made", r"signer\.refused"],
                assumptions=[RING, CERTS]),
    "C23": plan({"A": 2000, "C": 600, "G": 600},
                "Messages of 0 to several thousand bytes, split at random places into update calls, digested with every supported algorithm and compared with an own SHA-2. Distinct by (algorithm, bytes).",
                [r"digest\.1\.split", r"digest\.[24]\.(split|whole)", r"digest\.supported"], assumptions=["the harness's SHA-2 (self-tested against published vectors)"]),
    "C24": plan({"A": 200, "N": 60},
                "The same sessions run alone, interleaved call by call with others, among up to 260 live sessions, on several threads with migration between calls, and in a separate process; every observation is compared. A part runs under ThreadSanitizer. Distinct by schedule.",
                [r"iso\.interleaved", r"iso\.many", r"iso\.alive_together", r"iso\.threads", r"iso\.process", r"iso\.switches", r"iso\.migrations", r"iso\.send", r"iso\.signers", r"iso\.completed", r"tsan\.library_calls", r"tsan\.migrations"], steps=[raced], assumptions=["Send/Sync of the public types is decided by the compiler when the harness is built"]),
    "C25": plan({"A": 300, "F": 60, "N": 60},
                DRIVEN + "A counting global allocator is armed around each library call that the property covers. Non-trivial: an armed call; distinct by (phase, bytes).",
                [r"responder\.Challenge\.CHALLENGE\.ok", r"requester\.Version\.VERSION\.ok", r"built", r"decoded\.opaque", r"store\.refused", r"digest\.1\.split", r"verify\.genuine\.true", r"trust\.invalid\.false", r"long\.full", r"signer_fault\.Fail\.refused"], assumptions=["allocation inside ring/webpki during verification counts as the library's"]),
    "C26": plan({"A": 2000, "A/plain": 1000},
                "Random sequences of Reader and Writer operations over random buffers, and every bit field of every byte pair, compared with an independent bit/byte model. Distinct by operation sequence.",
                [r"reader\.crossing", r"reader\.bits_all", r"reader\.beyond_16_bits", r"writer\.beyond_16_bits", r"reader\..*\.ok", r"reader\..*\.err", r"writer\..*\.ok", r"writer\..*\.err"], assumptions=[ORACLE]),
    "C27": plan({"A": 2000, "C": 600, "F": 100},
                "Random append/clear/clone/compare histories of the transcript store near its capacity, and sessions driven to and over the capacity. Distinct by (fill, size).",
                [r"store\.exact_fill", r"store\.refused", r"store\.clear", r"store\.eq\.true", r"store\.eq\.false", r"transcript\.(overflowed|padded_refused)", r"transcript\.(exactly_full|near_full|padded_ok)", r"long\.full"],
                assumptions=[ORACLE]),
    "C28": plan({"A": 800, "B": 200, "N": 200},
                "Measurement requests, blocks and records at and around every limit, truncated, edited and random, decoded and re-encoded against an independent codec. Distinct by bytes.",
                [r"decoded\.MEASUREMENTS", r"refused\.MEASUREMENTS", r"decoded\.GET_MEASUREMENTS", r"refused\.GET_MEASUREMENTS", r"written\.MEASUREMENTS"], assumptions=[ORACLE]),
    "C29": plan({"A": 2000, "B": 800, "D": 600, "E": 600, "F": 300},
                "Opaque data lists of every registry, count and length, and ERROR messages of every code, whole, truncated, edited and random, decoded and re-encoded against an independent codec. Distinct by bytes.",
                [r"decoded\.opaque", r"refused\.opaque", r"decoded\.ERROR", r"refused\.ERROR", r"decoded\.CHALLENGE_AUTH"], assumptions=[ORACLE]),
}


# ---------------------------------------------------------------- C30
CAPS = ["CERT_CAP", "CHAL_CAP", "ENCRYPT_CAP", "MAC_CAP", "MUT_AUTH_CAP", "KEY_EX_CAP", "KEY_UPD_CAP"]
NAMES = ["NUM_SLOTS", "MAX_CERT_CHAIN_SIZE", "MAX_CERT_CHAIN_DEPTH", "TRANSCRIPT_SIZE", "MAX_DIGEST_SIZE", "MAX_SIGNATURE_SIZE",
         "MAX_OPAQUE_ELEMENT_DATA_SIZE", "MAX_OPAQUE_ELEMENTS", "MAX_MEASUREMENT_BLOCKS", "MAX_MEASUREMENT_SIZE"]


def toml_text(c):
    q = lambda l: "[" + ", ".join(json.dumps(x) for x in l) + "]"
    return (f"version = 0x11\ncapabilities = {q(c['caps'])}\n\n[cert_chains]\nnum_slots = {c['n'][0]}\nbuf_size = {c['n'][1]}\nmax_depth = {c['n'][2]}\n\n"
            f"[transcript]\nbuf_size = {c['n'][3]}\n\n[algorithms]\nmax_digest_size = {c['n'][4]}\nasymmetric_signing = {q(c['asym'])}\n\n"
            f"[measurement]\nmax_blocks = {c['n'][8]}\nmax_size = {c['n'][9]}\n\n[opaque_data]\nmax_elements = {c['n'][7]}\nmax_element_data_size = {c['n'][6]}\n")


def from_toml(path):
    t = tomllib.load(open(path, "rb"))
    return {"n": [t["cert_chains"]["num_slots"], t["cert_chains"]["buf_size"], t["cert_chains"]["max_depth"], t["transcript"]["buf_size"],
                  t["algorithms"]["max_digest_size"], 64, t["opaque_data"]["max_element_data_size"], t["opaque_data"]["max_elements"],
                  t["measurement"]["max_blocks"], t["measurement"]["max_size"]],
            "caps": t["capabilities"], "asym": t["algorithms"]["asymmetric_signing"]}


def legal(c, crypto):
    n = c["n"]
    return (1 <= n[0] <= 8 and 0 <= n[1] <= 65536 and 0 <= n[2] <= 24 and all(x in CAPS for x in c["caps"])
            and all(x == "ECDSA_ECC_NIST_P256" for x in c["asym"]) and (crypto or not c["caps"]))


def random_config(r):
    cl = lambda *v: r.choice(v)
    return {"n": [r.randint(1, 8), cl(0, 1, 512, r.randint(0, 65536), 65535, 65536), cl(0, 1, 4, r.randint(0, 24), 23, 24), r.randint(1, 200000),
                  r.choice([0, 32, 48, 64, r.randint(0, 300)]), 64, r.randint(0, 5000), r.randint(0, 300), r.randint(0, 300), r.randint(0, 70000)],
            "caps": [x for x in CAPS if r.random() < 0.5], "asym": ["ECDSA_ECC_NIST_P256"] if r.random() < 0.8 else []}


def break_config(r, c):
    """One thing wrong with it; returns what."""
    k = r.randint(0, 9)
    if k == 0:
        c["n"][0] = r.choice([0, 9, 10, 16, 255, 256, 264, 2 ** 32 + 1])
        return "number of slots"
    if k == 1:
        c["n"][1] = r.choice([65537, 65538, 70000, 131072, 2 ** 32, 2 ** 32 + 100])
        return "chain buffer"
    if k == 2:
        c["n"][2] = r.choice([25, 26, 32, 256, 257, 2 ** 32 + 1])
        return "chain depth"
    if k in (3, 4):
        bad = r.choice(["CACHE_CAP", "MEAS_CAP", "cert_cap", "CERT_CAP ", " CERT_CAP", "CERT", "", "PSK_CAP", "HBEAT_CAP", "KEY_EX", "CHAL_CAPS", "ENCAP_CAP",
                        r.choice(CAPS) + "X", r.choice(CAPS)[:-1], r.choice(CAPS).lower()])
        c["caps"].insert(r.randint(0, len(c["caps"])), bad)
        return "capability " + repr(bad)
    if k in (5, 6):
        bad = r.choice(["ECDSA_ECC_NIST_P384", "ECDSA_ECC_NIST_P521", "RSASSA_2048", "RSAPSS_2048", "ecdsa_ecc_nist_p256", "ECDSA_ECC_NIST_P256 ", "", "ED25519", "ECDSA_ECC_NIST_P2567"])
        c["asym"].insert(r.randint(0, len(c["asym"])), bad)
        return "signing algorithm " + repr(bad)
    if k == 7:
        c["n"][r.choice([0, 1, 2])] = -1
        return "a negative number"
    # without a crypto provider
    c["caps"] = c["caps"] or [r.choice(CAPS)]
    return "no crypto"


def find_build_script(job):
    e = job.cargo_env("A")
    e["CARGO_TARGET_DIR"] = os.path.join(job.builddir, "checked")
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", "crypto", "--message-format=json"],
                       cwd=os.path.join(job.here, "harness"), env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and "custom-build" in m["target"]["kind"] and m.get("manifest_path", "").startswith(job.repo + "/"):
            for f in m["filenames"]:
                d = os.path.dirname(f)
                for g in [os.path.join(d, "build-script-build")] + glob.glob(os.path.join(d, "build-script-*")) + [f]:
                    if os.path.isfile(g) and os.access(g, os.X_OK) and not g.endswith(".d"):
                        return g
    raise job.NoAnswer("the library's build script was not found")


def run_script(job, script, d, toml, crypto, default=False):
    """Returns (exit status, generated file or None)."""
    os.makedirs(d, exist_ok=True)
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_FEATURE", "SPDM_"))}
    e.update(OUT_DIR=d, CARGO_MANIFEST_DIR=job.repo, CARGO_PKG_NAME="spdm", CARGO_PKG_VERSION="0.1.0", PROFILE="debug", OPT_LEVEL="0", DEBUG="true", NUM_JOBS="1",
             TARGET="x86_64-unknown-linux-gnu", HOST="x86_64-unknown-linux-gnu", RUSTC="rustc", CARGO_CFG_TARGET_OS="linux", CARGO_CFG_TARGET_ARCH="x86_64")
    if not default:
        e["SPDM_CONFIG"] = toml
    if crypto:
        e["CARGO_FEATURE_CRYPTO_RING"] = "1"
        for f in ("RING", "WEBPKI", "RAND", "RING_COMPAT"):
            e["CARGO_FEATURE_" + f] = "1"
    p = subprocess.run([script], cwd=job.repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    f = os.path.join(d, "config.rs")
    return p.returncode, (f if os.path.isfile(f) else None), p.stdout, p.stderr


def diff_config(want, got):
    """want: configuration; got: {n, caps, asym} of the compiled constants."""
    bad = []
    for i, n in enumerate(NAMES):
        if n == "MAX_SIGNATURE_SIZE" and not want["asym"]:
            continue
        if want["n"][i] != got["n"][i]:
            bad.append(f"{n} is {got['n'][i]}, configured {want['n'][i]}")
    for k in ("caps", "asym"):
        if sorted(set(want[k])) != sorted(set(got[k])):
            bad.append(f"{k} {got[k]}, configured {want[k]}")
    return bad


def config_sweep(job):
    """Runs the library's own build script over many configurations and compiles what it generates."""
    script = find_build_script(job)
    r = random.Random(job.seed)
    n = 160 if job.tier == "quick" else 1500
    base = os.path.join(job.builddir, f"c30-{os.getpid()}")
    os.makedirs(base)
    cases = []
    # each limit on its own first
    for i, edge in ((0, range(0, 11)), (1, (0, 1, 65534, 65535, 65536, 65537, 65600, 70000, 100000)), (2, range(0, 30))):
        for v in edge:
            c = from_toml(job.config("A"))
            c["n"][i] = v
            cases.append((c, True, f"{NAMES[i]} = {v}"))
    for cap in CAPS:
        c = from_toml(job.config("A"))
        c["caps"] = [cap]
        cases.append((c, True, cap))
        c = from_toml(job.config("N"))
        c["caps"] = [cap]
        cases.append((c, False, cap + " without crypto"))
        c = from_toml(job.config("A"))
        c["caps"] = [x for x in CAPS if x != cap]
        cases.append((c, True, "all but " + cap))
    while len(cases) < n:
        c = random_config(r)
        crypto = True
        what = "random"
        if r.random() < 0.5:
            what = break_config(r, c)
            if what == "no crypto":
                crypto = False
        elif r.random() < 0.2:
            c["caps"] = []
            crypto = False
        cases.append((c, crypto, what))

    def one(i):
        c, crypto, what = cases[i]
        d = os.path.join(base, f"c{i}")
        os.makedirs(d)
        toml = os.path.join(d, "in.toml")
        with open(toml, "w") as f:
            f.write(toml_text(c))
        return run_script(job, script, d, toml, crypto)

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(cases))))
    # the default configuration
    d = os.path.join(base, "default")
    default = run_script(job, script, d, None, True, default=True)
    cases.append((from_toml(os.path.join(job.repo, "spdm-config.toml")), False, "default configuration"))
    res.append(run_script(job, script, d, None, False, default=True))
    _ = default
    fail = lambda i, m: job.findings.append({"workload": "config-sweep", "case": i, "run": "build-script", "msg": f"{cases[i][2]}: {m}",
                                             "log": [toml_text(cases[i][0]), f"crypto: {cases[i][1]}"]})
    src, want = [], []
    acc = rej = 0
    for i, ((c, crypto, what), (rc, f, out, err)) in enumerate(zip(cases, res)):
        ok = legal(c, crypto)
        if ok and (rc != 0 or f is None):
            fail(i, f"a valid configuration fails the build: {err[-300:]}")
        elif not ok and rc == 0:
            fail(i, "an invalid configuration builds")
        elif ok:
            acc += 1
            src.append(f'#[allow(dead_code)] mod c{i} {{ include!({json.dumps(f)}); }}')
            want.append((i, c))
        else:
            rej += 1
    main = "\n".join(src) + "\nfn l(v: &[&str]) -> String { format!(\"[{}]\", v.iter().map(|s| format!(\"{:?}\", s)).collect::<Vec<_>>().join(\",\")) }\nfn main() {\n"
    for i, _c in want:
        nums = ",".join("{}" for _ in NAMES)
        main += f'    println!("{{{{\\"i\\":{i},\\"n\\":[{nums}],\\"caps\\":{{}},\\"asym\\":{{}}}}}}", ' + ", ".join(f"c{i}::{x}" for x in NAMES) + f", l(&c{i}::CAPABILITIES), l(&c{i}::ALGORITHMS_ASYMMETRIC_SIGNING));\n"
    main += "}\n"
    mp = os.path.join(base, "printer.rs")
    with open(mp, "w") as f:
        f.write(main)
    p = subprocess.run(["rustc", "--edition", "2018", "-A", "warnings", "-o", os.path.join(base, "printer"), mp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        # The generated text need not be a module of its own: whether it compiles is decided by the library.
        m = re.search(r"/c(\d+)/config\.rs", p.stdout)
        ids = [i for i, _ in want]
        some = ids[:: max(1, len(ids) // 8)]
        if m and int(m.group(1)) in ids:
            some.insert(0, int(m.group(1)))
        for i in some:
            toml = os.path.join(base, f"c{i}", "in.toml")
            d2, err = probe(job, 0, toml, cases[i][1])
            if d2 is None and "the build fails" in err:
                fail(i, "the generated configuration does not compile: " + err[-600:])
        job.total["counters"]["config.printed_by_probe"] = len(some)
    else:
        o = subprocess.run([os.path.join(base, "printer")], stdout=subprocess.PIPE, text=True).stdout
        for (i, c), line in zip(want, o.splitlines()):
            for b in diff_config(c, json.loads(line))[:2]:
                fail(i, b)
    t = job.total
    t["evaluations"] += len(cases)
    t["distinct"] += len({json.dumps(c) + str(x) for c, x, _ in cases})
    t["counters"]["config.accepted"] = acc
    t["counters"]["config.rejected"] = rej
    t["samples"] += [f"{w}: {'accepted' if x[0] == 0 else 'refused'}" for (_, _, w), x in list(zip(cases, res))[5:40:9]]
    subprocess.run(["rm", "-rf", base])


def config_dumps(job):
    """The constants compiled into the library, in real builds, against the configuration files."""
    vs = ["A", "C", "F", "N"] if job.tier == "quick" else ALL8
    for v in vs:
        b = job.build(v, "checked")
        p = subprocess.run([b, "CONFIG"], stdout=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise job.NoAnswer("the configuration dump failed")
        for m in diff_config(from_toml(job.config(v)), json.loads(p.stdout)):
            job.findings.append({"workload": "config-dump", "case": 0, "run": f"{v}/checked", "msg": m, "log": [p.stdout]})
        job.total["counters"]["config.builds_compared"] = job.total["counters"].get("config.builds_compared", 0) + 1
        job.total["evaluations"] += 1
    # an invalid configuration fails a real build
    e = job.cargo_env("A")
    e["CARGO_TARGET_DIR"] = os.path.join(job.builddir, "checked")
    c = from_toml(job.config("A"))
    c["n"][0] = 9
    bad = os.path.join(job.builddir, f"bad-{os.getpid()}.toml")
    with open(bad, "w") as f:
        f.write(toml_text(c))
    e["SPDM_CONFIG"] = bad
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", "crypto"], cwd=os.path.join(job.here, "harness"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.remove(bad)
    if p.returncode == 0:
        job.findings.append({"workload": "config-build", "case": 0, "run": "cargo", "msg": "a build with 9 slots succeeds", "log": [p.stdout[-500:]]})
    job.total["counters"]["config.build_refused"] = int(p.returncode != 0)
    job.total["evaluations"] += 1


CAP_BITS = dict(zip(CAPS, (0x2, 0x4, 0x40, 0x80, 0x100, 0x200, 0x4000)))


def probe(job, lane, toml, crypto):
    """Builds the small probe program against the library in one configuration and runs it."""
    e = job.cargo_env("A")
    e["CARGO_TARGET_DIR"] = os.path.join(job.builddir, f"probe{lane}")
    e["SPDM_CONFIG"] = toml
    cmd = ["cargo", "build", "--offline", "--locked"] + (["--features", "crypto"] if crypto else [])
    p = subprocess.run(cmd, cwd=os.path.join(job.here, "probe"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, "the build fails: " + p.stdout[-1500:]
    c = from_toml(toml)
    p = subprocess.run([os.path.join(e["CARGO_TARGET_DIR"], "debug", "probe")] + [str(x) for x in c["n"]],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if p.returncode != 0:
        return None, f"the probe ends with {p.returncode}: {p.stderr[-1000:]}"
    return json.loads(p.stdout), None


def judge_probe(c, crypto, d):
    bad = diff_config(c, d)
    flags = sum(CAP_BITS[x] for x in set(c["caps"]))
    hashes = sum(b for b, n in ((1, 32), (2, 48), (4, 64)) if n <= c["n"][4]) if crypto else 1
    want = {"rsp_flags": flags, "req_flags": flags, "req_hash": hashes, "req_asym": 0x10 if c["asym"] else 0}
    if c["asym"]:
        want["rsp_asym"] = 0x10
    for k, v in want.items():
        if d[k] != v:
            bad.append(f"{k} on the wire is {d[k]:#x}, configured {v:#x}")
    for what, _i, lim, n, got in d["edges"]:
        if got != (n <= lim):
            bad.append(f"{what}: {n} {'accepted' if got else 'refused'} although the configured limit is {lim}")
    return bad


def probe_config(r):
    """A random valid configuration small enough to keep on a stack."""
    return {"n": [r.randint(1, 8), r.choice([600, 1024, r.randint(600, 65536), 65535, 65536]), r.choice([0, 1, 2, 3, r.randint(0, 24), 23, 24]),
                  r.randint(600, 150000), r.choice([32, 33, 48, 63, 64, 65, 80]), 64, r.randint(0, 900), r.choice([0, 1, 2, r.randint(0, 40)]),
                  r.choice([0, 1, r.randint(1, 60)]), r.choice([0, 1, r.randint(1, 4000)])],
            "caps": [x for x in CAPS if r.random() < 0.5], "asym": ["ECDSA_ECC_NIST_P256"]}


def config_probes(job):
    """Real builds in many configurations: what the endpoints announce and do at each limit."""
    r = random.Random(job.seed * 7919 + 5)
    a = from_toml(job.config("A"))
    cases = [(dict(a, caps=[x]), True) for x in CAPS] + [(dict(a, caps=[y for y in CAPS if y != x]), True) for x in CAPS]
    for _ in range(6 if job.tier == "quick" else 120):
        c = probe_config(r)
        crypto = r.random() < 0.75
        if not crypto:
            c["caps"] = []
        cases.append((c, crypto))
    base = os.path.join(job.builddir, f"c30p-{os.getpid()}")
    os.makedirs(base)
    lanes = 3

    def lane(k):
        out = []
        for i in range(k, len(cases), lanes):
            c, crypto = cases[i]
            toml = os.path.join(base, f"p{i}.toml")
            with open(toml, "w") as f:
                f.write(toml_text(c))
            d, err = probe(job, k, toml, crypto)
            out.append((i, d, err))
        return out

    with ThreadPoolExecutor(lanes) as ex:
        res = [x for l in ex.map(lane, range(lanes)) for x in l]
    t = job.total
    cnt = lambda k, n=1: t["counters"].__setitem__(k, t["counters"].get(k, 0) + n)
    if all(d is None for _, d, _ in res):
        raise job.NoAnswer("the probe: " + res[0][2])
    for i, d, err in sorted(res, key=lambda x: x[0]):
        c, crypto = cases[i]
        for m in ([err] if d is None else judge_probe(c, crypto, d))[:3]:
            job.findings.append({"workload": "config-probe", "case": i, "run": "probe", "msg": m, "log": [toml_text(c), f"crypto: {crypto}", json.dumps(d)]})
        cnt("probe.configurations")
        if d:
            cnt("probe.edges", len(d["edges"]))
            cnt("probe.flags_compared", 2)
            t["evaluations"] += len(d["edges"]) + 5
            t["distinct"] += 1
    # the configuration file is edited in place and the library built again
    toml = os.path.join(base, "edited.toml")
    for k in range(2 if job.tier == "quick" else 6):
        c, crypto = probe_config(r), True
        with open(toml, "w") as f:
            f.write(toml_text(c))
        d, err = probe(job, 0, toml, crypto)
        for m in ([err] if d is None else judge_probe(c, crypto, d))[:3]:
            job.findings.append({"workload": "config-edit", "case": k, "run": "probe", "msg": "after the configuration file was edited: " + m,
                                 "log": [toml_text(c), json.dumps(d)]})
        cnt("probe.edited")
        t["evaluations"] += 1
    subprocess.run(["rm", "-rf", base])


PLAN["C30"] = plan({"A": 500, "B": 500, "C": 500, "F": 200, "N": 300},
                   "The library's build script is run over configurations at, around and beyond each limit, random valid ones and ones with a single defect, with and without a crypto provider; the generated constants are compiled and printed; real builds in several configurations dump their constants and are probed at each limit. Distinct by configuration and probed size.",
                   [r"config\.accepted", r"config\.rejected", r"config\.builds_compared", r"config\.build_refused", r"limit\.slot in GET_MEASUREMENTS\.beyond", r"limit\.transcript bytes\.beyond",
                    r"limit\.certificates above the leaf\.within", r"announced\.responder", r"announced\.requester", r"probe\.flags_compared", r"probe\.edited", r"slots\.announced", r"slots\.last_served"],
                   steps=[config_sweep, config_dumps, config_probes], assumptions=["a configuration is within the limits when README and the error texts of build.rs say so"])


# ---------------------------------------------------------------- C31
def again(job, v, mode, w, c, extra):
    """The digests of eight further runs of one case."""
    seen = set()
    f = os.path.join(job.builddir, f"again-{os.getpid()}")
    for _ in range(8):
        job.run(job.build(v, mode), v, "C31", job.seed, "quick", 100, None, ["--only", f"{w}:{c}", "--threads", "1", "--digests", f] + extra, 300)
        if os.path.exists(f):
            seen.add(open(f).read())
            os.remove(f)
    return seen


def profiles(job):
    """Per-case digests of everything observed, compared between builds."""
    quick = job.tier == "quick"
    todo = [("A", 250), ("B", 60), ("N", 60)] if quick else [(v, 400) for v in ALL8]
    for v, scale in todo:
        files = {}
        runs = {"plain": [], "plain, other buffer contents": ["--fill", "90"]}
        for name, mode, extra in (("checked", "checked", []), ("plain", "plain", []), ("plain, other buffer contents", "plain", ["--fill", "90"])):
            b = job.build(v, mode)
            f = os.path.join(job.builddir, f"dig-{os.getpid()}")
            d = job.run(b, v, "C31", job.seed, "quick", scale, None, ["--digests", f] + extra, 800 if quick else 3000)
            if d is None:
                raise job.NoAnswer("no workload")
            job.merge(d, f"{v}/{mode}")
            if os.path.exists(f):
                files[name] = open(f).read().splitlines()
                os.remove(f)
        base = files.get("checked")
        if base is None:
            continue
        for name, other in files.items():
            if name == "checked":
                continue
            n = tried = 0
            for a, b in zip(base, other):
                if a == b or n >= 3 or tried >= 40:
                    continue
                # Nonces and what follows from them (signatures, and whether an edit of one changes
                # it) differ from run to run: a difference counts only if it repeats.
                tried += 1
                w, c, _ = a.split()
                ra, rb = again(job, v, "checked", w, c, []), again(job, v, "plain", w, c, runs[name])
                if ra & rb:
                    job.total["counters"]["profile.chance_differences"] = job.total["counters"].get("profile.chance_differences", 0) + 1
                    continue
                n += 1
                job.findings.append({"workload": w, "case": int(c), "run": f"{v}/plain",
                                     "msg": f"the {name} build of configuration {v} observes something else than the checked build in this case, every time", "log": [a, b]})
            if len(base) != len(other):
                job.findings.append({"workload": "digests", "case": 0, "run": f"{v}/plain", "msg": f"{len(other)} cases instead of {len(base)}", "log": []})
            k = job.total["counters"]
            k["profile.cases_compared"] = k.get("profile.cases_compared", 0) + len(base)


def sanitized(job):
    quick = job.tier == "quick"
    for v, scale in ([("A", 30)] if quick else [("A", 1000), ("N", 300), ("B", 300), ("F", 100)]):
        b = job.build(v, "asan")
        d = job.run(b, v, "C31", job.seed + 1, "quick", scale, 200 if quick else 2400, [], 700 if quick else 4000)
        if d is None:
            raise job.NoAnswer("no workload")
        job.merge(d, f"{v}/asan")
        k = job.total["counters"]
        k["asan.library_calls"] = k.get("asan.library_calls", 0) + d["lib_calls"]


def miri(job):
    quick = job.tier == "quick"
    cells = [("codec.built", 2), ("cursor.writer", 3), ("cursor.reader", 3), ("chain.built", 3), ("chain.any", 1), ("codec.opaque", 2), ("codec.all", 3), ("cursor.store", 1)]
    if not quick:
        cells = [("codec.all", k) for k in range(0, 40)] + [("codec.built", k) for k in range(6)] + [("codec.meas", k) for k in range(8)] + \
            [("codec.opaque", k) for k in range(8)] + [("cursor.reader", k) for k in range(40)] + [("cursor.writer", k) for k in range(40)] + \
            [("chain.any", k) for k in range(20)] + [("chain.built", k) for k in range(12)] + [("rsp.any", k) for k in range(16)] + \
            [("rsp.order", k) for k in range(8)] + [("req.any", k) for k in range(12)] + [("req.order", k) for k in range(8)] + \
            [("pair.honest", k) for k in range(8)] + [("cursor.store", k) for k in range(4)]
    e = job.cargo_env("N")
    e["CARGO_TARGET_DIR"] = os.path.join(job.builddir, "miri")
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    e["MON_CONFIG"] = job.config("N")
    h = os.path.join(job.here, "harness")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--"]

    def one(cell):
        out = os.path.join(job.builddir, f"miri-{os.getpid()}-{cell[0]}-{cell[1]}.json")
        cmd = base + ["C31", "--seed", str(job.seed), "--only", f"{cell[0]}:{cell[1]}", "--threads", "1", "--out", out]
        try:
            p = subprocess.run(cmd, cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400 if quick else 2500)
        except subprocess.TimeoutExpired:
            return cell, None, "timeout"
        d = None
        if os.path.exists(out):
            d = json.load(open(out))
            os.remove(out)
        return cell, d, p.stdout

    # the first one builds
    first = one(cells[0])
    with ThreadPoolExecutor(7) as ex:
        res = [first] + list(ex.map(one, cells[1:]))
    k = job.total["counters"]
    for cell, d, text in res:
        if d is None:
            if "Undefined Behavior" in text:
                job.findings.append({"workload": cell[0], "case": cell[1], "run": "N/miri", "msg": "undefined behaviour reported by Miri", "log": text[-3000:].splitlines()})
            else:
                job.notes.append(f"miri {cell[0]}:{cell[1]}: {text[-300:]}")
            continue
        job.merge(d, "N/miri")
        k["miri.cases"] = k.get("miri.cases", 0) + 1


PLAN["C31"] = {"runs": lambda tier: [], "steps": [profiles, sanitized, miri],
               "rule": DRIVEN + "Each case (responder and requester sessions, whole sessions, codec, cursor, chain and crypto operations) runs in a build with overflow and debug checks and in an optimized build, with different prior contents of all output buffers; a digest of every result, byte, state and transcript is compared case by case. A subset runs under AddressSanitizer and Miri. Distinct by input bytes.",
               "need": [r"profile\.cases_compared", r"asan\.library_calls", r"miri\.cases", r"responder\.Challenge\.CHALLENGE\.ok", r"requester\..*\.ok"],
               "assumptions": ["random nonces and what depends on them are left out of the digests", "Miri runs the build without the crypto provider, whose C and assembly it cannot execute"]}
