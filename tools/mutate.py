#!/usr/bin/env python3
# mutate.py BASE WORKDIR WORKERS [file-substring ...]: development tool. Changes single places of the sources in copies of
# BASE (never in /repo itself), runs the harnesses that are relevant for the file over all properties and writes which
# changes nothing noticed to WORKDIR/survivors.
import os, re, sys, subprocess, random, threading, queue as Q, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE, WD, NW = sys.argv[1], sys.argv[2], int(sys.argv[3])
ONLY = sys.argv[4:]
FRAC = float(os.environ.get("FRAC", "1")); SEED = int(os.environ.get("SEED", "1")); CAP = os.environ.get("CAP", "4")
H = [  # file, harnesses in order
    ("src/queue.c", "mc/queue mc/hist mc/server"), ("src/linked_list.c", "seq/list mc/hist"), ("src/tcp_server.c", "mc/hist mc/server"), ("src/dsp_worker.c", "mc/hist mc/server"),
    ("src/sdr_worker.c", "mc/hist mc/server"), ("src/api_utils.c", "seq/wire mc/hist mc/server"), ("src/tcp_utils.c", "mc/hist mc/server"), ("src/server_config.c", "seq/conf"),
    ("src/sdr/iio_lib.c", "seq/conf seq/pluto"), ("src/sdr/file_source.c", "seq/file mc/server mc/hist"), ("src/sdr/plutosdr.c", "seq/pluto mc/hist"), ("src/sdr/sdr_server_client.c", "mc/hist mc/server"),
    ("src/dsp/doppler.c", "seq/doppler mc/hist"), ("src/sgpsdp/sgp_in.c", "seq/tle"), ("src/sgpsdp/", "seq/doppler seq/tle"), ("src/dsp/gfsk_mod.c", "seq/modem seq/dsp"), ("src/dsp/fsk_demod.c", "seq/modem seq/dsp"), ("src/dsp/", "seq/dsp seq/modem"), ("src/math/", "seq/dsp"),
]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r" \+= ", " -= "), (r" -= ", " += "), (r"return -1;", "return 0;"), (r"return 0;", "return -1;"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])0(?![\w.])", "1")]
# OPSET=2: narrower types, exchanged neighbours and names, loops and branches cut short
NARROW = [(r"\buint64_t\b", "uint32_t"), (r"\bint64_t\b", "int32_t"), (r"\buint32_t\b", "uint16_t"), (r"\bsize_t\b", "uint16_t"), (r"\bsize_t\b", "uint8_t"), (r"\bint\b", "short"), (r"\buint16_t\b", "uint8_t"), (r"\bdouble\b", "float"), (r"\bint\b", "unsigned"), (r"\bint64_t\b", "uint64_t"), (r"\bbool\b", "static bool"), (r"\bvolatile \b", ""), (r"\batomic_bool\b", "bool")]
NAMES = [("rx_center_freq", "rx_sampling_freq"), ("tx_center_freq", "tx_sampling_freq"), ("latitude", "longitude"), ("first_free_node", "first_filled_node"), ("last_free_node", "last_filled_node"), ("rx_device", "tx_device"), ("rx_req", "tx_req"), ("buffer_size", "queue_size"), ("input_len", "output_len"), ("rx_dump_file", "demod_file"), ("rx_initialized", "tx_initialized"), ("center_freq", "band_freq"), ("rx", "tx"), ("remainder_offset", "remainder"), ("lpf1", "lpf2"), ("actually_read", "left"), ("working_len", "input_len"), ("history_offset", "skip"), ("next", "data"), ("RX", "TX"), ("INVALID_REQUEST", "INTERNAL_ERROR"), ("SUCCESS", "FAILURE"), ("sin", "cos"), ("sampling_freq", "baud_rate")]
def mutants2(f, rel):
    out = []; lines = open(f).read().split("\n"); st = lambda l: re.match(r"^\s+[^{}#]*;$", l) and not re.match(r"^\s*(return|break|continue|goto|fprintf|printf)\b", l)
    for i, l in enumerate(lines):
        code = l.split("//")[0].rstrip(); s = code.strip()
        if not s or s.startswith("#") or "printf" in s or s.startswith("*"): continue
        for pat, rep in NARROW:
            if re.search(pat, code) and "(" not in code.split("=")[0] or re.search(r"\(" + pat + r"\)", code):
                n = re.sub(pat, rep, code, 1)
                if n != code: out.append((i, n, pat + " -> " + rep))
        for a, b in NAMES:
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(r"\b%s\b" % x, code): out.append((i, code[:m.start()] + y + code[m.end():], x + " -> " + y))
        if re.match(r"^(break|continue);$", s): out.append((i, "", s + " removed"))
        m = re.match(r"^(\s*)while \((.*)\) \{$", code)
        if m: out.append((i, m.group(1) + "if (" + m.group(2) + ") {", "once instead of a loop"))
        m = re.match(r"^(\s*)(\} else )?if \((.*)\) \{$", code)
        if m: out.append((i, m.group(1) + (m.group(2) or "") + "if (1) {", "condition always true"))
        if re.search(r"\bpthread_cond_broadcast\b", code): out.append((i, code.replace("broadcast", "signal"), "signal"))
        if i + 1 < len(lines) and st(code) and st(lines[i + 1].split("//")[0].rstrip()): out.append((i, None, "exchanged with the next line"))
        for m in re.finditer(r"\((\w+), (\w+)([,)])", code): out.append((i, code[:m.start()] + "(%s, %s%s" % (m.group(2), m.group(1), m.group(3)) + code[m.end():], "arguments exchanged"))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            for d in (int(m.group(1)) + 1, int(m.group(1)) - 1):
                if d >= 0 and int(m.group(1)) > 1: out.append((i, code[:m.start()] + str(d) + code[m.end():], "%s -> %d" % (m.group(1), d)))
        for m in re.finditer(r" ([<>]=?|==) (\w[\w>.\-]*)", code):
            if "for" not in code or True: out.append((i, code[:m.end()] + " + 1" + code[m.end():], "compared with one more"))
        for m in re.finditer(r"!(?=\w)", code): out.append((i, code[:m.start()] + code[m.end():], "not -> "))
    return [(rel, i, lines[i], n, w) for i, n, w in out]
def mutants(f, rel):
    if os.environ.get("OPSET") == "2": return mutants2(f, rel)
    out = []; lines = open(f).read().split("\n"); comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            comment = "*/" not in s; continue
        if not s or s.startswith("//") or s.startswith("#") or "printf" in s or s.startswith("*"): continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if rep in ("2", "1") and ("{" in s and "= {" not in s): continue
                if pat in (r" \* ",) and not re.search(r"[\w)\]] \* [\w(]", code[max(0, m.start() - 1):m.end() + 1]): continue
                out.append((i, code[:m.start()] + rep + code[m.end():], pat.strip() + " -> " + rep.strip()))
        if re.match(r"^[\w>\-\.\[\]\*\(\)]+.*;$", s) and not re.match(r"^(return|static|extern|typedef|struct|int|float|double|size_t|uint\w+|int\w+|char|bool|const|goto)\b", s) and s.count("(") == s.count(")") and not re.match(r"^\w+ \*?\w+( =|;)", s):
            out.append((i, re.match(r"^\s*", l).group(0) + ";", "statement deleted"))
        m = re.match(r"^(\s*)(\} else )?if \((.*)\) \{$", code.rstrip())
        if m: out.append((i, m.group(1) + (m.group(2) or "") + "if (0) {", "condition never true"))
    return [(rel, i, lines[i], n, w) for i, n, w in out if n != lines[i]]
def sh(cmd, t, **k):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    except subprocess.TimeoutExpired: return None
work = Q.Queue(); lock = threading.Lock(); os.makedirs(WD, exist_ok=True)
done = set(open(WD + "/done").read().split("\n")) if os.path.exists(WD + "/done") else set()
todo = []
for d, _, fs in os.walk(BASE + "/src"):
    for f in sorted(fs):
        rel = os.path.relpath(os.path.join(d, f), BASE)
        if rel.endswith(".c") and "pb-c" not in rel and "main.c" not in rel and "solar" not in rel and (not ONLY or any(o in rel for o in ONLY)): todo += mutants(BASE + "/" + rel, rel)
random.seed(SEED); random.shuffle(todo); todo = todo[:int(len(todo) * FRAC)]
print(len(todo), "changes", flush=True)
for t in todo: work.put(t)
def hs(rel):
    for p, h in H:
        if rel.startswith(p): return h.split()
    return []
def worker(k):
    w = "%s/w%d" % (WD, k); repo = w + "/repo"
    if not os.path.exists(repo): os.makedirs(w, exist_ok=True); shutil.copytree(BASE + "/src", repo + "/src")
    env = dict(os.environ, REPO=repo)
    while True:
        try: rel, i, old, new, what = work.get_nowait()
        except Q.Empty: return
        key = "%s:%d:%s" % (rel, i + 1, "exchanged" if new is None else new.strip())
        if key in done: continue
        f = repo + "/" + rel; orig = open(BASE + "/" + rel).read(); L = orig.split("\n")
        if new is None: L[i], L[i + 1] = L[i + 1], L[i]
        else: L[i] = new
        open(f, "w").write("\n".join(L)); res = "survived"
        for h in hs(rel):
            e, n = h.split("/"); out = "%s/%s_%s" % (w, e, n)
            r = sh(["bash", "%s/%s/build.sh" % (V, e), out, "%s/%s/h_%s.c" % (V, e, n)], 120, env=env)
            if r is None or r.returncode: res = "does not compile"; break
            open(WD + "/known", "w").write("the last digit of the mean motion is not decoded\n"); extra = ["--cap", CAP] + (["--known", WD + "/known"] if e == "seq" else [])
            r = sh([out + "/harness", "--prop", "ANY", "--tier", "quick", "--jobs", os.environ.get("JOBS", "3")] + extra, 300)
            if r is None: res = "killed by %s (time)" % h; break
            if r.returncode:
                t = r.stdout.decode(errors="replace"); m = re.search(r"FOUND.*", t); res = "killed by %s: %s" % (h, m.group(0)[:200] if m else t[-150:].replace("\n", " ")); break
        open(f, "w").write(orig)
        with lock:
            open(WD + "/done", "a").write(key + "\n")
            open(WD + ("/survivors" if res == "survived" else "/killed"), "a").write("%s:%d [%s] %s\n     was: %s\n     now: %s\n" % (rel, i + 1, what, res, old.strip(), what if new is None else new.strip()))
ts = [threading.Thread(target=worker, args=(k,)) for k in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
