#!/usr/bin/env python3
"""Systematic mutation: automut.py SPEC OUT [workers]. SPEC: python, JOBS = [(repo file, [checks], optional (first line, last line))].
Every applicable mutation of every code line is tried against the checks until one catches it; survivors are listed in OUT.
Environment: SAMPLE=n (n of them, chosen with SEED), DRY (list only)."""
import os, re, shutil, subprocess, sys, time, queue, threading, json, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec, out = sys.argv[1:3]; NW = int(sys.argv[3]) if len(sys.argv) > 3 else 3
ns = {}; exec(open(spec).read(), ns)
REL = {"<": ["<=", ">"], "<=": ["<", "=="], ">": [">=", "<"], ">=": [">", "=="], "==": ["!=", ">="], "!=": ["==", "<"]}
ARI = {"+": ["-"], "-": ["+"], "*": ["/", "+"], "/": ["*"], "%": ["*"]}
def strip(l):
    l = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + "~" * (len(m.group(0)) - 2) + '"', l)
    l = re.sub(r"'(?:\\.|[^'\\])'", lambda m: "'" + "~" * (len(m.group(0)) - 2) + "'", l)
    i = l.find("//")
    if i >= 0: l = l[:i] + " " * (len(l) - i)
    return l
def mutants(text, lo, hi):
    res = []; incom = False
    lines = text.split("\n"); pos = 0; pending_msg = 0
    gpu = 0; depth = []
    for ln, raw in enumerate(lines, 1):
        start = pos; pos += len(raw) + 1
        l = strip(raw)
        t = l.strip()
        if t.startswith("#if"): depth.append("EKAT_ENABLE_GPU" in t and "ndef" not in t or "SYCL" in t or "CUDA" in t or "MIMIC" in t or "HIP" in t)
        elif t.startswith("#else") or t.startswith("#elif"):
            if depth: depth[-1] = not depth[-1] if t.startswith("#else") and ("x" == "x") and depth[-1] in (True,) else False
        elif t.startswith("#endif"):
            if depth: depth.pop()
        if any(depth): continue
        if "/*" in l: incom = "*/" not in l; continue
        if incom:
            if "*/" in l: incom = False
            continue
        if not (lo <= ln <= hi): continue
        if not t or t.startswith("#") or t.startswith("template") or t.startswith("using ") or "static_assert" in t or "EKAT_REQUIRE" in t and "~" in t and "(" not in t: continue
        if re.search(r"_MSG\s*\($", t): continue
        if t.startswith('"') or re.match(r"^[\"+]", t): continue   # messages
        def add(a, b, new): res.append((start + a, start + b, new, ln))
        # relational
        for m in re.finditer(r"(?<![<>=!\-+*/&|^%])(<=|>=|==|!=|<|>)(?![<>=])", l):
            op = m.group(1)
            if op in "<>":
                # comparison only when surrounded by blanks or simple operands, not a template
                if not (l[m.start() - 1:m.start()] == " " and l[m.end():m.end() + 1] == " ") and not re.search(r"\b(for|if|while|return|assert)\b.*", l[:m.start()]): continue
                if re.search(r"\b(std|typename|static_cast|reinterpret_cast|View|Pack|Mask|enable_if\w*|is_\w+|conditional|TypeList|vector|map|shared_ptr|get|numeric_limits|\w+_t|\w+Type)\s*$", l[:m.start()]): continue
                if l.count("<") == l.count(">") and l.count("<") > 0 and op == ">": continue
            for n in REL[op]: add(m.start(1), m.end(1), n)
        for m in re.finditer(r"(?<![+\-*/&|<>=!^%eE(,])\s([+\-*/%])\s(?!=)", l):
            if m.group(1) in "*" and re.search(r"(const|char|double|int|\w>)\s$", l[:m.start(1)]): continue
            for n in ARI[m.group(1)]: add(m.start(1), m.end(1), n)
        for m in re.finditer(r"(?<=[\w\])])([+\-*/%])(?=[\w(])", l):
            if re.search(r"[eE]$", l[:m.start()]) and re.search(r"\d[eE]$", l[:m.start()]): continue
            if m.group(1) == "*" and re.search(r"\b(const|char|double|int|auto|void|Scalar|T)$", l[:m.start()]): continue
            for n in ARI[m.group(1)]: add(m.start(1), m.end(1), n)
        for m in re.finditer(r"\+\+|--", l): add(m.start(), m.end(), "--" if m.group(0) == "++" else "++")
        for m in re.finditer(r"(\+|-|\*|/)=", l):
            if l[m.end():m.end() + 1] != "=": add(m.start(1), m.end(1), {"+": "-", "-": "+", "*": "/", "/": "*"}[m.group(1)])
        for m in re.finditer(r"&&|\|\||\band\b|\bor\b", l):
            if m.group(0) == "&&" and re.search(r"(\w|>)\s*$", l[:m.start()]) and re.search(r"^\s*\w+\s*[,)]", l[m.end():]) and "if" not in l and "return" not in l and "?" not in l: continue
            add(m.start(), m.end(), {"&&": "||", "||": "&&", "and": "or", "or": "and"}[m.group(0)])
        for m in re.finditer(r"(?<![\w!])!(?=[\w(])|\bnot\b", l): add(m.start(), m.end(), " ")
        for m in re.finditer(r"\btrue\b|\bfalse\b", l): add(m.start(), m.end(), "false" if m.group(0) == "true" else "true")
        for m in re.finditer(r'(?<![\w."<])(\d+)(?![\w.>])', l):
            v = int(m.group(1))
            add(m.start(1), m.end(1), str(v + 1))
            if v > 0: add(m.start(1), m.end(1), str(v - 1))
        for m in re.finditer(r"\b(if|while)\s*\(", l):
            d = 0
            for j in range(m.end() - 1, len(l)):
                d += l[j] == "("; d -= l[j] == ")"
                if d == 0:
                    if "constexpr" in l[m.start():m.end()]: break
                    add(m.end(), j, "!(" + raw[m.end():j] + ")")
                    if m.group(1) == "if": add(m.end(), j, "false"); 
                    break
        # statement deletion
        if t.endswith(";") and not re.match(r"^(return|break|continue|const|constexpr|static|auto|using|typedef|int|bool|double|float|std::|size_t|typename|friend|public|private|struct|class|enum|extern|namespace|char|unsigned|long|virtual|explicit|template|operator|[A-Z]\w*\s+\w+\s*[;({=]|[\w:<>, ]+\s+\w+\s*(=|;|\{))", t) and t.count("(") == t.count(")") and t.count("{") == t.count("}"):
            a = len(raw) - len(raw.lstrip()); add(a, len(l.rstrip()), ";")
        if re.match(r"^(break|continue);$", t): a = len(raw) - len(raw.lstrip()); add(a, len(l.rstrip()), ";")
        for m in re.finditer(r"\b(min|max)\b(?=\s*\()", l): add(m.start(), m.end(), "max" if m.group(0) == "min" else "min")
        for m in re.finditer(r"\b(begin|end|front|back|left|right|first|second|i|j|k|lo|hi)\b", l):
            sw = {"begin": "end", "end": "begin", "front": "back", "back": "front", "left": "right", "right": "left", "first": "second", "second": "first"}.get(m.group(0))
            if sw: add(m.start(), m.end(), sw)
    return res
q = queue.Queue(); todo = []; total = 0; seen = set()
cache = out + ".done"; done = {}
if os.path.exists(cache):
    for l in open(cache): k, r = l.rstrip("\n").split("\t", 1); done[k] = r
for job in ns["JOBS"]:
    f, chks = job[0], job[1]; lo, hi = job[2] if len(job) > 2 else (1, 10 ** 9)
    s = open("/repo/" + f).read()
    for (a, b, new, ln) in mutants(s, lo, hi):
        m = s[:a] + new + s[b:]; h = hashlib.sha256((f + m).encode()).hexdigest()[:20]
        if h in seen or h in done: continue
        seen.add(h); total += 1; todo.append((f, chks, s, m, ln, h, s[:a].split("\n")[-1].strip()[-30:] + "[[" + s[a:b] + "]]->[[" + new + "]]" + s[b:].split("\n")[0][:30]))
import random
random.Random(int(os.environ.get("SEED", "1"))).shuffle(todo)
if os.environ.get("SAMPLE"): todo = todo[:int(os.environ["SAMPLE"])]
for x in todo: q.put(x)
print("%d mutants of %d" % (len(todo), total), flush=True)
if os.environ.get("DRY"):
    while not q.empty(): x = q.get(); print(x[0], x[4], x[6])
    sys.exit()
lock = threading.Lock(); stat = {}
def work(w):
    tag = os.path.basename(out) + "." + str(w)
    T = "/tmp/amrepo." + tag; B = "/tmp/ambuild." + tag
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    for d in ("src", "tests"): shutil.copytree("/repo/" + d, T + "/" + d)
    env = dict(os.environ, EKAT_REPO=T, VERIF_BUILD=B, MC_STOP="1")
    while True:
        try: f, chks, s, m, ln, h, d = q.get_nowait()
        except queue.Empty: break
        open(T + "/" + f, "w").write(m)
        res = "MISSED"; by = ""; t = time.time()
        for c in chks:
            try: r = subprocess.run([sys.executable, V + "/run.py", "check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired: res = "TIMEOUT"; by = c; break
            if r.returncode == 1: res = "caught"; by = c; break
            if r.returncode == 2: res = "NOBUILD" if "BUILD ERROR" in r.stdout else "ERROR"; by = c + " " + (r.stdout[-300:].replace("\n", " ") if res == "ERROR" else ""); break
        open(T + "/" + f, "w").write(s)
        with lock:
            stat[res] = stat.get(res, 0) + 1
            with open(cache, "a") as g: g.write(h + "\t" + res + "\n")
            if res not in ("caught", "NOBUILD"):
                with open(out, "a") as g: g.write("%s %s:%d %s %s (%s, %.0f s)\n" % (res, f, ln, d, by, ",".join(chks), time.time() - t))
            if sum(stat.values()) % 20 == 0: print(stat, "left", q.qsize(), flush=True)
    shutil.rmtree(T, ignore_errors=True); shutil.rmtree(B, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
print("finished", stat, flush=True)
