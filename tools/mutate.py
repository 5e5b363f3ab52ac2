#!/usr/bin/env python3
"""Development aid: systematic small mutants of the code under test, to find what the checks do not see.

usage: mutate.py WORKDIR [--slots N] [--only FILE-SUBSTRING] [--every K] [--offset J] [--second]
Writes WORKDIR/results.txt: one line per mutant (caught by which property, or SURVIVED, or no build).
"""
import os, re, shutil, subprocess, sys, threading, queue, random

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAP = [
    ("libCrashDebug/src/CrashCatcherDump.c", "C01 C03 C02 C27 C26 C09 C10"),
    ("libCrashDebug/src/GdbLogParser.c", "C04 C05 C26 C27 C09"),
    ("libCrashDebug/src/ElfLoad.c", "C06 C07 C26 C27 C09 C10"),
    ("libCrashDebug/src/CrashDebugCommandLine.c", "C08 C09 C10 C25 C26 C27"),
    ("libCrashDebug/src/MemorySim.c", "C11 C12 C13 C14 C15 C16 C26 C18 C22"),
    ("libCrashDebug/src/mriPlatform.c", "C17 C18 C19 C20 C21 C22 C24"),
    ("libCrashDebug/src/StandardIComm.c", "C23 C24"),
    ("main/main.c", "C25 C24"),
    ("main/MockDefaults.c", "C24 C25"),
    ("libcommon/src/try_catch.c", "C28"),
    ("libcommon/src/common.c", "C29 C10 C27"),
    ("include/try_catch.h", "C28 C26 C27"),
    ("libmocks/src/MallocFailureInject.c", "C30"),
    ("libmocks/src/printfSpy.c", "C31"),
    ("libmocks/src/FileFailureInject.c", "C32"),
    ("libCrashDebug/mocks/mockConsole.c", "C33"),
    ("libCrashDebug/mocks/mockIComm.cpp", "C33"),
]

OPS = [(r"<=", ["<", ">"]), (r">=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]), (r"(?<![<\-])<(?![<=])", ["<="]), (r"(?<![\->])>(?![>=])", [">="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<=\w|\)) \+ ", [" - "]), (r"(?<=\w|\)) - ", [" + "]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]),
       (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r"(?<!&) & (?!&)", [" | "]), (r"(?<!\|) \| (?!\|)", [" & "]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\|=", ["="]), (r"&=", ["="]),
       (r"\bTRUE\b", ["FALSE"]), (r"\bFALSE\b", ["TRUE"]), (r"\buint32_t\b", ["uint16_t"]), (r"\buint8_t\b", ["int8_t"]), (r"\bsize_t\b", ["uint8_t"]), (r"~", [""]), (r"!(?!=)", [""]),
       (r"\bstrcasecmp\b", ["strcmp"]), (r"\bmin\(", ["(0)?0:("])]


def mutants(text):
    out = []
    lines = text.split("\n")
    incomment = False
    for i, l in enumerate(lines):
        code = l
        s = l.strip()
        if incomment:
            if "*/" in l: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in l: incomment = True
            continue
        if not s or s.startswith("//") or s.startswith("#include") or s.startswith("*"):
            continue
        cut = len(l)
        for c in ("//", "/*"):
            k = l.find(c)
            if k >= 0 and '"' not in l[:k]: cut = min(cut, k)
        body = l[:cut]
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:\\.|[^"\\])*"', body)]
        instr = lambda p: any(a <= p < b for a, b in strs)
        for pat, reps in OPS:
            for m in re.finditer(pat, body):
                if instr(m.start()): continue
                if s.startswith("#"): continue
                for r in reps:
                    out.append((i, body[:m.start()] + r + body[m.end():] + l[cut:]))
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", body):
            if instr(m.start()): continue
            v = int(m.group(1), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1), 8)
            for n in {v + 1, max(0, v - 1), 0} - {v}:
                out.append((i, body[:m.start()] + str(n) + body[m.end():] + l[cut:]))
        for m in re.finditer(r"'(\\.|[^'\\])'", body):
            out.append((i, body[:m.start()] + "'%s'" % ("Z" if m.group(1) != "Z" else "Y") + body[m.end():] + l[cut:]))
        for a, b in strs:
            t = body[a + 1:b - 1]
            if len(t) > 0:
                k = len(t) // 2
                while k > 0 and (t[k - 1] in "\\%" or t[k] in "\\%"): k -= 1
                if t[k] not in "\\%":
                    ch = "q" if t[k] != "q" else "w"
                    out.append((i, body[:a + 1] + t[:k] + ch + t[k + 1:] + body[b - 1:] + l[cut:]))
        if re.match(r"^\s+[\w\*\(].*;\s*$", body) and not re.match(r"^\s*(return|const|static|uint\w+|int|char|size_t|FILE|void|struct|typedef|extern|volatile)\b", body) and "=" in body + "(" and not re.match(r"^\s*\w+\s*\*?\s*\w+(\[.*\])?;\s*$", body) \
                and not re.match(r"^\s*[A-Z]\w+\*?\s+\*?\w+\s*=", body):
            out.append((i, "    ;" + l[cut:]))
        m = re.match(r"^(\s*(?:else )?if \()(.*)(\)\s*)$", body.rstrip("\r"))
        if m:
            out.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
            out.append((i, m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3)))
        m = re.match(r"^(\s*return )(.+)(;\s*)$", body.rstrip("\r"))
        if m and m.group(2) != "0":
            out.append((i, m.group(1) + "0" + m.group(3)))
    seen, res = set(), []
    for i, nl in out:
        if nl == lines[i] or (i, nl) in seen: continue
        seen.add((i, nl))
        res.append((i, nl))
    return lines, res


def mutants2(text):
    """Narrowed operands, locals which keep their value, statements out of order or twice, clauses left out."""
    lines, out = text.split("\n"), []
    rnd = random.Random(7)
    simple = re.compile(r"^    +[\w\*\(][^{}]*;\s*$")
    decl = re.compile(r"^\s*(?:const |static |volatile )*(?:uint\w+|int\w*|char|size_t|long|float|FILE|void|struct \w+|[A-Z]\w+)\s*\*?\s+\*?\w+(\[.*\])?\s*(=.*)?;\s*$")
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment or s.startswith("/*") or s.startswith("#") or s.startswith("//") or s.startswith("*"):
            incomment = (incomment or s.startswith("/*")) and "*/" not in l
            continue
        if not l.startswith("    "): continue
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:\\.|[^"\\])*"', l)]
        for m in re.finditer(r"(?<![\w.>\"*&])(?:(?<=[(=,+<>&|\[] )|(?<=[(\-\[])|(?<=urn ))((?:p[A-Z]\w*->|\w+\.|\w+->)*[a-z]\w*(?:\[\w+\])?)(?=\s*[;),+<>&|=\-\]])(?!\s*=[^=])", l):
            if any(a <= m.start() < b for a, b in strs): continue
            x = m.group(1)
            last = re.split(r"->|\.", x)[-1]
            if re.match(r"p[A-Z]|uint|int\b|char\b|size_t|sizeof|void|const|std(in|out|err)|pass|\w+Exception$", last) or re.search(r"const \w+ +%s\b" % re.escape(last), text): continue
            for t in rnd.sample(["uint8_t", "uint16_t", "int16_t", "int8_t"], 2):
                out.append((i, l[:m.start()] + "(" + t + ")" + x + l[m.end():]))
        if decl.match(l) and "static" not in l and not s.startswith("return") and not s.startswith("FILE*") and ("=" in s or "[" in s or re.match("[A-Z]", s)):
            out.append((i, l.replace(s, "static " + s, 1)))
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        if simple.match(l) and not decl.match(l) and not re.match(r"\s*(return|break|continue)", l):
            out.append((i, l.rstrip("\r") + " " + s))
            if simple.match(nxt) and not decl.match(nxt) and not re.match(r"\s*(return|break|continue)", nxt):
                w = [set(re.findall(r"[A-Za-z_]\w+", t.split("=")[0] if re.match(r"^[^(]*=", t) else t)) for t in (l, nxt)]
                r = [set(re.findall(r"[A-Za-z_]\w+", t)) for t in (l, nxt)]
                if w[0] & r[1] - {"pThis"} or w[1] & r[0] - {"pThis"} or "(" in l + nxt:
                    out.append((i, ("SWAP", nxt, l)))
        for m in re.finditer(r"(&&|\|\|)", l):
            a = l[:m.start()].rstrip()
            if re.match(r"^\s*(if|while|return|else if)\b.*\)?\s*$", a):
                k = re.match(r"^(\s*(?:else )?(?:if|while) \(|\s*return \(?)", l)
                if k:
                    out.append((i, l[:k.end()] + l[m.end():].lstrip()))
                    rest = l[m.end():]
                    close = re.search(r"(\)?;?|\))\s*$", rest)
                    out.append((i, a + close.group(0)))
        if re.match(r"^\s*else\s*$", l): out.append((i, "    ;"))
        if s in ("break;", "continue;"): out.append((i, "    ;"))
    return lines, out


def main():
    work = sys.argv[1]
    arg = lambda n, d: type(d)(sys.argv[sys.argv.index(n) + 1]) if n in sys.argv else d
    slots, only, every, offset = arg("--slots", 8), arg("--only", ""), arg("--every", 1), arg("--offset", 0)
    os.makedirs(work, exist_ok=True)
    jobs = []
    for f, props in MAP:
        if only and only not in f: continue
        text = open(os.path.join(REPO, f), newline="").read()
        lines, ms = (mutants2 if "--second" in sys.argv else mutants)(text)
        for i, nl in ms:
            if isinstance(nl, str) and lines[i].endswith("\r") and not nl.endswith("\r"): nl += "\r"
            jobs.append((f, props.split(), i, lines[i], nl))
    jobs = [j for k, j in enumerate(jobs) if k % every == offset % every]
    random.Random(1).shuffle(jobs)
    done = set()
    res = os.path.join(work, "results.txt")
    if os.path.exists(res):
        for l in open(res): done.add(tuple(l.rstrip("\n").split("\t")[1:4]))
    print("%d mutants" % len(jobs), flush=True)
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    props_cases = {}
    quick = {}
    for p in sorted(os.listdir(os.path.join(V, "evidence"))):
        pass

    def run(slot):
        d = os.path.join(work, "slot%d" % slot)
        vd, rd = os.path.join(d, "verif"), os.path.join(d, "repo")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run("mkdir -p %s; cd %s && cp -a check harness shim known_findings.txt %s/; cp -a %s %s; git -C %s checkout -q -- ." % (vd, V, vd, REPO, rd, rd), shell=True, check=True)
        env = dict(os.environ, CRASHDEBUG_REPO=rd, VERIF_SEED="7")
        while True:
            try: f, props, i, old, new = q.get_nowait()
            except queue.Empty: break
            swap = not isinstance(new, str)
            text = new[1].strip() + " BEFORE " + new[2].strip() if swap else new.strip()
            key = (f, str(i + 1), text)
            if key in done: continue
            path = os.path.join(rd, f)
            orig = open(path, newline="").read()
            L = orig.split("\n")
            if swap: L[i], L[i + 1] = new[1], new[2]
            else: L[i] = new
            with open(path, "w", newline="") as h: h.write("\n".join(L))
            status = "SURVIVED"
            for p in props:
                c = ["./check", p, "quick", "--workers", "1", "--cases", {"C24": "150", "C25": "150"}.get(p, "6000"), "--wall", "60"]
                try:
                    r = subprocess.run(c, cwd=vd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                except subprocess.TimeoutExpired:
                    status = "caught %s (timeout)" % p
                    subprocess.run(["pkill", "-f", vd + "/build"])
                    break
                out = r.stdout.decode("utf-8", "replace")
                if r.returncode == 1 and "VIOLATION property=%s" % p in out: status = "caught " + p; break
                if r.returncode == 2: status = "nobuild"; break
                if r.returncode: status = "caught %s rc=%d" % (p, r.returncode); break
            with open(path, "w", newline="") as h: h.write(orig)
            with lock:
                with open(res, "a") as h: h.write("%s\t%s\t%d\t%s\t<- %s\n" % (status, f, i + 1, text, old.strip()))
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=run, args=(k,)) for k in range(slots)]
    for t in ts: t.start()
    for t in ts: t.join()


main()
