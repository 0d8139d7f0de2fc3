#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [--only FILE] : systematic small changes of the code, to
measure the checks (development aid; works on scratch copies under /tmp/mut only).

A mutant that builds and passes the repository's tests is given to the checks;
the result says which one reported it first, or that none did."""
import json, os, re, subprocess, sys, shutil, threading, queue, random

FILES = ["src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs",
         "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs", "src/utils.rs",
         "encoding_tables/single_byte/generate_ascii_ext_tables.py",
         "encoding_tables/whatwg/generate_big5.py", "encoding_tables/whatwg/generate_shiftjis.py"]
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
ENV.pop("CARGO_TARGET_DIR", None)

def mutants(path, text):
    """Yields (line number, old line, new line)."""
    py = path.endswith(".py")
    lines = text.split("\n")
    in_test = False
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("include!") or s.startswith("pub mod"):
            continue
        code = l.split(" // ")[0]
        if py:
            code = l
        out = set()
        def sub(a, b, new):
            out.add(code[:a] + new + code[b:] + l[len(code):])
        for m in re.finditer(r"\b(0x[0-9A-Fa-f]+|\d+)\b(?!\w)", code):
            t = m.group(1)
            if m.start() and code[m.start()-1] in "'\"_":
                continue
            if t[0] == "0" and t.isdigit() and len(t) > 1:
                continue
            v = int(t, 0)
            for n in {v + 1, v - 1}:
                if n >= 0:
                    sub(m.start(), m.end(), ("0x%X" % n) if t.startswith("0x") else str(n))
        ops = [(r"(?<![-<=>])<(?![<=])(?= )", ["<=", ">="]), (r"<=", ["<", "=="]), (r"(?<![-=>])>(?![>=])(?= )", [">=", "<="]), (r">=(?!=)", [">", "=="]),
               (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]),
               (r"\+=", ["-=", "="]), (r"(?<=\w )<<(?= )", [">>"]), (r"(?<=\w )>>(?= )", ["<<"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&"]),
               (r"\bis_end\b(?!:)", ["true", "false"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
               (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bnot in\b", ["in"]), (r"(?<!not )\bin\b", ["not in"] if "for " not in code else []),
               (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
               (r"!(?=[a-z(])", [""])]
        for r, news in ops:
            for m in re.finditer(r, code):
                if "fn " in code and not py and r in (r"(?<= )-(?= )", r"(?<= )&(?= )"):
                    continue
                for n in news:
                    sub(m.start(), m.end(), n)
        if not py:
            m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
            if m:
                for n in ("true", "false"):
                    out.add(m.group(1) + n + m.group(3))
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("}") and not s.startswith(")"):
                out.add(re.match(r"\s*", l).group(0) + ";")
        else:
            m = re.match(r"^(\s*(?:el)?if )(.*)(:)$", code)
            if m:
                for n in ("True", "False"):
                    out.add(m.group(1) + n + m.group(3))
            if re.match(r"^\s*[\w\[\].]+(\(.*\)| [+&|]?= .*)$", code):
                out.add(re.match(r"\s*", l).group(0) + "pass")
        for n in sorted(out):
            if n != l:
                yield i, l, n

def sh(cmd, cwd, t, env=ENV):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""

LIB = ["C07", "C08", "C09", "C10", "C05", "C06", "C02", "C03", "C04", "C13", "C01", "C14", "C15", "C18", "C11", "C12", "C16", "C17", "C19", "C20"]
def order(f):
    if f.endswith(".py"):
        return {"generate_ascii_ext_tables.py": ["C21", "C23"]}.get(os.path.basename(f), ["C22", "C23"]) + ["C27"]
    pre = {"src/utf8.rs": ["C04"], "src/utf16_be.rs": ["C02"], "src/utf16_le.rs": ["C02"], "src/utf32_be.rs": ["C03"], "src/utf32_le.rs": ["C03"],
           "src/big5_whatwg.rs": ["C07", "C08"], "src/shiftjis_whatwg.rs": ["C09", "C10"], "src/single_byte.rs": ["C05", "C06"]}.get(f, [])
    return pre + [x for x in ["C13", "C14", "C15", "C18", "C11", "C12", "C01", "C16", "C17", "C19", "C20", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C26", "C25", "C24"] if x not in pre]

def setup(w):
    d = "/tmp/mut/w%d" % w
    os.makedirs(d, exist_ok=True)
    subprocess.check_call("mkdir -p repo verif && rsync -a --delete --exclude target /repo/ repo/ && rsync -a --delete --exclude target --exclude seeded --exclude .git --exclude evidence --exclude replays --exclude work /verif/ verif/ && grep -rl '\"/repo' verif/harness/src verif/harness/Cargo.toml | xargs sed -i 's#\"/repo#\"%s/repo#g'" % d, cwd=d, shell=True)
    return d

def worker(w, q, out, lock, res_all):
    d = setup(w)
    repo, ver = d + "/repo", d + "/verif"
    while True:
        try:
            f, i, old, new = q.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(repo, f)
        src = open(p, newline="").read()
        ls = src.split("\n")
        assert ls[i] == old, (f, i)
        ls[i] = new
        open(p, "w", newline="").write("\n".join(ls))
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            if f.endswith(".py"):
                rc, o = sh("python3 -m py_compile %s" % p, repo, 20)
                r["result"] = "no build" if rc else None
            else:
                rc, o = sh("cargo test --workspace --no-fail-fast --offline -q -- --test-threads 4", repo, 100)
                if rc:
                    r["result"] = "no build" if "could not compile" in o else ("tests time out" if rc == 124 else "tests fail")
                else:
                    r["result"] = None
            if r["result"] is None:
                env = dict(ENV, TEV_TIMEOUT="300")
                for c in order(f):
                    rc, o = sh("bash run.sh %s" % c, ver, 900, env)
                    if rc == 1 and "VIOLATION property=" in o:
                        r["result"] = "caught " + c
                        break
                    if rc != 0:
                        r.setdefault("odd", []).append("%s rc=%d %s" % (c, rc, o[-200:]))
                else:
                    r["result"] = "SURVIVED"
        finally:
            open(p, "w", newline="").write(src)
        with lock:
            out.write(json.dumps(r) + "\n")
            out.flush()

def main():
    out = open(sys.argv[1], "a")
    done = set()
    for l in open(sys.argv[1]):
        r = json.loads(l)
        done.add((r["file"], r["line"], r["new"]))
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
    q = queue.Queue()
    todo = []
    for f in FILES:
        p = "/repo/" + f
        if os.path.exists(p) and only in f:
            for i, old, new in mutants(f, open(p, newline="").read()):
                if (f, i + 1, new.strip()) not in done:
                    todo.append((f, i, old, new))
    random.Random(1).shuffle(todo)
    if "--count" in sys.argv:
        from collections import Counter
        print(len(todo), Counter(t[0] for t in todo)); return
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, out, lock, None)) for w in range(j)]
    [t.start() for t in ts]
    [t.join() for t in ts]

main()
