#!/usr/bin/env python3
"""mutate.py OUT [WORKERS [FILE-REGEX]]: makes small textual mutants of /repo/src one at a time in scratch copies under /tmp/mut, runs the
checks mapped to the file (quick tier, stopping at the first alarm), and appends one JSON line per mutant to OUT.  A development aid only."""
import json, os, random, re, subprocess, sys, threading, queue, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("src/bell.rs", "C06 C23 C02"), ("src/stage.rs", "C06 C23 C16 C02"), ("src/parity.rs", "C04"), ("src/utils.rs", "C20 C21 C11 C12"),
 ("src/block.rs", "C12 C13 C10 C01 C14 C26"), ("src/call.rs", "C10"), ("src/mask.rs", "C22 C27 C01"), ("src/music.rs", "C19 C20 C21 C27"),
 ("src/place_not.rs", "C07 C08 C09 C10 C27"), ("src/method/mod.rs", "C14 C16 C01"), ("src/method/class.rs", "C15 C16"),
 ("src/method_lib/mod.rs", "C17 C18"), ("src/method_lib/lib_serde.rs", "C17 C18"), ("src/row/borrowed.rs", "C04 C03 C05 C25 C02 C01"),
 ("src/row/owned.rs", "C02 C25 C01"), ("src/row/same_stage_vec.rs", "C11 C26 C01"), ("src/row/accumulator.rs", "C24 C03 C05"),
 ("src/row/errors.rs", "C02 C05 C03")]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "),
 (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r"&&", "||"), (r"\|\|(?! )", "&&"), (r" \|\| ", " && "),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"),
 (r"\.is_err\(\)", ".is_ok()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"cmp::min", "cmp::max"), (r"Ordering::Less", "Ordering::Greater"),
 (r"\.\.=", ".."), (r"(?<=[\w)])\.\.(?=[\w(])", "..="), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"&= ", "|= "),
 (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\.filter\(\|", ".skip_while(|"), (r"\.take_while\(", ".filter("),
 (r"\.trim\(\)", ""), (r"\.to_lowercase\(\)", ".to_owned()"), (r"\.next_back\(\)", ".next()"), (r"\.next\(\)", ".next_back()"), (r"\.sort\(\);", ";"),
 (r"\.dedup\(\);", ";"), (r"\.peek\(\)", ".next()"), (r"checked_", "wrapping_"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
 (r"\bcrate::", "crate::"), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.zip\(", ".zip_eq("),
 (r"\.num_bells\(\)", ".num_bells().saturating_sub(1)"), (r"\.enumerate\(\)", ".enumerate().skip(1)")]
def skip_lines(text):
    """line numbers in #[cfg(test)] items and cc_lib_gen code"""
    out, lines, i = set(), text.split("\n"), 0
    while i < len(lines):
        if re.search(r"#\[cfg\(test\)\]|cc_lib_gen|quickcheck", lines[i]):
            depth, started = 0, False
            while i < len(lines):
                out.add(i)
                depth += lines[i].count("{") - lines[i].count("}")
                started |= "{" in lines[i]
                if (started and depth <= 0) or (not started and lines[i].rstrip().endswith(";")): break
                i += 1
        i += 1
    return out
def mutants(path):
    text = open("/repo/" + path).read(); lines = text.split("\n"); skip = skip_lines(text)
    for n, l in enumerate(lines):
        s = l.strip()
        if n in skip or not s or s.startswith(("//", "#", "use ", "pub use", "*", "/*", "pub mod", "mod ", "pub struct", "impl", "extern")): continue
        code = l.split(" //")[0]
        if re.search(r"Stage\(\d+\);?|write!\(f|\.expect\(", code): continue
        seen = set()
        def emit(new, what):
            if new != code and new not in seen:
                seen.add(new); return (path, n, what, "\n".join(lines[:n] + [new + l[len(code):]] + lines[n+1:]))
        for old, new in OPS:
            for m in re.finditer(old, code):
                e = emit(code[:m.start()] + m.expand(new.replace("\\", "\\\\")) + code[m.end():], f"{m[0]}->{new}")
                if e: yield e
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.]*\")", code):
            for v in {int(m[1]) + 1, max(int(m[1]) - 1, 0)}:
                e = emit(code[:m.start()] + str(v) + code[m.end():], f"{m[1]}->{v}")
                if e: yield e
        if s.endswith(";") and not s.startswith(("let", "return", "}", ")", ".", "const", "type", "pub", "fn")) and code.count("(") == code.count(")"):
            e = emit(re.match(r"\s*", code)[0] + "{}", "delete")
            if e: yield e
def worker(i, q, out, lock):
    w = f"/tmp/mut/w{i}"; os.makedirs(w, exist_ok=True)
    subprocess.run(f"rm -rf {w}/repo {w}/verif/harness; mkdir -p {w}/verif {w}/repo; cp -a /repo/src /repo/Cargo.toml /repo/Cargo.lock {w}/repo/; cp -a {V}/harness {V}/check.sh {V}/known_findings.txt {V}/properties.jsonl {w}/verif/; rm -rf {w}/verif/harness/target", shell=True)
    p = f"{w}/verif/harness/Cargo.toml"; s = open(p).read().replace('"/repo"', f'"{w}/repo"').replace("opt-level = 2", "opt-level = 1"); open(p, "w").write(s)
    while True:
        try: path, n, what, text = q.get_nowait()
        except queue.Empty: return
        orig = open("/repo/" + path).read()
        open(f"{w}/repo/{path}", "w").write(text)
        res, detail = None, ""
        # only compile the checks that are mapped to this file
        reg = open(f"{V}/harness/src/props/mod.rs").read()
        want = [x.lower() for x in dict(MAP)[path].split()]
        reg = "\n".join(l for l in reg.split("\n") if not re.match(r"        \w+::c\d\d\(\),", l) or l.strip()[-6:-3] in want)
        if open(f"{w}/verif/harness/src/props/mod.rs").read() != reg: open(f"{w}/verif/harness/src/props/mod.rs", "w").write(reg)
        try:
            r = subprocess.run("cargo build --quiet --offline --manifest-path harness/Cargo.toml", shell=True, cwd=w + "/verif", capture_output=True, text=True, errors="replace",
                env=dict(os.environ, CARGO_TARGET_DIR=w + "/verif/target", RUSTFLAGS="-Awarnings"))
            if r.returncode: res = "unbuildable"
            else:
                for prop in dict(MAP)[path].split():
                    try:
                        r = subprocess.run(["timeout", "-k", "5", "400", "./check.sh", prop], cwd=w + "/verif", capture_output=True, text=True, errors="replace")
                    except Exception as e: res = "error " + str(e); break
                    if r.returncode == 1 and "VIOLATION" in r.stdout: res = "killed"; detail = prop; break
                    if r.returncode != 0: res = f"rc{r.returncode}"; detail = prop + " " + (r.stdout + r.stderr)[-300:]; break
                else: res = "SURVIVED"
        finally:
            open(f"{w}/repo/{path}", "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps({"path": path, "line": n + 1, "what": what, "code": text.split("\n")[n].strip(), "result": res, "detail": detail}) + "\n")
def main():
    out, nw, rx = sys.argv[1], int((sys.argv[2:] or [3])[0]), (sys.argv[3:] or [""])[0]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["path"], d["line"], d["code"]))
    q = queue.Queue(); total = 0
    for path, _ in MAP:
        if not re.search(rx, path): continue
        for m in mutants(path):
            if (m[0], m[1] + 1, m[3].split("\n")[m[1]].strip()) in done: continue
            q.put(m); total += 1
    print(total, "mutants", flush=True)
    if nw == 0: return
    items = list(q.queue); random.Random(1).shuffle(items); items.sort(key=lambda m: [p for p, _ in MAP].index(m[0]) if False else 0)
    # the same file for a while, so that the registry is stable; files in a mixed order
    q.queue.clear(); [q.put(m) for m in items]
    lock = threading.Lock(); ts = [threading.Thread(target=worker, args=(i, q, out, lock)) for i in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
