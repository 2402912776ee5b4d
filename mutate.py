"""mutate.py gen > list        small textual changes of the original code, one JSON per line
mutate.py run LIST OUT K N    worker K of N: builds the harness against a scratch copy with each change and runs the checks of
                              the properties that file belongs to; appends {verdict: nobuild|caught|survived, ...} to OUT
Only a tool to find what the checks miss; nothing here is used by the checks."""
import json, os, re, subprocess, sys, random, shutil
V = os.path.dirname(os.path.abspath(__file__))
FILES = {"alg/src/commutative.rs": "C13 C12 C05", "alg/src/commutative/rational_impl.rs": "C12 C06", "alg/src/lin_alg.rs": "C15 C16 C09", "alg/src/lin_alg/const_matrix_impl.rs": "C21 C30",
 "alg/src/lin_alg/matrix_impl.rs": "C17 C18 C05 C06 C22 C23 C24 C25 C26 C15 C02", "alg/src/lin_alg/sparse_matrix_impl.rs": "C20 C32", "alg/src/non_commutative.rs": "C14 C11", "alg/src/non_commutative/permutation.rs": "C14 C11",
 "analysis/src/lib.rs": "C31 C32", "geom/src/lib.rs": "C30", "topo_spaces/src/cubical.rs": "C07 C09 C11 C08", "topo_spaces/src/graph.rs": "C10 C11 C29 C07 C09", "topo_spaces/src/lib.rs": "C01 C02 C06",
 "topo_spaces/src/simplicial/mod.rs": "C04 C03 C01", "topo_spaces/src/simplicial/mod_impl.rs": "C04 C03 C01", "util/src/lib.rs": "C27 C28"}
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=])(?= )", "<="), (r"(?<![>\-=])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="),
 (r"&&", "||"), (r"\|\|(?! )", "&&"), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1)), (r"\.rev\(\)", ""), (r"(?<![=\w)])!(?=[\w(])", ""), (r"::min\(", "::max("), (r"::max\(", "::min("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
 (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.\.=", ".."), (r"(?<![.=])\.\.(?![.=)\]])", "..="), (r"\.abs\(\)", ""), (r"\+1\b", ""), (r"-1\b", ""), (r"(?<=[\w)])-(?=[\w(])", "+"), (r"(?<=[\w)])\+(?=[\w(])", "-"), (r"(?<=[\w)])\*(?=[\w(])", "+"), (r"\.sort\(\)", ".reverse()"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.skip\([^()]*\)", ""), (r"\.take\([^()]*\)", ""), (r"if ([^{]+) \{", "if true {"), (r"if ([^{]+) \{", "if false {"), (r"\.clone\(\)\.", "."), (r"Less\b", "Greater"), (r"Greater\b", "Less"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"-(?=\w+\.|\()", ""), (r"\.0\b", ".1"), (r"\.1\b", ".0")]
def code_lines(path):
    t = open("/repo/" + path).read().split("\n"); out = []; skip = -1; depth = 0; pend = False
    for i, l in enumerate(t):
        s = l.strip()
        if skip < 0 and s.startswith("#[cfg(test)]"): pend = True
        if pend and "{" in l: skip = depth; pend = False
        d = l.count("{") - l.count("}")
        if skip < 0 and s and not s.startswith(("//", "#", "use ", "pub use", "mod ", "assert", "debug_assert", "println", "panic")) and not pend: out.append(i)
        depth += d
        if skip >= 0 and depth <= skip: skip = -1
    return t, out
def gen():
    r = []
    for f in FILES:
        t, ls = code_lines(f); seen = set()
        for i in ls:
            code = t[i].split("//")[0]
            if "panic!" in code and "{" not in code.replace("{}", ""): continue
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    if "fn " in code or "impl" in code or code.strip().startswith(("where", "type ", "struct", "pub struct", "let mut vec: Vec<", "for ")) and rep in ("<=", ">="): continue
                    n = code[:m.start()] + re.sub(pat, rep, code[m.start():], count=1) if not (rep == "" ) else code[:m.start()] + code[m.end():]
                    if n != code and (i, n) not in seen: seen.add((i, n)); r.append({"f": f, "l": i, "old": t[i], "new": n})
            s = code.strip()
            if (s.endswith(";") and not s.startswith(("let ", "return", "}", "type ", "const ", "pub ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}")) or (s.startswith(".") and s.count("(") == s.count(")") and not s.endswith(";") and re.match(r"\.(filter|rev|skip|take)", s)):
                r.append({"f": f, "l": i, "old": t[i], "new": ""})
    for x in r: print(json.dumps(x))
def run(lst, out, k, n):
    w = "/tmp/mut/w%d" % k
    if not os.path.exists(w + "/repo"):
        os.makedirs(w, exist_ok=True); subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    subprocess.run("git fetch -q origin HEAD; git reset -q --hard FETCH_HEAD", shell=True, cwd=w + "/repo")
    shutil.rmtree(w + "/harness", ignore_errors=True); shutil.copytree(V + "/harness", w + "/harness")
    c = open(w + "/harness/Cargo.toml").read().replace('"/repo/', '"%s/repo/' % w); open(w + "/harness/Cargo.toml", "w").write(c)
    for f, a, b in (("core.rs", "bad >= 6", "bad >= 1"), ("core.rs", "nviol >= 20", "nviol >= 1"), ("main.rs", r"case_cpu: \d+", "case_cpu: 4")):
        q = w + "/harness/src/" + f; c = open(q).read(); c = re.sub(a, b, c); open(q, "w").write(c)
    main = open(w + "/harness/src/main.rs").read(); cur = None
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", TV_ROOT=w, TV_JOBS="1", CARGO_BUILD_JOBS="1")
    done = set()
    if os.path.exists(out): done = {(j["f"], j["l"], j["new"]) for j in map(json.loads, open(out))}
    items = [json.loads(l) for l in open(lst)]
    for x in sorted(items[k::n], key=lambda x: ('matrix_impl' in x['f'], 'alg' in x['f'], x['f'])):
        if (x["f"], x["l"], x["new"]) in done: continue
        if x["f"] != cur:  # only the modules this file needs
            cur = x["f"]; mods = {l.split("f: ")[1].split("::")[0] for l in main.split("\n") if "PropDef {" in l and re.search(r'id: "(C\d+)"', l) and re.search(r'id: "(C\d+)"', l).group(1) in FILES[cur].split()}; todo = list(mods)
            while todo:
                for d in re.findall(r"crate::(p_\w+)", open(w + "/harness/src/%s.rs" % todo.pop()).read()):
                    if d not in mods: mods.add(d); todo.append(d)
            open(w + "/harness/src/main.rs", "w").write("\n".join(l for l in main.split("\n") if not ("p_mem" not in mods and ("global_allocator" in l or "p_mem::Watch" in l)) and not (l.startswith("mod p_") and l[4:-1] not in mods) and not ("PropDef {" in l and "f: p_" in l and l.split("f: ")[1].split("::")[0] not in mods)))
        p = w + "/repo/" + x["f"]; orig = open("/repo/" + x["f"]).read(); t = orig.split("\n")
        if x["l"] >= len(t) or t[x["l"]] != x["old"]: continue
        t[x["l"]] = x["new"]; open(p, "w").write("\n".join(t))
        b = subprocess.run(["cargo", "build", "-q", "--offline", "--manifest-path", w + "/harness/Cargo.toml", "--target-dir", w + "/target"], env=env, capture_output=True)
        v = "nobuild"
        if b.returncode == 0:
            v = "survived"
            for cases, wall in ((200, 8), (None, 12)):
                for q in FILES[x["f"]].split():
                    e = dict(env, TV_WALL=str(wall)); 
                    if cases: e["TV_CASES"] = str(cases)
                    try: r = subprocess.run([w + "/target/debug/tv", "check", q], env=e, capture_output=True, timeout=600)
                    except subprocess.TimeoutExpired: v = "caught"; x["by"] = q + " timeout"; break
                    if r.returncode != 0:
                        v = "caught"; x["by"] = q; m = re.search(rb"\[([^\]]*)\] case (\d+)", r.stdout); x["sig"] = m.group(0).decode() if m else str(r.returncode); break
                if v != "survived": break
            shutil.rmtree(w + "/replays", ignore_errors=True)
        open(p, "w").write(orig)
        x["verdict"] = v
        with open(out, "a") as o: o.write(json.dumps(x) + "\n")
if sys.argv[1] == "gen": gen()
else: run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
