#!/usr/bin/env python3
"""Mutation testing of the checks (developer helper, run inside tools/iso.sh so that /repo is a private copy).

mutate.py LIST                      write every mutant of /repo/src as JSON lines to LIST
mutate.py LIST PART PARTS RESULT    test the mutants i with i % PARTS == PART: does it compile, do the
                                    tests pass, which fastcheck (of those for the file) rejects it
"""
import json, os, random, re, subprocess, sys, time

FILES = {
    "basis.rs": "C01 C05 C03", "knot.rs": "C05 C04 C01 C03", "curve.rs": "C06 C10 C24 C20 C07",
    "curve/bezier.rs": "C01 C03 C08 C20", "curve/bspline.rs": "C01 C03 C04 C08 C07 C20 C10", "curve/circle.rs": "C06 C07 C10 C22 C24",
    "curve/line.rs": "C06 C07 C22", "curve/polyline.rs": "C06 C07 C22 C20", "surface.rs": "C11 C12 C09 C17",
    "surface/bezier.rs": "C02 C11 C22 C12", "surface/bspline.rs": "C02 C03 C08 C12 C17 C22", "surface/cylinder.rs": "C09 C17 C25 C12",
    "surface/plane.rs": "C09 C14 C15 C12 C25", "surface/spin.rs": "C09 C12", "surface/sweep.rs": "C09 C12", "surface/umbrella.rs": "C09 C12",
    "face.rs": "C12 C11 C24 C14 C15 C17 C25", "mesh.rs": "C11 C18 C26 C16", "model.rs": "C18 C19 C20 C26 C25", "points.rs": "C21 C26",
    "utils.rs": "C13 C10 C11 C17", "utils/point.rs": "C13 C07 C24", "utils/polygon.rs": "C13 C14 C15", "utils/meshgen.rs": "C16 C17 C25",
    "model/step_reader.rs": "C22 C23 C25", "lib.rs": "C01",
}
SUBS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.rev\(\)", [""]), (r"\.\.=", [".."]), (r"(?<=[\w\])])\.\.(?=[\w(])", ["..="]), (r"if !", ["if "]), (r"(?<=[(,=] )-(?=[\w(])", [""]), (r"(?<=\()-(?=[\w(])", [""]),
    (r"(?<![\w.])(\d+)(?![\w.])", ["+1", "-1"]), (r"(?<![\w.])(\d+\.\d+)(?![\w.])", ["*2", "*.5"]), (r"\b1e-(\d+)", ["1e-3", "1e-12"]), (r"\bEPSILON\b", ["1e-3"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.u\b", [".v"]), (r"\.v\b", [".u"]), (r"\.sin\(\)", [".cos()"]), (r"\.cos\(\)", [".sin()"]), (r"\.abs\(\)", [""]),
    (r"\.0\b(?!\d)", [".1"]), (r"(?<=[\w)])\.1\b(?!\d)", [".0"]), (r"\.skip\(1\)", ["", ".skip(2)"]), (r"\.normalize\(\)", [""]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\bu_(?=\w)", ["v_"]), (r"\bv_(?=\w)", ["u_"]), (r"\.cross\(", [".cross(-"]), (r"\.windows\(2\)", [".chunks(2)"]), (r"\.sqrt\(\)", [""]), (r"usize::MAX", ["0"]),
    (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"\.unwrap_or\((.*?)\)", [".unwrap_or_default()"]), (r"f64::INFINITY", ["1.0"]), (r"f64::MAX", ["1.0"]),
    (r"\?;", [".ok();"]), (r"Some\((\w+)\) =>", ["Some(\\1) if false =>"]), (r"\bPI\b", ["TAU"]), (r"\bTAU\b", ["PI"]), (r"\.push\(", [".insert(0, "]),
]


def mutants():
    out = []
    for f in FILES:
        text = open("/repo/src/" + f).read().split("\n")
        test = False
        for i, l in enumerate(text):
            s = l.strip()
            if s.startswith("#[test]") or s.startswith("#[cfg(test)]"):
                test = True
            if test and l == "}":
                test = False
            if test or not s or s.startswith(("//", "use ", "pub use", "#", "mod ", "pub mod", "impl", "println", "dbg", "assert")):
                continue
            seen = set()
            for pat, reps in SUBS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        if r in ("+1", "-1"):
                            v = int(m.group(0)) + int(r)
                            if v < 0:
                                continue
                            n = str(v)
                        elif r == "*2":
                            n = repr(float(m.group(0)) * 2 or 1.0)
                        elif r == "*.5":
                            n = repr(float(m.group(0)) * .5 or -1.0)
                        else:
                            n = m.expand(r) if "\\" in r else r
                        k = l[:m.start()] + n + l[m.end():]
                        if k != l and k not in seen:
                            seen.add(k)
                            out.append((f, i, k))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "pub ", "const")) and l.count("(") == l.count(")"):
                out.append((f, i, ""))
            m = re.match(r"(\s*)((?:\} else )?if) (.*) \{$", l)
            if m and not m.group(3).startswith("let "):
                out.append((f, i, m.group(1) + m.group(2) + " true {"))
                out.append((f, i, m.group(1) + m.group(2) + " false {"))
    return out


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""


def main():
    lst = sys.argv[1]
    if len(sys.argv) == 2:
        m = mutants()
        random.Random(1).shuffle(m)
        with open(lst, "w") as f:
            for i, (a, b, c) in enumerate(m):
                f.write(json.dumps({"i": i, "file": a, "line": b, "new": c}) + "\n")
        print(len(m), "mutants")
        return
    part, parts, res = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    done = {json.loads(l)["i"] for l in open(res)} if os.path.exists(res) else set()
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_TERM_COLOR="never", CARGO_TARGET_DIR="/repo/target")
    for c in ["C%02d" % i for i in range(1, 28)]:
        rc, o = sh(["python3", "/verif/tools/fastcheck.py", c, "--base"], 600)
        if rc:
            sys.exit("base %s: %s" % (c, o))
    ALL = ["C%02d" % i for i in range(1, 28)]
    for l in open(lst):
        m = json.loads(l)
        if m["i"] % parts != part % parts or m["i"] in done:
            continue
        p = "/repo/src/" + m["file"]
        orig = open(p).read()
        t = orig.split("\n")
        m["old"] = t[m["line"]]
        t[m["line"]] = m["new"]
        open(p, "w").write("\n".join(t))
        s = time.time()
        try:
            rc, o = sh(["cargo", "test", "--offline", "--lib", "-q"], 60, cwd="/repo", env=env)
            if rc:
                m["result"] = "compile" if "error[" in o or "could not compile" in o or "error:" in o and "test failed" not in o else "tests"
            else:
                m["result"], m["by"] = "survived", []
                first = FILES[m["file"]].split()
                for c in first + [x for x in ALL if x not in first]:
                    rc, o = sh(["python3", "/verif/tools/fastcheck.py", c], 600)
                    if rc == 1:
                        m["result"], m["by"] = "caught", c
                        break
                    m["by"].append([c, rc, o[-300:].strip()])
        finally:
            open(p, "w").write(orig)
        m["s"] = round(time.time() - s, 1)
        with open(res, "a") as f:
            f.write(json.dumps(m) + "\n")


main()
