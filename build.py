#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Every library source, factory and command-line main of thot is compiled with
clang's ThreadSanitizer *instrumentation* (not its runtime: the simulator in
/verif/sim provides the __tsan_* entry points) and linked with the simulator
into one executable.  Objects are cached by the content of everything that
went into them, so an unchanged file is never recompiled.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import subprocess
import sys

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("THOT_REPO", "/repo")
B = os.environ.get("SIM_BUILD", V + "/build")
COND = {"HAVE_DB_CXX_LIB", "HAVE_DB_CXX_H", "HAVE_LEVELDB_LIB", "HAVE_CXX11_ENABLED"}
MAINS = ["thot_server", "thot_client", "thot_dhs_step_by_step_min",
         "thot_ttable_to_leveldb", "thot_ngram_to_leveldb", "thot_lextable_to_leveldb",
         "thot_dict_to_leveldb", "thot_ttable_to_fbdb", "thot_ms_dec", "thot_li_weight_upd",
         "thot_ll_weight_upd_nblist", "thot_lm_weight_upd", "thot_gen_sw_model", "thot_gen_phr_model",
         "thot_ms_alig", "thot_wg_proc", "thot_alig_op", "thot_query_pm", "thot_calc_swm_lgprob", "thot_scorer",
         "thot_calc_bleu", "thot_lm_perp", "thot_ilm_perp", "thot_get_srcsents_from_metadata", "thot_check_constraints",
         "thot_sort_bin_ilextable", "thot_merge_bin_ilextable", "thot_prune_bin_ilextable", "thot_filter_bin_ilextable",
         "thot_gen_bin_lex_filter_info", "thot_sort_bin_ihmmatable", "thot_merge_bin_ihmmatable",
         "thot_sort_bin_iibm2atable", "thot_merge_bin_iibm2atable"]


def automake(path):
    text = open(path).read().replace("\\\n", " ")
    var, stack = {}, []
    for line in text.split("\n"):
        w = line.split()
        if line.startswith("if "):
            stack.append(w[1] in COND)
        elif line.startswith("else"):
            stack[-1] = not stack[-1]
        elif line.startswith("endif"):
            stack.pop()
        elif all(stack):
            m = re.match(r"(\w+)\s*(\+?=)(.*)", line)
            if m:
                var[m[1]] = (var.get(m[1], "") + " " if m[2] == "+=" else "") + m[3]
    def expand(s):
        for _ in range(20):
            t = re.sub(r"\$\((\w+)\)", lambda m: var.get(m[1], ""), s)
            if t == s:
                return t
            s = t
        return s
    return {k: expand(v) for k, v in var.items()}


def sources():
    """[(source, main-name or None, factory-name or None)]"""
    am = automake(R + "/src/Makefile.am")
    src = R + "/src/"
    is_c = lambda f: f.endswith((".cc", ".c"))
    out = [(src + f, None, None) for f in am["thot_sources"].split() if is_c(f)]
    for k, v in am.items():
        m = re.match(r"(\w+_factory)_la_SOURCES$", k)
        if m and "kenlm" not in k:
            out += [(src + f, None, m[1]) for f in v.split() if is_c(f)]
        m = re.match(r"(thot_\w+)_SOURCES$", k)
        if m and m[1] in MAINS:
            out += [(src + f, m[1], None) for f in v.split() if is_c(f)]
    return out


DIRS = ["nlp_common", "incr_models", "sw_models", "phrase_models", "smt_preproc",
        "error_correction", "downhill_simplex", "stack_dec", "hat_trie", "picojson"]
INC = ["-I" + V + "/sim/config"] + ["-I%s/src/%s" % (R, d) for d in DIRS] + ["-I%s/src" % R]
DEF = ["-DHAVE_CONFIG_H", "-DTHOT_SIM", '-DTHOT_MASTER_INI_PATH="/sim/share/master.ini"',
       '-DTHOT_LIBDIR="/sim/lib"']
WARN = ["-w"]
CXX = ["clang++", "-std=c++11"]
CC = ["clang"]
OPT = ["-O1", "-gline-tables-only", "-fno-pic", "-fno-pie", "-fno-strict-aliasing"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=1"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_files = {}


def fhash(path):
    if path not in _files:
        try:
            _files[path] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        except OSError:
            _files[path] = "-"
    return _files[path]


def compile_one(job):
    src, cmd, tag, post = job
    key = sha(src, " ".join(cmd), tag)[:24]
    obj, dep = "%s/o/%s.o" % (B, key), "%s/o/%s.d" % (B, key)
    stamp = obj + ".stamp"
    def state():
        text = open(dep).read().replace("\\\n", " ")
        deps = text.split(":", 1)[1].split()
        deps = sorted({d for d in deps if not d.startswith("/usr/")})
        return sha(*[d + fhash(d) for d in deps])
    try:
        if os.path.exists(obj) and open(stamp).read() == state():
            return obj, False, None
    except (OSError, IndexError):
        pass
    r = subprocess.run(cmd + ["-c", src, "-o", obj, "-MD", "-MF", dep], capture_output=True, text=True)
    if r.returncode:
        return obj, True, "%s\n%s" % (src, r.stderr[-3000:])
    if post:
        err = post(obj)
        if err:
            return obj, True, err
    open(stamp, "w").write(state())
    return obj, True, None


def localize(main, src):
    """Give every strong symbol a main defines a private name, so several mains link together,
    and also the weak ones that involve a type of its own (template instances, inline members)."""
    def post(obj):
        names = re.findall(r"^(?:struct|class)\s+(\w+)", open(src).read(), re.M)
        own = ["%d%s" % (len(n), n) for n in names]
        out = subprocess.run(["nm", "--defined-only", "-g", obj], capture_output=True, text=True).stdout
        syms = [l.split() for l in out.splitlines()]
        ren = obj + ".ren"
        with open(ren, "w") as f:
            for s in syms:
                if len(s) == 3 and (s[1] in "TDBRC" or s[1] in "WV" and any(n in s[2] for n in own)):
                    name = "sim_main_" + main if s[2] == "main" else main + "@" + s[2]
                    f.write("%s %s\n" % (s[2], name))
        r = subprocess.run(["objcopy", "--redefine-syms=" + ren, obj], capture_output=True, text=True)
        return r.stderr if r.returncode else None
    return post


def rename_factory(name):
    def post(obj):
        r = subprocess.run(["objcopy", "--redefine-sym", "create=sim_create_" + name, "--redefine-sym",
                            "type_id=sim_type_id_" + name, obj], capture_output=True, text=True)
        return r.stderr if r.returncode else None
    return post


def link_native(objs):
    """the programs of thot as one ordinary executable, and the stand-in for external commands (cluster/)"""
    C = V + "/cluster/"
    for out, src in ((B + "/native", C + "native.cc"), (B + "/w", C + "w.c")):
        extra = sorted(objs) if src.endswith("native.cc") else []
        key = sha(*[o + fhash(o) for o in extra + [src, B + "/registry.inc"]])
        try:
            if os.path.exists(out) and open(out + ".stamp").read() == key:
                continue
        except OSError:
            pass
        if extra:
            with open(B + "/native.rsp", "w") as f:
                f.write("\n".join(extra))
            cmd = ["clang++", "-std=c++17", "-w", "-O1", "-no-pie", "-rdynamic", "-fno-builtin", "-I" + B, src, "@" + B + "/native.rsp", "-o", out,
                   "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") else "-g",
                   "-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose,--wrap=dlerror", "-lleveldb", "-ldb_cxx", "-lgmp", "-lz", "-lpthread", "-ldl"]
        else:
            cmd = ["clang", "-O2", "-w", src, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("LINK ERROR " + r.stderr[-6000:] + "\n")
            return 3
        open(out + ".stamp", "w").write(key)


def main():
    os.makedirs(B + "/o", exist_ok=True)
    jobs, lib = [], []
    mains, facs = [], []
    seen = set()
    for src, m, fac in sources():
        cc = CC if src.endswith(".c") else CXX
        cmd = cc + WARN + OPT + TSAN + DEF + INC
        if m:
            # parameter headers only; C sources shared by several mains keep their names
            if src.endswith(m + ".cc"):
                jobs.append((src, cmd, m + "/own", localize(m, src)))
                mains.append(m)
            elif (src, "lib") not in seen:
                seen.add((src, "lib"))
                jobs.append((src, cmd, "lib", None))
        elif fac:
            jobs.append((src, cmd, fac, rename_factory(fac)))
            facs.append(fac)
        elif (src, "lib") not in seen:
            seen.add((src, "lib"))
            jobs.append((src, cmd, "lib", None))
    with open(B + "/registry.inc.new", "w") as f:
        for x in sorted(set(facs)):
            f.write("FACTORY(%s)\n" % x)
        for x in sorted(set(mains)):
            f.write("MAIN(%s)\n" % x)
    if not os.path.exists(B + "/registry.inc") or open(B + "/registry.inc").read() != open(B + "/registry.inc.new").read():
        os.replace(B + "/registry.inc.new", B + "/registry.inc")
    simsrc = sorted(f for f in os.listdir(V + "/sim") if f.endswith(".cc"))
    for f in simsrc:
        cmd = ["clang++", "-std=c++17", "-Wall", "-O2", "-g", "-fno-pic", "-fno-pie", "-fno-strict-aliasing",
               "-fno-builtin"] + DEF + ["-I" + B, "-I" + V + "/sim"]
        if f.startswith("w_"):   # worlds use thot's own headers
            cmd = ["clang++", "-std=c++17", "-w", "-O1", "-g", "-fno-pic", "-fno-pie", "-fno-strict-aliasing"] + \
                DEF + INC + ["-I" + B, "-I" + V + "/sim"]
        jobs.append((V + "/sim/" + f, cmd, "sim", None))
    # biggest sources first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    n, objs = 0, []
    with cf.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", os.cpu_count() or 8))) as ex:
        for obj, did, err in ex.map(compile_one, jobs):
            if err:
                sys.stderr.write("BUILD ERROR " + err + "\n")
                ex.shutdown(cancel_futures=True)
                return 3
            n += did
            objs.append(obj)
    if link_native([o for o, j in zip(objs, jobs) if j[2] != "sim"]):
        for f in ("/native", "/w"):      # only one check needs them
            if os.path.exists(B + f):
                os.remove(B + f)
    exe = B + "/sim"
    key = sha(*[o + fhash(o) for o in sorted(objs)])
    stamp = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        with open(B + "/objs.rsp", "w") as f:
            # the simulator comes last, so that of every template instantiation the instrumented copy wins
            f.write("\n".join(sorted(o for o, j in zip(objs, jobs) if j[2] != "sim") +
                              sorted(o for o, j in zip(objs, jobs) if j[2] == "sim")))
        r = subprocess.run(["clang++", "-no-pie", "-rdynamic", "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") else "-g",
                            "@" + B + "/objs.rsp", "-o", exe, "-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose,--wrap=dlerror", "-lleveldb", "-ldb_cxx", "-lgmp", "-lz", "-lpthread", "-ldl"],
                           capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("LINK ERROR " + r.stderr[-6000:] + "\n")
            return 3
        open(stamp, "w").write(key)
    sys.stderr.write("build: %d of %d objects compiled\n" % (n, len(jobs)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
