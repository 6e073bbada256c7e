"""Regenerate the LLVM IR of the real program from the repository's working
tree: cargo (fat LTO, unoptimised bitcode) -> internalise -> redirect the
external-crate functions that stand for the environment -> opt -O1.

The result is cached under /verif/.work by a hash of everything that goes in.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
TOOLCHAIN = "1.84.1"


class BuildError(Exception):
    pass


def llvm_bin():
    for t in sorted(glob.glob(os.path.expanduser(
            "~/.rustup/toolchains/*/lib/rustlib/x86_64-unknown-linux-gnu/bin"))):
        if "stable" in t and os.path.exists(t + "/opt"):
            return t
    for t in sorted(glob.glob(os.path.expanduser(
            "~/.rustup/toolchains/*/lib/rustlib/x86_64-unknown-linux-gnu/bin"))):
        if os.path.exists(t + "/opt"):
            return t
    raise BuildError("no llvm-tools")


def source_hash():
    h = hashlib.sha256()
    files = [__file__]
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "target")
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
            e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never",
             RUSTFLAGS="-C no-prepopulate-passes -C debuginfo=0",
             CARGO_TARGET_DIR=os.path.join(WORK, "target"))
    return e


def _workspace():
    """the harness workspace with the repository path filled in"""
    ws = os.path.join(WORK, "ws")
    src = os.path.join(VERIF, "harness")
    want = {}
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x != "target"]
        for f in fs:
            p = os.path.join(d, f)
            b = open(p, "rb").read()
            if f == "Cargo.toml":
                b = b.replace(b'path = "/repo"', b'path = "%s"' % REPO.encode())
                if os.path.relpath(p, src) == "Cargo.toml":
                    m = open(os.path.join(REPO, "Cargo.toml")).read()
                    rel = re.search(r"\[profile\.release\](.*?)(\n\[|\Z)", m, re.S)
                    if rel and re.search(r"overflow-checks\s*=\s*true", rel.group(1)):
                        b = b.replace(b"overflow-checks = false", b"overflow-checks = true")
            want[os.path.relpath(p, src)] = b
    for rel, b in want.items():
        p = os.path.join(ws, rel)
        if os.path.exists(p) and open(p, "rb").read() == b:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(b)
    return ws


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout


SHIMS = [  # (mangled-name pattern, shim)
    (r"_ZN13solana_pubkey6Pubkey20find_program_address17h", "shim_find_program_address"),
    (r"_ZN13solana_pubkey6Pubkey24try_find_program_address17h", "shim_try_find_program_address"),
    (r"_ZN13solana_pubkey6Pubkey22create_program_address17h", "shim_create_program_address"),
    (r"_ZN13solana_sysvar13program_stubs17sol_invoke_signed17h", "shim_sol_invoke_signed"),
    (r"_ZN13solana_sysvar13program_stubs19sol_get_rent_sysvar17h", "shim_sol_get_rent_sysvar"),
    (r"_ZN13solana_sysvar13program_stubs20sol_get_clock_sysvar17h", "shim_sol_get_clock_sysvar"),
    (r"_ZN13solana_sysvar13program_stubs7sol_log17h", "shim_sol_log"),
    (r"_ZN10solana_msg7sol_log17h", "shim_sol_log"),
    (r"_ZN17solana_curve255197edwards11target_arch16validate_edwards17h", "shim_validate_edwards"),
    (r"_ZN5alloc3fmt6format12format_inner17h", "shim_format_inner"),
    (r"_ZN4core3fmt5write17h", "shim_fmt_write"),
]
# bodies that become declarations, handled by the executor itself
DECLARE = [
    r"_ZN4core9panicking9panic_fmt17h",
    r"_ZN4core9panicking19panic_nounwind",
    r"_ZN5alloc5alloc18handle_alloc_error17h",
    r"_ZN3std2io5stdio6_print17h", r"_ZN3std2io5stdio7_eprint17h",
    r"__rust_alloc$", r"__rust_dealloc$", r"__rust_realloc$", r"__rust_alloc_zeroed$",
    r"__rust_alloc_error_handler$", r"__rust_start_panic$",
]
DEF = re.compile(r'^define [^@]*@("[^"]+"|[\w.$]+)\(')
FMT = re.compile(r'as\$u20\$core\.\.fmt\.\.\w+\$GT\$3fmt17h|_ZN4core3fmt3num|_ZN4core3fmt9Formatter')


def rewrite(src, dst):
    """redirect environment functions; returns the list of redirections"""
    text = open(src).read()
    lines = text.split("\n")
    names = []
    for l in lines:
        if l.startswith("define "):
            m = DEF.match(l)
            if m:
                names.append(m.group(1).strip('"'))
    always = set(re.findall(r"^attributes (#\d+) = \{ [^\n]*alwaysinline", text, re.M))
    redirect, drop = {}, set()
    for n in names:
        for pat, shim in SHIMS:
            if re.match(pat, n):
                redirect[n] = shim
        for pat in DECLARE:
            if re.match(pat, n):
                drop.add(n)
    out, i, emptied = [], 0, []
    while i < len(lines):
        l = lines[i]
        if l.startswith("define "):
            m = DEF.match(l)
            n = m.group(1).strip('"') if m else ""
            if n in redirect or n in drop or FMT.search(n):
                j = i
                while lines[j] != "}":
                    j += 1
                if n in drop:
                    head = l[:l.rindex("{")].rstrip()
                    head = re.sub(r"^define ((internal|private|hidden|dso_local|weak|linkonce_odr|noundef) )*", "declare ", head)
                    head = re.sub(r"\bunnamed_addr\b|\blocal_unnamed_addr\b|personality .*$", "", head)
                    head = re.sub(r" %[\w.]+(?=[,)])", "", head)
                    head = re.sub(r" comdat.*$| !dbg !\d+", "", head)
                    out.append(head)
                elif n in redirect:
                    pass
                else:
                    # a formatter: formatting is not the subject
                    r = re.match(r"^define (?:internal |hidden |dso_local |private )*(?:noundef |zeroext |range\([^)]*\) )*(i1|i8|void|ptr|i64)\b", l)
                    if r and r.group(1) in ("i1", "i8", "void"):
                        out.append(l)
                        out.append("start:")
                        out.append("  ret void" if r.group(1) == "void" else "  ret %s 0" % r.group(1))
                        out.append("}")
                        emptied.append(n)
                    else:
                        out += lines[i:j + 1]
                i = j + 1
                continue
            if n.startswith("_ZN3dlp") or "$LT$dlp.." in n:
                a = re.search(r" (#\d+)(?= (?:personality |\{))", l)
                if a and a.group(1) not in always and "noinline" not in l:
                    l = l[:a.start()] + " noinline" + l[a.start():]
        out.append(l)
        i += 1
    text = "\n".join(out)
    for n, s in redirect.items():
        q = '@"%s"' % n
        text = text.replace(q, "@" + s) if q in text else re.sub(
            r"@%s(?![\w.$])" % re.escape(n), "@" + s, text)
    # debug-only intrinsics and inline hints do not matter; keep allocation calls
    open(dst, "w").write(text)
    return {"redirected": redirect, "declared": sorted(drop), "formatters_emptied": len(emptied)}


def build(log=lambda s: None):
    """-> path of the lean .ll"""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = source_hash()
        cdir = os.path.join(WORK, "cache", h)
        lean = os.path.join(cdir, "lean.ll")
        if os.path.exists(lean):
            return lean, cdir
        t0 = time.time()
        ws = _workspace()
        lockf = os.path.join(ws, "Cargo.lock")
        deps = os.path.join(WORK, "target/release/deps")
        for f in glob.glob(deps + "/irh-*"):
            os.unlink(f)
        os.utime(os.path.join(ws, "ir/src/lib.rs"))
        _run(["cargo", "rustc", "--release", "--offline", "--lib", "-p", "irh",
              "--", "-C", "save-temps"], cwd=ws, env=_env())
        bcs = glob.glob(deps + "/irh-*.lto.input.bc")
        if len(bcs) != 1:
            raise BuildError("expected one lto.input.bc, got %r" % bcs)
        log("cargo %.1fs" % (time.time() - t0))
        tmp = os.path.join(WORK, "tmp.%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        L = llvm_bin()
        api = "harness_*,shim_*"
        _run([L + "/opt", "-strip-debug", "-passes=internalize,globaldce",
              "-internalize-public-api-list=" + api, bcs[0], "-o", tmp + "/s.bc"])
        _run([L + "/llvm-dis", tmp + "/s.bc", "-o", tmp + "/s.ll"])
        info = rewrite(tmp + "/s.ll", tmp + "/r.ll")
        _run([L + "/opt", "-passes=internalize,globaldce,default<O1>,internalize,globaldce",
              "-internalize-public-api-list=harness_*",
              "-vectorize-loops=false", "-vectorize-slp=false",
              tmp + "/r.ll", "-S", "-o", tmp + "/lean.ll"])
        os.makedirs(cdir, exist_ok=True)
        open(cdir + "/info.txt", "w").write(repr(info))
        os.rename(tmp + "/lean.ll", lean)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp)
        for f in glob.glob(deps + "/irh-*.bc"):
            os.unlink(f)
        # keep the cache small
        ents = sorted(glob.glob(os.path.join(WORK, "cache", "*")), key=os.path.getmtime)
        for e in ents[:-4]:
            if e != cdir:
                shutil.rmtree(e, ignore_errors=True)
        log("ir %.1fs" % (time.time() - t0))
        return lean, cdir
    finally:
        lock.close()


def build_replay(log=lambda s: None):
    """-> path of the native replay binary for the current tree"""
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        cdir = os.path.join(WORK, "cache", source_hash())
        os.makedirs(cdir, exist_ok=True)
        exe = os.path.join(cdir, "replay")
        if os.path.exists(exe):
            return exe
        t0 = time.time()
        ws = _workspace()
        _run(["cargo", "build", "--release", "--offline", "-p", "replay"], cwd=ws, env=_env())
        shutil.copy(os.path.join(WORK, "target/release/replay"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
        log("replay binary %.1fs" % (time.time() - t0))
        return exe
    finally:
        lock.close()


if __name__ == "__main__":
    print(build(print))
    if "replay" in sys.argv:
        print(build_replay(print))
