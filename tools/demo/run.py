import os, shutil, subprocess, sys, tarfile, tempfile
here, repo = os.path.dirname(os.path.abspath(__file__)), sys.argv[1]
CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
default-run = "demo"
[workspace]
[dependencies]
spartan = { path = "%(r)s/packages/Spartan-secq" }
spartan_wasm = { path = "%(r)s/packages/spartan_wasm" }
circuit_reader = { path = "%(r)s/packages/circuit_reader" }
poseidon = { path = "%(r)s/packages/poseidon" }
secq256k1 = { path = "%(r)s/packages/secq256k1" }
merlin = "3.0.0"
getrandom = { version = "0.2", features = ["std"] }
bincode = "1.3.3"
ff = "0.12"
serde = { version = "1", features = ["derive"] }
group = "0.12"
[profile.dev]
opt-level = 1
debug = 0
[patch.crates-io]
%(p)s
"""
with tempfile.TemporaryDirectory(prefix="demo-", dir="/tmp") as work:
    with tarfile.open(here + "/kit.tar.gz") as t:
        t.extractall(work)
    os.makedirs(work + "/demo/src")
    os.makedirs(work + "/demo/.cargo")
    os.makedirs(work + "/scratch")
    patch = "".join('%s = { path = "../shims/%s" }\n' % (n, n) for n in sorted(os.listdir(work + "/shims")))
    open(work + "/demo/Cargo.toml", "w").write(CARGO % {"r": repo, "p": patch})
    shutil.copy(work + "/Cargo.lock", work + "/demo/Cargo.lock")
    [shutil.copy(here + "/" + f, work + "/demo/src/" + f) for f in os.listdir(here) if f.endswith(".rs")]
    # the setup tool, as a second program
    os.makedirs(work + "/demo/src/bin")
    shutil.copy(repo + "/packages/circuit_reader/src/bin/gen_spartan_inst.rs", work + "/demo/src/bin/tool.rs")
    open(work + "/demo/.cargo/config.toml", "w").write("""[net]
offline = true
[source."https://github.com/DanTehrani/elliptic-curves.git"]
git = "https://github.com/DanTehrani/elliptic-curves.git"
replace-with = "primeorder-offline"
[source.primeorder-offline]
directory = "../vendor"
""")
    env = dict(os.environ, CARGO_TARGET_DIR=work + "/target", CARGO_NET_OFFLINE="true", DEMO_SCRATCH=work + "/scratch", DEMO_REPO=repo)
    env.pop("RUSTFLAGS", None)
    if subprocess.run(["cargo", "build", "--offline", "-q"], cwd=work + "/demo", env=env, stderr=open(work + "/log", "w")).returncode:
        print("".join(open(work + "/log").readlines()[-40:]))
        sys.exit(99)
    r = subprocess.run([work + "/target/debug/demo"], cwd=work + "/scratch", env=env, timeout=240).returncode
    print("exit", r)
sys.exit(1 if r else 0)
