"""The checks: how each one is built and what it assumes."""
import glob
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import runner

SRC = runner.SRC
CHECKS = {}

OPERATOR = ("The operator is driven through receiveData/executeData (and the control counterparts) one message at a time, as programs "
            "do. Per-port streams are strictly increasing unless the property says otherwise; values are finite.")


def cpp(pid, assumptions, repo=(), extra=(), flags=(), inc=None, asan=True, technique=None):
    def build(build_dir, a):
        incs = inc(build_dir) if inc else ()
        src = os.path.join(SRC, "props", pid + ".cpp")
        exe = os.path.join(build_dir, "prop")
        if asan == "both":
            # the search itself without the address sanitizer (5 times faster), a tenth of it again with it
            with ThreadPoolExecutor(2) as ex:
                fast = ex.submit(runner.build_cpp, build_dir, src, repo, extra, flags, extra_inc=incs, asan=False)
                slow = ex.submit(runner.build_cpp, os.path.join(build_dir, "asan"), src, repo, extra, flags, extra_inc=incs)
                a["second"] = [slow.result()]
                return [fast.result()]
        return [runner.build_cpp(build_dir, src, repo, extra, flags, extra_inc=incs, asan=asan)]

    def fuzz(build_dir):
        incs = inc(build_dir) if inc else ()
        return runner.build_cpp(os.path.join(build_dir, "fuzz"), os.path.join(SRC, "props", pid + ".cpp"), repo, extra, flags, fuzzer=True,
                                extra_inc=incs)

    CHECKS[pid] = {"build": build, "assumptions": assumptions, "fuzz": fuzz}
    if technique:
        CHECKS[pid]["technique"] = technique


for i in range(1, 16):
    cpp("C%02d" % i, [OPERATOR])

OBJECTS = sorted(os.path.relpath(f, runner.REPO) for f in glob.glob(os.path.join(runner.REPO, "libs/api/src/*.cpp")))
API = [f for f in OBJECTS if not f.endswith("/bindings.cpp")]
PROGRAM = ("Programs are acyclic graphs over all the operator kinds of the registry, built from their JSON definition through the public "
           "API. Per-port input is strictly increasing in time where the entry operator is not an Input.")
cpp("C18", asan="both", repo=API, assumptions=[PROGRAM, "Values lie on a dyadic grid, so that most operators compute exactly; where they cannot, values are compared to within "
            "1e-9 of the largest magnitude involved, and an operator that is discontinuous in an inexact value is not fed with it. The "
            "Hermite resampler's artificial first neighbour may use the mean gap rounded or not."])
cpp("C17", asan="both", repo=API, assumptions=[PROGRAM, "Where the entry operator has several ports, a batch may change the order in which messages of different ports "
            "arrive; the streams emitted over the whole history are compared then, otherwise every single call."])
cpp("C16", asan="both", repo=API, extra=["comp.cpp"], assumptions=[PROGRAM, "Equivalence of states is judged by the outputs of every continuation and by the size of the serialised state."])
cpp("C22", extra=["comp.cpp"], asan="both", assumptions=["Single level composites with one input and one output operator, built and connected through the public builder; the "
            "operators wired by hand are instances of the same classes (their own correctness is the subject of C01-C15)."])
cpp("C19", asan="both", repo=API, assumptions=[PROGRAM, "Single threaded call histories. 'Refused' means an exception, an error text or, for the processing calls on a map of "
            "messages, an empty result."])
cpp("C20", asan="both", repo=API, assumptions=["Numbers are finite. Which fields exist, which are optional and their defaults is taken from the operators' documentation "
            "(the front matter of the .md files); RelativeStrengthIndex and Pipeline, which have none, from their JSON reader."])
cpp("C21", asan="both", repo=API, assumptions=[PROGRAM, "The operators of a pipeline wired in place keep their parameters; their ids get the pipeline's id in front. Where the entry "
            "operator is a pipeline, an Input forwards the (strictly increasing) messages to the operators wired in place."])
cpp("C23", asan="both", repo=API, assumptions=["Faulty definitions are valid ones with one fault whose effect is certain; arbitrary JSON and damaged texts only have to be "
            "handled without a crash or hang, whether they are accepted or refused. Operator graphs stay acyclic in definite faults.",
            "Refused: createProgram throws or returns a non-empty text."])
cpp("C24", asan="both", repo=API, extra=["comp.cpp"], assumptions=[PROGRAM, "Every operator is fed strictly increasing times per port. Programs with a time shift are exempt from the causality part, "
            "and from a message that was clamped to time zero on nothing is compared."])
cpp("C25", asan="both", repo=API, assumptions=["Aligned: every input port of the program gets a message for every time, and no operator withholds a message of one branch "
            "for good. Buffer sizes are read through the operators' public accessors, the state through the public serialisation.",
            "A program has reached its full state after 60 calls (windows have at most six messages)."])
cpp("C26", asan="both", assumptions=["The source emits through the operators' own emit functions; the collectors override the receive and execute functions, as every "
            "operator may. Whether a single control port may be left out of a connection is not specified. In which order the "
            "connections of one port are served is left open."])


# --- the generated files and the wrappers ---------------------------------------------------------------------------
NODE = "/opt/veriftools/node/node_modules"
JS = os.path.join(runner.ROOT, "js")


def run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise runner.BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))


def esbuild(entry, out, stubs, more=()):
    alias = ["--alias:%s=%s" % (m, os.path.join(JS, "stubs", f)) for m, f in stubs.items()]
    run([os.path.join(NODE, ".bin", "esbuild"), entry, "--bundle", "--platform=node", "--outfile=" + out, "--log-level=error"] + alias + list(more),
        "bundling " + entry, env=dict(os.environ, NODE_PATH=NODE))


def generated(build_dir, *targets):
    """Run the repository's code generator (tools/generator) over the operators' documentation."""
    root = os.path.join(build_dir, "generator")
    out = os.path.join(root, "out")
    os.makedirs(os.path.join(out, "rtbot"), exist_ok=True)
    shutil.copytree(os.path.join(runner.REPO, "tools/generator/templates"), os.path.join(root, "templates"), dirs_exist_ok=True)
    names = ["yaml", "prettier", "chalk", "json-schema-to-typescript", "json-schema-to-zod"]
    esbuild(os.path.join(runner.REPO, "tools/generator/src/index.ts"), os.path.join(root, "src", "index.js"), {n: n + ".js" for n in names})
    docs = sorted(glob.glob(os.path.join(runner.REPO, "libs/std/**/*.md"), recursive=True)) + sorted(
        glob.glob(os.path.join(runner.REPO, "libs/core/**/*.md"), recursive=True))
    for t in targets:
        run(["node", os.path.join(root, "src", "index.js"), "--output", out, "--target", t, "--sources", " ".join(docs)], "generating " + t)
    if "cpp" in targets:
        shutil.copy(os.path.join(out, "jsonschema.hpp"), os.path.join(out, "rtbot", "jsonschema.hpp"))
    return out


def bindings(build_dir):
    return [os.path.join(runner.SRC, "stubs"), generated(build_dir, "cpp")]


cpp("C27", asan="both", repo=OBJECTS, inc=bindings, assumptions=[PROGRAM,
    "The JSON schema library is not installed: a stand-in implements the part of draft 7 the schemas use (and refuses unknown keywords). "
    "The schema itself is the one the repository's generator derives from the operators' documentation.",
    "Invalid definitions have one violation that is certain from the operators' documentation."])


def host(build_dir, glue, incs, out, more=()):
    """A shared library with the engine and the functions a binding exposes."""
    base = ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-fPIC", "-include", os.path.join(SRC, "pre.h")]
    base += ["-I" + os.path.join(runner.REPO, i) for i in runner.INC] + ["-I" + i for i in incs] + ["-I" + SRC]
    srcs = [os.path.join(runner.REPO, s) for s in OBJECTS + [glue]] + [os.path.join(SRC, "host", "host.cpp")] + list(more)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(build_dir, "host_" + s.strip("/").replace("/", "_") + ".o")
        objs.append(o)
        jobs.append((base + ["-c", s, "-o", o], s))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(runner.compile_one, jobs))
    runner.compile_one((["clang++", "-shared"] + objs + ["-o", out], out))


def python_check(build_dir, a):
    gen = generated(build_dir, "cpp", "python")
    incs = [os.path.join(SRC, "stubs"), gen]
    pkg = os.path.join(build_dir, "package")
    os.makedirs(os.path.join(pkg, "rtbot"), exist_ok=True)
    for f in glob.glob(os.path.join(runner.REPO, "libs/wrappers/python", "*.py")):
        name = os.path.basename(f)
        if name not in ("setup.py", "conftest.py") and "test" not in name:
            shutil.copy(f, os.path.join(pkg, "rtbot", "__init__.py" if name == "rtbot.py" else name))
    shutil.copy(os.path.join(gen, "jsonschema.py"), os.path.join(pkg, "rtbot", "operators.py"))
    shutil.copy(os.path.join(runner.ROOT, "py", "rtbotapi.py"), os.path.join(pkg, "rtbot", "rtbotapi.py"))
    shutil.copy(os.path.join(runner.ROOT, "py", "child.py"), os.path.join(pkg, "child.py"))
    with ThreadPoolExecutor(2) as ex:
        h = ex.submit(host, build_dir, "libs/wrappers/python/rtbot.cpp", incs, os.path.join(pkg, "rtbot", "libhost.so"))
        p = ex.submit(runner.build_cpp, build_dir, os.path.join(SRC, "props", "C28.cpp"), OBJECTS, (), ['-DBUILD_DIR="%s"' % build_dir],
                      extra_inc=incs, asan=False)
        h.result()
        return [p.result()]


CHECKS["C28"] = {"build": python_check, "assumptions": [PROGRAM,
    "The Python package is the repository's rtbot.py and rtbot.cpp with the operator classes its generator writes; pybind11 is not installed, a "
    "stand-in registers the functions of rtbot.cpp in a table called through ctypes with JSON arguments.",
    "The JSON schema validator is a stand-in (see C27). Non finite values, which JSON cannot express, are reported as NaN."]}



def javascript_check(build_dir, a):
    return javascript(build_dir, "C29", os.path.join(build_dir, "js"), "child.ts")


def cli_check(build_dir, a):
    pkg = os.path.join(build_dir, "cli")
    shutil.rmtree(os.path.join(pkg, "cli"), ignore_errors=True)
    shutil.copytree(os.path.join(runner.REPO, "apps/cli/src"), os.path.join(pkg, "cli"))
    stubs = {"zustand/vanilla": "zustand-vanilla.js", "immer": "immer.js", "papaparse": "papaparse.js", "fs": "fs.js", "blessed": "blessed.js",
             "neo-blessed": "blessed.js"}
    return javascript(build_dir, "C31", pkg, "cli.ts", stubs,
                      ["--alias:@rtbot-dev/rtbot=" + os.path.join(pkg, "package", "index.ts"),
                       "--alias:commander=" + os.path.join(NODE, "precinct", "node_modules", "commander")])


def javascript(build_dir, pid, pkg, child, stubs={}, more=()):
    gen = generated(build_dir, "cpp", "typescript")
    incs = [os.path.join(SRC, "stubs"), gen]
    os.makedirs(os.path.join(pkg, "package"), exist_ok=True)
    for f in glob.glob(os.path.join(runner.REPO, "libs/wrappers/javascript/src", "*.ts")):
        if ".spec." not in f and ".test." not in f:
            shutil.copy(f, os.path.join(pkg, "package", os.path.basename(f)))
    shutil.copy(os.path.join(gen, "index.ts"), os.path.join(pkg, "package", "generated.ts"))
    shutil.copy(os.path.join(JS, child), os.path.join(pkg, child))
    options = '{"compilerOptions":{"target":"ESNext","experimentalDecorators":true,"useDefineForClassFields":true}}'
    with ThreadPoolExecutor(2) as ex:
        h = ex.submit(host, build_dir, "libs/api/wasm/emscripten-bindings.cpp", incs, os.path.join(pkg, "engine.node"),
                      [os.path.join(SRC, "host", "addon.cpp")])
        p = ex.submit(runner.build_cpp, build_dir, os.path.join(SRC, "props", pid + ".cpp"), OBJECTS, (), ['-DBUILD_DIR="%s"' % build_dir],
                      extra_inc=incs, asan=False)
        esbuild(os.path.join(pkg, child), os.path.join(pkg, child[:-3] + ".js"),
                dict({"class-transformer": "class-transformer.js", "@rtbot-dev/wasm": "wasm.js"}, **stubs),
                ["--alias:zod=" + os.path.join(NODE, "zod/v3/index.js"), "--tsconfig-raw=" + options] + list(more))
        h.result()
        return [p.result()]


CHECKS["C29"] = {"build": javascript_check, "assumptions": [PROGRAM,
    "The javascript package is the repository's sources with the operator classes its generator writes, on the embind glue of libs/api/wasm; emscripten "
    "is not installed, a stand-in registers the bound functions in a table called from node through a native addon with JSON arguments.",
    "class-transformer is not installed: a stand-in implements what plainToInstance, instanceToPlain and Exclude do without type metadata; zod is "
    "the installed package in its version 3 mode. Times stay below 2^53, rows of data carry a value per entry port."]}

CHECKS["C31"] = {"build": cli_check, "assumptions": [PROGRAM,
    "The command line interface is the repository's sources on its javascript package, built as in C29, with commander 12. papaparse, immer, "
    "zustand and blessed are not installed: stand-ins parse comma separated text, copy before a change, hold the store, and remember what the screen's "
    "elements were given; files and timers are simulated.",
    "The program has one entry port, times are not negative and stay below 2^53."]}


def rust_check(prop, crate, sources):
    def build(build_dir, a):
        ws = os.path.join(build_dir, "rust")
        shutil.copytree(os.path.join(runner.ROOT, "rust"), ws, dirs_exist_ok=True)
        for where, what in sources.items():
            src = os.path.join(ws, where, "src")
            shutil.rmtree(src, ignore_errors=True)
            shutil.copytree(os.path.join(runner.REPO, what), src)
        for f in ("cxx_bindings.rs", "main.rs") if "engine" in sources else ():
            shutil.copy(os.path.join(ws, "engine", f), os.path.join(ws, "engine", "src", f))
        os.makedirs(os.path.join(ws, "redis", "main"), exist_ok=True)
        shutil.copy(os.path.join(ws, "redis", "main.rs"), os.path.join(ws, "redis", "main", "main.rs"))
        shutil.copy("/opt/veriftools/crates.Cargo.lock", os.path.join(ws, crate, "Cargo.lock"))
        with ThreadPoolExecutor(2) as ex:
            p = ex.submit(runner.build_cpp, build_dir, os.path.join(SRC, "props", prop + ".cpp"), (), (), ['-DBUILD_DIR="%s"' % build_dir], asan=False)
            r = ex.submit(run, ["cargo", "build", "--offline", "-q", "--target-dir", os.path.join(ws, "target"), "--manifest-path",
                                os.path.join(ws, crate, "Cargo.toml")], "the crates")
            r.result()
            return [p.result()]
    return build


CHECKS["C30"] = {"build": rust_check("C30", "engine", {"engine": "apps/rtbot-rs/src"}), "assumptions": [
    "The registry of apps/rtbot-rs is compiled with its own lib.rs; the bridge to the native engine (the cxx crate is not installed, and the engine "
    "functions it calls no longer exist) is a stand-in that records every call and runs pipelines of a simple kind, nanoid a stand-in that never repeats "
    "an id. The engine never refuses a deletion.",
    "Threads of the same case use different input keys, or compete for the same pair of keys."]}

CHECKS["C33"] = {"build": rust_check("C33", "redis", {"engine": "apps/rtbot-rs/src", "redis": "apps/redis-module/src"}), "assumptions": [
    "The module and the registry are compiled with their own sources; redis-module, jsonschema, nanoid and the bridge to the engine are not installed: "
    "stand-ins give a server in memory (documents, time series, publishing, notifications that do not reach the handler that causes them), the keywords of "
    "draft 7, and pipelines of a simple kind that emit at most one message per sample, as the bridge does.",
    "Input keys and output keys are different keys; the samples of an input key arrive in order; values are finite."]}

CHECKS["C34"] = {"build": rust_check("C34", "server", {"server": "apps/rtbot-server/src"}), "assumptions": [
    "The server is compiled with its own sources on the real asynchronous runtime (one worker); warp, tokio-tungstenite, redis, config, glob, url, "
    "jsonpath-rust, nanoid and pretty_env_logger are not installed: stand-ins give routes, websockets, a redis server and files in memory.",
    "Redis accepts the commands of the start; what is published on the channel of the outputs has the format the redis module publishes; the mapping of the "
    "time is configured."]}


def generator_check(build_dir, a):
    generated(build_dir)
    shutil.copy(os.path.join(JS, "generator.js"), os.path.join(build_dir, "generator.js"))
    shutil.copy(os.path.join(runner.ROOT, "py", "generated.py"), os.path.join(build_dir, "generated.py"))
    return [runner.build_cpp(build_dir, os.path.join(SRC, "props", "C32.cpp"), (), (), ['-DBUILD_DIR="%s"' % build_dir, '-DREPO_DIR="%s"' % runner.REPO], asan=False)]


CHECKS["C32"] = {"build": generator_check, "assumptions": [
    "Operator documents as they are written in the repository: an object schema whose required parameters come before the optional ones, every optional "
    "parameter has a default, names are identifiers in all languages.",
    "json-schema-to-typescript, json-schema-to-zod and prettier are not installed: stand-ins print what those packages print for such schemas (see C29); "
    "the TypeScript module is loaded with its types erased."]}

TECHNIQUE = {
    "C32": "property-based testing of the code generator: generated operator documents against a model of the operators they describe, in every target language, with shrinking",
    "C31": "differential testing of the debug command against the native engine over generated programs and files, stateful model-based testing of its screen, with shrinking",
    "C34": "stateful model-based testing: generated histories of input messages, publications, clients and failures in front of the server, against a model of what is stored and sent, with shrinking",
    "C33": "stateful model-based testing: generated histories of commands and samples sent to the module against a model of keys and live pipelines, with shrinking",
    "C30": "stateful model-based testing of registry histories, also from several threads, against a map of pipelines, with shrinking",
    "C29": "stateful model-based testing of the javascript builder and differential testing of its runs against the native engine, with shrinking",
    "C16": "stateful property-based testing: a program restored from a snapshot next to its undisturbed twin over generated histories, with shrinking",
    "C17": "metamorphic property-based testing: generated programs re-ordered, renamed, cut into other batches and run next to other instances, with shrinking",
    "C18": "model-based property-based testing: generated programs and histories against a reference interpreter, with shrinking",
    "C19": "stateful model-based testing: generated histories of registry calls against a model of stand-alone programs, with shrinking",
    "C20": "property-based testing: JSON round trip and differential behaviour over generated operator definitions, with shrinking",
    "C21": "differential property-based testing: generated nested pipelines against the same operators wired in place, with shrinking",
    "C22": "differential property-based testing: generated composites against the same operators wired by hand, with shrinking",
    "C23": "fault-injecting fuzzing of program definitions (structured mutations and damaged text) with a refusal oracle, with shrinking",
    "C24": "metamorphic property-based testing: prefixes and time offsets of generated histories over generated programs, with shrinking",
    "C25": "property-based testing: invariant on buffer and state sizes over generated long histories, with shrinking",
    "C26": "stateful model-based testing: generated sequences of connect and emit calls against per-connection queues, with shrinking",
    "C27": "differential stateful testing: generated histories of binding calls against the native registry, mutated definitions against the schema, with shrinking",
    "C28": "stateful model-based testing of the Python builder and differential testing of its runs against the native engine, with shrinking",
}
for _k, _v in TECHNIQUE.items():
    if _k in CHECKS:
        CHECKS[_k]["technique"] = _v
