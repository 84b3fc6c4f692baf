"""Evaluates the repository's .bzl files on a stand-in of Bazel: one JSON request per line, one JSON answer per line.

Only what the build language documents is modelled: loading, rules with label and output attributes,
files with their paths, and actions, which are recorded."""
import json, sys


class Fail(Exception):
    pass


class Struct(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def to_json(self):
        return json.dumps(plain(self))


def plain(x):
    if isinstance(x, Struct):
        return {k: plain(v) for k, v in x.__dict__.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, File):
        raise Fail("a file has no JSON form")
    return x


class File(object):
    def __init__(self, path, short_path, root, source=False):
        self.path, self.short_path, self.root, self.is_source = path, short_path, Struct(path=root), source
        self.basename = path.rsplit("/", 1)[-1]
        self.dirname = path.rsplit("/", 1)[0] if "/" in path else ""
        self.extension = self.basename.rsplit(".", 1)[-1] if "." in self.basename else ""


class Args(object):
    def __init__(self):
        self.list = []

    def add(self, a, b=None, format=None):
        for x in ([a] if b is None else [a, b]):
            s = x.path if isinstance(x, File) else str(x)
            self.list.append(format % s if format and x is (a if b is None else b) else s)

    def add_all(self, a, b=None):
        if b is not None:
            self.list.append(a)
            a = b
        for x in a:
            self.add(x)


def strings(args):
    out = []
    for a in args:
        if isinstance(a, Args):
            out += a.list
        elif isinstance(a, str):
            out.append(a)
        else:
            raise Fail("argument %r is not a string" % (a,))
    return out


class Target(dict):
    pass


class World(object):
    def __init__(self, req):
        self.req = req
        self.targets = {}  # the names taken in the package
        self.rules, self.libs, self.writes = [], [], []

    def take(self, name, what):
        if not isinstance(name, str) or not name:
            raise Fail("bad name %r" % (name,))
        if name in self.targets:
            raise Fail("%s %r conflicts with %s" % (what, name, self.targets[name]))
        self.targets[name] = what

    def label(self, l):
        """The label in full, of the main repository if it names none."""
        l = str(l)
        repo = self.req["repo"]
        if l.startswith("@"):
            repo, l = l[1:].split("//", 1)
            l = "//" + l
        if l.startswith("//"):
            l = l[2:]
            pkg, name = l.split(":", 1) if ":" in l else (l, l.rsplit("/", 1)[-1])
        else:
            pkg, name = self.req["pkg"], l[1:] if l.startswith(":") else l
        return repo, pkg, name

    def full(self, l):
        return "@%s//%s:%s" % self.label(l)

    def file(self, l, generated):
        repo, pkg, name = self.label(l)
        p = pkg + "/" + name if pkg else name
        short = "../" + repo + "/" + p if repo else p
        path = "external/" + repo + "/" + p if repo else p
        root = self.req["root"] if generated else ""
        return File(root + "/" + path if root else path, short, root, not generated)

    def rule(self, implementation=None, attrs=None, **kw):
        attrs = dict(attrs or {})
        w = self

        def call(**kw):
            known = set(attrs) | {"name", "visibility", "tags", "testonly", "deprecation", "features", "compatible_with", "toolchains", "restricted_to"}
            for k in kw:
                if k not in known:
                    raise Fail("no such attribute %r" % k)
            w.take(kw.get("name"), "rule")
            vals = {}
            for k, a in attrs.items():
                v = kw.get(k)
                if v is None and a.get("mandatory"):
                    raise Fail("missing value for mandatory attribute %r" % k)
                if v is None:
                    v = a.get("default")
                vals[k] = (a, v)
            outs = []
            for k, (a, v) in vals.items():
                if a["kind"] == "output" and v is not None:
                    repo, pkg, name = w.label(v)
                    if pkg != w.req["pkg"] or repo != w.req["repo"]:
                        raise Fail("output in another package")
                    w.take(name, "output")
                    outs.append(w.full(v))
            w.rules.append({"name": kw["name"], "visibility": kw.get("visibility"), "outs": outs, "vals": vals, "impl": implementation})

        return call

    def analyse(self, r):
        ctx = Struct(files=Struct(), file=Struct(), attr=Struct(name=r["name"]), outputs=Struct(), executable=Struct(), actions=None,
                     label=Struct(name=r["name"], package=self.req["pkg"]), bin_dir=Struct(path=self.req["root"]), genfiles_dir=Struct(path=self.req["root"]))
        outs = {}
        for k, (a, v) in r["vals"].items():
            if a["kind"] == "output":
                f = self.file(v, True) if v is not None else None
                setattr(ctx.outputs, k, f)
                setattr(ctx.attr, k, v)
                if f:
                    outs[f.path] = f
            elif a["kind"] in ("label", "label_list") and v is not None:
                many = [v] if a["kind"] == "label" else list(v)
                if a["kind"] == "label_list" and not isinstance(v, (list, tuple)):
                    raise Fail("%r is not a list" % k)
                fs, ts = [], []
                for l in many:
                    if a.get("executable"):
                        f = File("bazel-out/host/bin/" + self.label(l)[2] + "_/tool", "tool", "bazel-out/host/bin")
                        f.tool = self.full(l)
                        setattr(ctx.executable, k, f)
                    else:
                        f = self.file(l, self.full(l) in self.req.get("generated", []))
                        ext = a.get("allow_single_file")
                        if isinstance(ext, list) and not any(f.path.endswith(e) for e in ext):
                            raise Fail("%r: misplaced file %s" % (k, f.path))
                    fs.append(f)
                    t = Target(files=fs)
                    lib = self.req.get("libs", {}).get(self.full(l))
                    if lib:
                        t[self.GoLibrary] = Struct(importpath=lib["importpath"], srcs=[File(p, p, self.req["root"]) for p in lib["srcs"]], name=l)
                    ts.append(t)
                setattr(ctx.files, k, fs)
                if a.get("allow_single_file"):
                    setattr(ctx.file, k, fs[0])
                setattr(ctx.attr, k, ts[0] if a["kind"] == "label" else ts)
            else:
                setattr(ctx.attr, k, v)
        actions = []

        def record(kind, inputs=(), outputs=(), arguments=(), executable=None, command=None, tools=(), **kw):
            for o in outputs:
                if o.path not in outs:
                    raise Fail("output %s is not declared" % o.path)
            actions.append({"kind": kind, "inputs": [f.path for f in inputs], "outputs": [f.path for f in outputs], "arguments": strings(arguments),
                            "tool": getattr(executable, "tool", str(executable)), "command": command or ""})

        ctx.actions = Struct(run=lambda **kw: record("run", **kw), run_shell=lambda **kw: record("run_shell", **kw), args=Args)
        r["impl"](ctx)
        made = [o for a in actions for o in a["outputs"]]
        if len(made) != len(set(made)):
            raise Fail("two actions make one output")
        for o in outs:
            if o not in made:
                raise Fail("no action makes %s" % o)
        return {"name": r["name"], "visibility": r["visibility"], "outs": r["outs"], "out_paths": sorted(outs), "actions": actions}

    def go_library(self, **kw):
        self.take(kw.get("name"), "go_library")
        for k in ("deps", "srcs"):
            full = [self.full(l) for l in kw.get(k) or []]
            if len(full) != len(set(full)):
                raise Fail("a label is duplicated in %s: %s" % (k, full))
            kw[k] = full
        self.libs.append(kw)

    def write_source_files(self, **kw):
        self.take(kw.get("name"), "write_source_files")
        kw["files"] = {k: self.full(v) for k, v in kw["files"].items()}
        self.writes.append(kw)

    def go_context(self, ctx, attr=None):
        def library_to_source(go, attr, library, coverage_instrumented, **kw):
            return Struct(srcs=list(library.srcs), library=library)
        return Struct(library_to_source=library_to_source)

    def module(self, path):
        self.GoLibrary = "GoLibrary"

        def attribute(kind):
            def f(**kw):
                kw["kind"] = kind
                return kw
            return f

        def fail(msg="", *args, **kw):
            raise Fail("fail: " + str(msg))

        loaded = {"go_library": self.go_library, "GoLibrary": self.GoLibrary, "GoSource": "GoSource", "go_context": self.go_context,
                  "GoProtoCompiler": "GoProtoCompiler", "write_source_files": self.write_source_files}
        g = {}

        def load(file, *names, **kw):
            for n in names:
                g[n] = loaded[n]
            for k, n in kw.items():
                g[k] = loaded[n]

        kinds = ["label", "label_list", "output", "output_list", "string", "string_list", "bool", "int"]
        g.update(load=load, rule=self.rule, attr=Struct(**{k: attribute(k) for k in kinds}), Label=str, struct=lambda **kw: Struct(**kw), fail=fail,
                 json=Struct(encode=lambda x: json.dumps(plain(x))), depset=lambda direct=(), transitive=(): list(direct), select=lambda d: d,
                 DefaultInfo=lambda **kw: Struct(**kw), native=Struct(), provider=lambda *a, **kw: (lambda **k: Struct(**k)), print=lambda *a: None)
        with open(path) as f:
            exec(compile(f.read(), path, "exec"), g)
        return g


def answer(req):
    w = World(req)
    try:
        g = w.module(req["bzl"])
        shared = {k: list(v) for k, v in req.get("shared", {}).items()}
        for c in req["calls"]:
            kw = dict(c["args"])
            for k, v in c.get("shared_args", {}).items():
                kw[k] = shared[v]  # one list in several calls, as a BUILD file's constant
            g[c["macro"]](**kw)
        for k, v in shared.items():
            if v != req["shared"][k]:
                return {"error": "the caller's list became %r" % (v,)}
        return {"rules": [w.analyse(r) for r in w.rules], "libraries": w.libs, "writes": w.writes}
    except Fail as e:
        return {"failed": str(e)}
    except Exception as e:
        return {"failed": "%s: %s" % (type(e).__name__, e)}


for line in sys.stdin:
    sys.stdout.write(json.dumps(answer(json.loads(line))) + "\n")
    sys.stdout.flush()
