#!/usr/bin/env python3
"""Writes /verif/.build/build.ninja from /repo's makefile.cmk files.

The project's makefile.cmk files are plain python that declare targets. They are
evaluated against a recorder and the compile and link steps are re-emitted, with
all output below /verif/.build (nothing is written in /repo). On top of that the
harnesses of /verif/harness are declared (see build/harness.py)."""
import ast, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = os.environ.get("CASUAL_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/.build")
THIRDPARTY = ROOT + "/casual-thirdparty-is-not-available"
SHIM = VERIF + "/shim"


class Anything:
    def __getattr__(self, name): return self
    def __call__(self, *a, **k): return self


class Target:
    def __init__(self, output): self.output = output


objects = {}
links = []
libraries = {}
by_source = {}


def flatten(items):
    return [items] if isinstance(items, (str, Target)) else list(items)


class Makefile:
    def __init__(self, filename):
        self.directory = os.path.dirname(filename)
        self.includes = []
        self.model = Anything()

    def absolute(self, path): return os.path.normpath(os.path.join(self.directory, path))
    def existing(self, paths): return [p for p in map(self.absolute, paths) if not p.startswith(THIRDPARTY)]

    def Build(self, path):
        path = self.absolute(path)
        if not path.startswith(THIRDPARTY): evaluate(path)

    def IncludePaths(self, paths): self.includes = self.existing(paths)
    def LibraryPaths(self, paths): pass
    def optional_include_paths(self): return []
    def optional_library_paths(self): return []
    def source_root(self): return ROOT
    def Environment(self, *a): pass
    def Dependencies(self, *a): pass
    def Install(self, *a): pass
    def GenerateDocumentation(self, *a, **k): pass

    def Compile(self, source, destination=None, directive=()):
        source = self.absolute(source)
        rel = os.path.relpath(source, ROOT)
        output = BUILD + "/obj/" + rel + ".o"
        if output in objects and objects[output][1] != self.includes:
            output = BUILD + "/obj/" + os.path.relpath(self.directory, ROOT) + "/_from/" + rel + ".o"
        objects[output] = (source, list(self.includes), list(directive))
        by_source.setdefault(rel, output)
        return Target(output)

    def _link(self, kind, output, objs, libs):
        links.append(dict(kind=kind, output=output, objects=[o.output for o in objs], libs=flatten(libs)))
        return Target(output)

    def LinkLibrary(self, name, objs, libs=()):
        base = os.path.basename(name)
        output = BUILD + "/lib/lib" + base + ".so"
        libraries.setdefault(base, output)
        return self._link("shared", output, objs, libs)

    def LinkArchive(self, name, objs):
        base = os.path.basename(name)
        output = BUILD + "/lib/lib" + base + ".a"
        libraries.setdefault(base, output)
        return self._link("archive", output, objs, [])

    def LinkExecutable(self, name, objs, libs=()):
        return self._link("exe", BUILD + "/bin/" + os.path.basename(name), objs, libs)

    def LinkUnittest(self, name, objs, libs=()): return Target("unittest")
    def LinkServer(self, name, objs, libs, definition, resources=None, configuration=None): return Target("server")

    def paths(self):
        class Group: serialization = cppcodec = gtest = []
        class Paths:
            thirdparty = THIRDPARTY
            install = "/opt/casual"
            include = Group
            library = Group
        return Paths


def evaluate(filename):
    tree = ast.parse(open(filename).read(), filename)
    tree.body = [n for n in tree.body if not (
        isinstance(n, ast.Import) and n.names[0].name.startswith("casual.")
        or isinstance(n, ast.ImportFrom) and (n.module or "").startswith("casual."))]
    make = Makefile(filename)

    class casual:
        class middleware:
            class make: api = None
    casual.middleware.make.api = make
    exec(compile(tree, filename, "exec"),
         dict(__file__=filename, make=make, dsl=make, casual=casual, model=Anything(), Recipe=Anything()))


def libname(item):
    if isinstance(item, Target): return os.path.basename(item.output)[3:].rsplit(".", 1)[0]
    return item


def esc(p): return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


SYSTEM = []


def main():
    sys.path.insert(0, HERE)
    import harness
    evaluate(ROOT + "/makefile.cmk")
    out = ["ninja_required_version = 1.5", f"builddir = {BUILD}", "",
           "cxx = /usr/bin/g++",
           "cxxflags = -std=c++23 -O1 -g0 -pthread -fPIC -w",
           "rule cxx",
           f"  command = cd $dir && $cxx $cxxflags $directive $includes -I{SHIM} -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc", "  description = compile $in",
           "rule rename", "  command = objcopy --redefine-sym main=sut_main $in $out", "  description = rename $out",
           "rule archive", "  command = rm -f $out && ar rcs $out $in", "  description = archive $out",
           "rule shared",
           f"  command = $cxx -shared -pthread -fuse-ld=bfd -o $out $in -L{BUILD}/lib $libs -Wl,-rpath,{BUILD}/lib",
           "  description = link $out",
           "rule exe",
           f"  command = $cxx -pthread -rdynamic -o $out $in -L{BUILD}/lib $libs -Wl,-rpath,{BUILD}/lib -Wl,-rpath-link,{BUILD}/lib",
           "  description = link $out", ""]
    for output, (source, includes, directive) in sorted(objects.items()):
        out += [f"build {esc(output)}: cxx {esc(source)}", f"  dir = {ROOT}/middleware",
                "  includes = " + " ".join("-I" + p for p in includes),
                "  directive = " + " ".join(directive)]

    # a library's transitive dependencies, so that harnesses link without guessing
    for l in links:
        deps = list(dict.fromkeys(d for d in (libraries.get(libname(i)) for i in l["libs"]) if d and d != l["output"]))
        l["deps"] = deps
    dep_of = {l["output"]: l["deps"] for l in links}

    def closure(items, seen=None):
        seen = [] if seen is None else seen
        for i in items:
            if i in seen: continue
            seen.append(i)
            closure(dep_of.get(i, []), seen)
        return seen

    for l in links:
        rule = l["kind"]
        names = [libname(i) for i in l["libs"]]
        names = [n for n in names if n in libraries or n not in ("gtest", "gtest_main")]
        out.append(f"build {esc(l['output'])}: {rule} " + " ".join(map(esc, l["objects"])) + " | " + " ".join(map(esc, l["deps"])))
        if rule != "archive":
            out.append("  libs = -Wl,--start-group " + " ".join("-l" + n for n in names) + " -Wl,--end-group")

    allsource = by_source
    exes = {os.path.basename(l["output"]): l for l in links if l["kind"] == "exe"}
    emitted = set()

    def compiled(source, obj, includes, flags, dir):
        if obj not in emitted:
            emitted.add(obj)
            out.extend([f"build {esc(obj)}: cxx {esc(source)}", f"  dir = {dir}",
                "  includes = " + " ".join("-I" + p for p in includes), "  directive = " + flags])
        return obj

    for name, h in harness.HARNESSES.items():
        objs = []
        names = list(h.get("libs", []))
        incs = []
        exe = exes[h["exe"]] if "exe" in h else None
        if exe:
            # the objects and libraries of the program, its main renamed
            main_object = next(o for o in exe["objects"] if o.endswith("/main.cpp.o"))
            for o in exe["objects"]:
                source, includes, directive = objects[o]
                if o == main_object:
                    incs = includes
                    renamed = f"{BUILD}/hobj/_main/{h['exe']}.o"
                    if renamed not in emitted:
                        emitted.add(renamed)
                        out.append(f"build {esc(renamed)}: rename {esc(o)}")
                    o = renamed
                objs.append(o)
            names += [n for n in map(libname, exe["libs"]) if n not in names]
        if "like" in h: incs = list(objects[allsource[h["like"]]][1])
        incs = incs + [f"{ROOT}/middleware/{i}" for i in h.get("includes", []) if f"{ROOT}/middleware/{i}" not in incs]
        for s in h["sources"]:
            flags = h.get("flags", "")
            key = "_" if s in ("vk.cpp", "vkc.cpp", "vkfs.cpp") else name
            use = [f"{ROOT}/middleware/xatmi/include", f"{ROOT}/middleware/common/include", f"{ROOT}/middleware/configuration/include", f"{ROOT}/thirdparty/database/include"] if key == "_" else incs
            objs.append(compiled(f"{VERIF}/harness/{s}", f"{BUILD}/hobj/{key}/{os.path.basename(s)}.o",
                [VERIF + "/harness"] + use, "" if key == "_" else flags, VERIF + "/harness"))
        for s in h.get("repo", []):
            objs.append(allsource[s])
        deps = closure([libraries[n] for n in names if n in libraries])
        target = f"{BUILD}/check/{name}"
        out.append(f"build {esc(target)}: exe " + " ".join(map(esc, objs)) + " | " + " ".join(map(esc, deps)))
        wrap = " ".join("-Wl,--wrap=" + w for w in h.get("wrap", []))
        out.append(f"  libs = {wrap} -Wl,--start-group " + " ".join("-l" + n for n in names + h.get("system", [])) + " -Wl,--end-group")
        out.append(f"build {name}: phony {esc(target)}" + "".join(" " + esc(f"{BUILD}/bin/{b}") for b in h.get("bins", [])))
    out.append("build harnesses: phony " + " ".join(harness.HARNESSES))
    text = "\n".join(out) + "\n"
    for d in ("lib", "bin", "check", "hobj", "obj"):
        os.makedirs(f"{BUILD}/{d}", exist_ok=True)
    path = BUILD + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path + ".tmp", "w") as f: f.write(text)
        os.replace(path + ".tmp", path)


if __name__ == "__main__":
    main()
