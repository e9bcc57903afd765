import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, hashlib, io, json, pathlib, shutil, tempfile
import vf

PROP = "C17"
LEVEL = "exploration"
META = dict(
    title="Packages: creation is complete, validation catches every tampering",
    statement="create_package_from_entities writes a package whose manifest lists every entity id of geometry/primary.json, the true digest of the file under the chosen algorithm, the tags and material references of the entities in first-use order, and the caller's fields; loading it gives the same manifest and equal geometry, and validate_package accepts it. It refuses an empty entity list and a non-empty target without overwrite, touching nothing. add_geometry_file bundles a byte-exact copy with its true hash, replaces rather than duplicates an entry for the same path, refuses absolute or escaping destinations, existing targets and unknown categories without side effects; recompute_hashes makes edited packages valid again. validate_package returns a verdict, never raises and changes nothing: it accepts every intact package (any algorithm, with derived files, exports, attachments, materials) and rejects, with an ERROR message, any change of one byte of a recorded file, a missing or escaping file, a wrong schema, broken geometry and malformed materials or manifests. A failing save leaves the manifest on disk intact.",
    over=["inputs", "histories", "faults"], q="for all packages, histories of edits and corruptions",
    why="Tests validate one good and one bad package; the guarantee is that no corruption slips through and no good package is refused, for every section and history.",
    files=["src/yapcad/package/core.py", "src/yapcad/package/validator.py"],
    mech=[("create_package_from_entities, add_geometry_file", "src/yapcad/package/core.py"), ("PackageManifest", "src/yapcad/package/core.py"), ("validate_package", "src/yapcad/package/validator.py")],
    technique="reference-model monitor of the package directory (independent YAML/JSON reading, hashlib digests) over random edit histories, with injected corruptions and an oracle that knows whether the package is intact",
    note="Exploration. Directory packages only (zipped archives are specified but not implemented). A corruption of an entry without a hash is only detectable when the file is missing, and is not claimed otherwise.",
)
RULE = "random packages built by random histories of add/replace/recompute, then one random corruption out of 30 kinds; distinct by manifest content and corruption"
REQUIRE = {"packages": 60, "intact": 100, "corrupt": 200, "files_added": 60, "refusals": 60}


def init():
    global g, g3, P, V, C, md, M, gen3, yaml, TMP
    import yaml
    from yapcad import geom as g, geom3d as g3, metadata as md
    import yapcad.package as P
    from yapcad.package import core as C, validator as V
    import mesh3 as M, gen3
    TMP = tempfile.mkdtemp(prefix="c17")


def fini():
    shutil.rmtree(TMP, ignore_errors=True)


def fresh():
    return pathlib.Path(tempfile.mkdtemp(dir=TMP))


def entities(rng):
    from yapcad import geom3d_util as u
    E, tags, mats = [], [], []
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(4)
        if k < 2:
            e = u.prism(*[rng.uniform(1, 4) for _ in range(3)]) if rng.random() < .7 else gen3.solid(rng)
            meta = md.get_solid_metadata(e, create=True)
        elif k == 2:
            e = gen3.surf(rng)
            meta = md.get_surface_metadata(e, create=True)
        else:
            e = [g.arc(g.point(rng.uniform(-5, 5), 0), rng.uniform(1, 3)), g.line(g.point(0, 0), g.point(1, rng.random()))]
            meta = None
        if meta is not None:
            if rng.random() < .6:
                t = rng.sample(["alpha", "Alpha", "b c", "ünï", "q:1", "alpha2"], rng.randint(1, 3))
                md.add_tags(meta, t)
                tags += [x for x in t if x not in tags]
            r = rng.random()
            if r < .25:
                meta["material"] = m = rng.choice(["steel", "Steel", "al-6061", "ABS: grey"])
                mats += [m] * (m not in mats)
            elif r < .5:
                m = rng.choice(["steel", "brass"])
                md.set_material(meta, name=m, density_kg_m3=rng.uniform(900, 9000))
                mats += [m] * (m not in mats)
        E.append(e)
    return E, tags, mats


def sha(p, alg="sha256"):
    return alg + ":" + hashlib.new(alg, pathlib.Path(p).read_bytes()).hexdigest()


def snapshot(root):
    return {str(p.relative_to(root)): (p.read_bytes() if p.is_file() else None) for p in sorted(root.rglob("*"))}


def strip(e):
    if e[0] == "solid":
        return [[s[1:4] for s in e[1]]]
    if e[0] == "surface":
        return e[1:4]
    return e


TEXT = ["p", "Rocket: bulkhead #3", "ünïcode ✓", "yes", "1.0", "- x", "multi\nline", "'q\"", ""]


def make(ctx, rng, alg=None):
    E, tags, mats = entities(rng)
    root = fresh() / rng.choice(["p.ycpkg", "my design", "ü.ycpkg"])
    alg = alg or rng.choice(["sha256"] * 3 + ["sha512", "sha1", "md5", "blake2b"])
    kw = dict(name=rng.choice(TEXT), version=rng.choice(["0.1.0", "1", "2024-01-02"]))
    for k, vals in dict(description=TEXT, author=TEXT[:4], units=["mm", "inch"]).items():
        if rng.random() < .5:
            kw[k] = rng.choice(vals)
    if rng.random() < .3:
        kw["generator"] = {"tool": "t", "build": rng.choice(TEXT)}
    if rng.random() < .3:
        kw["materials"] = {"steel": {"source": {"type": "standard", "standard": {"body": "x", "designation": "y"}}, "visual": {"color": [0.1, .2, 1], "metallic": rng.random()}}}
    man = P.create_package_from_entities(E, root if rng.random() < .5 else str(root), hash_algorithm=alg, **kw)
    ctx.ev("packages")
    d = yaml.safe_load((root / "manifest.yaml").read_text())
    doc = json.loads((root / "geometry/primary.json").read_text())
    pr = d["geometry"]["primary"]
    ctx.check(d["schema"] == "ycpkg-spec-v0.1" and pr["path"] == "geometry/primary.json" and pr["schema"] == doc["schema"], "create:fields", f"{d['schema']} {pr}")
    ctx.check(pr["hash"] == sha(root / pr["path"], alg), "create:hash", f"{pr['hash']} recorded, file has {sha(root / pr['path'], alg)}")
    ctx.check(pr["entities"] == [e["id"] for e in doc["entities"]], "create:entities", "manifest entity list differs from the geometry document")
    ctx.check(d["tags"] == tags, "create:tags", f"tags {d['tags']} expected {tags}")
    wantm = list(kw["materials"]) if "materials" in kw else mats
    ctx.check(list(d.get("materials", {})) == wantm, "create:materials", f"materials {list(d.get('materials', {}))} expected {wantm}")
    for k in ("name", "version", "generator"):
        if k in kw:
            ctx.check(d[k] == kw[k], "create:field", f"{k}={d[k]!r} given {kw[k]!r}")
    ctx.check(d["description"] == kw.get("description", "") and d["units"] == kw.get("units", "mm"), "create:field", f"{d['description']!r} {d['units']!r}")
    ctx.check(d["created"].get("author") == (kw.get("author") or None), "create:field", f"author {d['created']}")
    L = P.PackageManifest.load(root)
    ctx.check(L.data == d == man.data, "load:data", "loaded manifest differs from the one created")
    R = P.load_geometry(L)
    order = [e for k in ("solid", "surface", None) for e in E if (e[0] if isinstance(e[0], str) else None) == k]
    ctx.check([strip(r) for r in R] == [strip(e) for e in order], "load:geometry", f"{len(E)} entities came back as {len(R)} or differ")
    verdict(ctx, root, True, "fresh package")
    return root, L, alg


def verdict(ctx, root, good, what, strict=None):
    before = snapshot(root)
    for strict in ([False, True] if strict is None else [strict]):
        ok, msgs = P.validate_package(root if strict else str(root), strict=strict)
        if good:
            ctx.check(ok is True and not any(m.startswith("ERROR") for m in msgs), "validate:false-alarm", lambda: f"{what}: intact package refused: {msgs}")
            ctx.ev("intact")
        else:
            ctx.check(ok is False, f"validate:missed:{what.split(' ')[0]}", lambda: f"{what}: accepted: {msgs}")
            ctx.check(any(m.startswith("ERROR") for m in msgs), "validate:message", lambda: f"{what}: no ERROR message in {msgs}")
            ctx.ev("corrupt")
    ctx.check(snapshot(root) == before, "validate:changed", "validation changed the package")


def blob(rng):
    return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 100, 3000]))) if rng.random() < .9 else bytes(1024 * 1024 * 2 + 5)


def g_history(ctx, rng):
    root, man, alg = make(ctx, rng)
    ctx.case([man.data["id"]])
    ext = fresh()
    files = {}      # (section, path) -> bytes
    for step in range(rng.randint(0, 6)):
        op = rng.randrange(5)
        if op <= 2:
            cat = rng.choice(["derived", "attachments"])
            src = ext / rng.choice(["part.STEP", "a.stl", "noext", "x y.tar.gz"])
            data = blob(rng)
            src.write_bytes(data)
            dest = rng.choice([None, None, "exports/deep/er.step", "attachments/a.bin"])
            path = dest or (("geometry/derived/" if cat == "derived" else "attachments/") + src.name)
            exists = (root / path).exists()
            ow = rng.random() < .6
            before = snapshot(root), copy.deepcopy(man.data)
            try:
                e = P.add_geometry_file(man, src if rng.random() < .5 else str(src), dest_relative=dest, category=cat, overwrite=ow, purpose=rng.choice([None, "why"]), metadata=rng.choice([None, {"note": 1}]))
            except FileExistsError:
                ctx.check(exists and not ow, "add:refused", f"{path} does not exist but was refused")
                ctx.check((snapshot(root), man.data) == before, "add:refused-effect", "a refused add changed the package")
                ctx.ev("refusals")
                continue
            ctx.check(not exists or ow, "add:overwrote", f"{path} overwritten without overwrite=True")
            sec = man.data["geometry"]["derived"] if cat == "derived" else man.data["attachments"]
            hit = [x for x in sec if x["path"] == path]
            ctx.check(len(hit) == 1 and hit[0] == e, "add:entry", f"{len(hit)} entries for {path} in {cat}")
            ctx.check((root / path).read_bytes() == data, "add:copy", f"{path} is not a copy of the source")
            ctx.check(e["hash"] == sha(root / path) and e["format"] == src.suffix[1:].lower(), "add:hash", f"{e}")
            # the same file may be listed in the other section with the old hash
            files = {k: v for k, v in files.items() if k[1] != path or k[0] == cat}
            files[(cat, path)] = data
            for s, o in (("derived", "attachments"), ("attachments", "derived")):
                if s == cat:
                    L = man.data["geometry"].get("derived", []) if o == "derived" else man.data.get("attachments", [])
                    for x in L:
                        if x["path"] == path:
                            x["hash"] = e["hash"]
            ctx.ev("files_added")
            man.save()
        elif op == 3:
            bad = rng.randrange(4)
            before = snapshot(root.parent), copy.deepcopy(man.data)
            src = ext / "z.stl"
            src.write_bytes(b"zz")
            try:
                if bad == 0:
                    P.add_geometry_file(man, src, dest_relative=rng.choice(["../out.stl", "geometry/../../out.stl", "a/../../../x"]))
                elif bad == 1:
                    P.add_geometry_file(man, src, dest_relative=str(root.parent / "abs.stl"))
                elif bad == 2:
                    P.add_geometry_file(man, src, category=rng.choice(["exports", "", "primary"]))
                else:
                    P.add_geometry_file(man, ext / "missing.stl")
            except (ValueError, FileNotFoundError):
                ctx.check((snapshot(root.parent), man.data) == before, f"add:refused-effect{bad}", "a refused add changed files or the manifest")
                ctx.ev("refusals")
            else:
                ctx.viol(f"add:accepted{bad}", "an escaping destination, unknown category or missing source was accepted", bad)
        else:
            # edit files and recompute
            paths = [man.data["geometry"]["primary"]["path"]] + [p for _, p in files]
            p = rng.choice(paths)
            if p.endswith("primary.json"):
                doc = json.loads((root / p).read_text())
                doc["edited"] = step
                (root / p).write_text(json.dumps(doc))
            else:
                (root / p).write_bytes(b"edited %d" % step)
                files = {k: (b"edited" if k[1] == p else v) for k, v in files.items()}
            man.save()
            verdict(ctx, root, False, f"edited {p}", strict=False)
            a = rng.choice(["sha256", "sha512", alg])
            man.recompute_hashes(algorithm=a)
            ent = [man.data["geometry"]["primary"]] + man.data["geometry"].get("derived", []) + man.data.get("attachments", [])
            ctx.check(all(x["hash"] == sha(root / x["path"], a) for x in ent), "recompute", "recompute_hashes left a wrong hash")
            man.save()
        verdict(ctx, root, True, f"step {step}", strict=bool(step % 2))
    L = P.PackageManifest.load(root)
    ctx.check(L.data == man.data, "load:data", "manifest on disk differs from memory")
    ctx.ev("histories")
    shutil.rmtree(root.parent)
    shutil.rmtree(ext)


def g_corrupt(ctx, rng):
    root, man, alg = make(ctx, rng)
    ext = fresh()
    for cat, nm in (("derived", "d.step"), ("attachments", "a.txt")):
        (ext / nm).write_bytes(b"some content of " + nm.encode())
        P.add_geometry_file(man, ext / nm, category=cat)
    (root / "exports/e.stl").write_bytes(b"solid export")
    man.data["exports"] = [{"id": "e", "kind": "stl", "path": "exports/e.stl", "hash": sha(root / "exports/e.stl")}]
    man.save()
    verdict(ctx, root, True, "complete package")
    base = snapshot(root)
    D0 = copy.deepcopy(man.data)
    secs = {"primary": D0["geometry"]["primary"], "derived": D0["geometry"]["derived"][0], "attachments": D0["attachments"][0], "exports": D0["exports"][0]}

    def restore():
        shutil.rmtree(root)
        root.mkdir()
        for n, b in base.items():
            if b is None:
                (root / n).mkdir(parents=True, exist_ok=True)
            else:
                (root / n).parent.mkdir(parents=True, exist_ok=True)
                (root / n).write_bytes(b)

    def put(D):
        (root / "manifest.yaml").write_text(yaml.safe_dump(D) if not isinstance(D, str) else D)

    kinds = ["flip", "truncate", "append", "delete", "directory", "swaphash", "escape", "absolute", "schema", "nopath", "entrytype", "badhash", "alg",
             "geometry", "geometryfield", "brokengeom", "material", "manifesttype", "nomanifest", "yaml", "listtype"]
    for _ in range(8):
        k = rng.choice(kinds)
        sec = rng.choice(list(secs))
        D = copy.deepcopy(D0)
        ent = {"primary": D["geometry"]["primary"], "derived": D["geometry"]["derived"][0], "attachments": D["attachments"][0], "exports": D["exports"][0]}[sec]
        f = root / ent["path"]
        b = f.read_bytes()
        what = f"{k} {sec}"
        if k == "flip":
            i = rng.randrange(len(b))
            f.write_bytes(b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:])
        elif k == "truncate":
            f.write_bytes(b[:rng.randrange(len(b))])
        elif k == "append":
            f.write_bytes(b + rng.choice([b" ", b"\n", b"\0"]))
        elif k == "delete":
            f.unlink()
        elif k == "directory":
            f.unlink()
            f.mkdir()
        elif k == "swaphash":
            other = rng.choice([s for s in secs if s != sec])
            ent["hash"] = "sha256:" + hashlib.sha256(other.encode()).hexdigest()
            put(D)
        elif k == "escape":
            o = root.parent / "outside.bin"
            o.write_bytes(b)
            ent["path"] = rng.choice(["../outside.bin", "geometry/../../outside.bin"])
            put(D)
        elif k == "absolute":
            o = root.parent / "outside.bin"
            o.write_bytes(b)
            ent["path"] = str(o)
            put(D)
        elif k == "schema":
            D["schema"] = rng.choice([None, "ycpkg-spec-v9", 1, [], {}])
            put(D)
        elif k == "nopath":
            if rng.random() < .5:
                del ent["path"]
            else:
                ent["path"] = rng.choice([None, 5, [], {"a": 1}])
            put(D)
        elif k == "entrytype":
            bad = rng.choice(["x", 7, ["a"], None if sec == "primary" else 1])
            if sec == "primary":
                D["geometry"]["primary"] = bad
            elif sec == "derived":
                D["geometry"]["derived"] = [bad]
            else:
                D[sec] = [bad]
            put(D)
        elif k == "listtype":
            bad = rng.choice(["x", 7, {"path": "exports/e.stl"}])
            if sec == "primary":
                D["geometry"] = bad
            elif sec == "derived":
                D["geometry"]["derived"] = bad
            else:
                D[sec] = bad
            put(D)
        elif k == "badhash":
            ent["hash"] = rng.choice(["sha256:", "deadbeef", 5, ["a"], ent["hash"][:-1], ent["hash"] + "0"])
            put(D)
        elif k == "alg":
            ent["hash"] = rng.choice(["nosuch:", "crc32:", "shake_128:"]) + ent["hash"].split(":")[1]
            put(D)
        elif k == "geometry":
            D["geometry"] = rng.choice([None, {}, [], {"derived": []}])
            put(D)
        elif k == "geometryfield":
            del D["geometry"]["primary"]
            put(D)
        elif k == "brokengeom":
            doc = json.loads((root / "geometry/primary.json").read_text())
            z = rng.randrange(5)
            if z == 0:
                doc["schema"] = "other"
            elif z == 1:
                rng.choice(doc["entities"])["id"] = None
            elif z == 2:
                doc["entities"].append({"id": "s", "type": "solid", "shell": ["missing"], "voids": []})
            elif z == 3:
                doc["entities"].append({"id": "s", "type": "surface", "vertices": [["a", 0, 0, 1]], "normals": [], "faces": []})
            else:
                doc = "not json"
            (root / "geometry/primary.json").write_text(json.dumps(doc) if z < 4 else "{" + doc)
            D["geometry"]["primary"]["hash"] = sha(root / "geometry/primary.json")
            put(D)
        elif k == "material":
            D["materials"] = rng.choice([
                [1], "steel", {"m": None}, {"m": "x"}, {"m": {}}, {"m": {"source": {}}}, {"m": {"source": {"type": "bogus"}}}, {"m": {"source": "std"}},
                {"m": {"source": {"type": ["standard"]}}}, {"m": {"source": {"type": "custom"}, "visual": {"color": [1, 2]}}}, {"m": {"source": {"type": "custom"}, "visual": {"color": "red"}}},
                {"ok": {"source": {"type": "custom"}}, "m": {"source": {"type": None}}}, {"m": {"source": {"type": "custom"}, "visual": "x"}}])
            put(D)
        elif k == "manifesttype":
            put(rng.choice(["- a\n- b\n", "just text", "5", "", "null"]))
        elif k == "nomanifest":
            (root / "manifest.yaml").unlink()
        elif k == "yaml":
            put(rng.choice(["a: [1, 2", "a: b: c", "\t- x", "!!python/object/apply:os.getcwd []"]))
        ctx.case([what, man.data["id"]])
        verdict(ctx, root, False, what)
        restore()
        ctx.ev("corruption:" + k)
    verdict(ctx, root, True, "restored package")
    shutil.rmtree(root.parent)


def g_refuse(ctx, rng):
    k = rng.randrange(4)
    root = fresh() / "p"
    ctx.case([k, str(root)])
    E, _, _ = entities(rng)
    if k == 0:
        try:
            P.create_package_from_entities([], root, name="n", version="1")
        except ValueError:
            ctx.check(not root.exists(), "create:refused-effect", "directory created for a refused package")
            ctx.ev("refusals")
        else:
            ctx.viol("create:empty", "an empty entity list was packaged")
    elif k == 1:
        root.mkdir()
        (root / "mine.txt").write_text("keep")
        b = snapshot(root)
        try:
            P.create_package_from_entities(E, root, name="n", version="1")
        except FileExistsError:
            ctx.check(snapshot(root) == b, "create:refused-effect", "a refused creation changed the directory")
            ctx.ev("refusals")
        else:
            ctx.viol("create:overwrote", "a non-empty directory was used without overwrite")
        P.create_package_from_entities(E, root, name="n", version="1", overwrite=True)
        ctx.check((root / "mine.txt").read_text() == "keep", "create:deleted", "overwrite deleted an unrelated file")
        verdict(ctx, root, True, "overwritten")
    elif k == 2:
        # a failing save keeps the manifest on disk
        man = P.create_package_from_entities(E, root, name="n", version="1")
        b = snapshot(root)
        man.data["extensions"] = rng.choice([{"t": object()}, {"t": (1, 2), "u": lambda: 0}, {"s": {1, object()}}])
        try:
            man.save()
        except Exception:
            ctx.check(snapshot(root) == b, "save:truncated", "a failed save changed the manifest on disk")
            ctx.ev("refusals")
        else:
            ctx.check(P.PackageManifest.load(root).data is not None, "save:unreadable", "saved manifest cannot be read")
    else:
        man = P.create_package_from_entities(E, root, name="n", version="1", materials={"m": {"source": {"type": "custom"}, "x": 1}})
        ctx.check(man.get_material("m") == {"source": {"type": "custom"}, "x": 1} and man.get_material("zz") is None and list(man.get_materials()) == ["m"], "materials:get", f"{man.get_materials()}")
        D = copy.deepcopy(man.data)
        man.save()
        man.save()
        ctx.check(P.PackageManifest.load(str(root)).data == D, "save:stable", "repeated save changes the manifest")
        try:
            P.PackageManifest.load(root / "nope")
        except FileNotFoundError:
            ctx.ev("refusals")
        else:
            ctx.viol("load:missing", "loading a missing package succeeded")
        p = man.data["geometry"].pop("primary")
        try:
            man.geometry_primary_path()
        except ValueError:
            ctx.ev("refusals")
        else:
            ctx.viol("primary:missing", f"no primary but a path; was {p}")
    shutil.rmtree(root.parent, ignore_errors=True)


GROUPS = {"history": (g_history, 60, 500), "corrupt": (g_corrupt, 40, 400), "refuse": (g_refuse, 40, 200)}
if __name__ == "__main__":
    vf.main(globals())
