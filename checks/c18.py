import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, hashlib, json, pathlib, shutil, subprocess, tempfile
import vf

PROP = "C18"
LEVEL = "exploration"
META = dict(
    title="Package signatures: only untampered packages verify, every tampering shows",
    statement="After any history of sign_package calls (GPG and SSH, replacing or adding) every kept signature verifies independently with gpg or ssh-keygen over the specified content (ycpkg-manifest-v1 and the canonical manifest hash), has its own signature file and a manifest entry with the right signer, key and method, and nothing else of the package changes. verify_package and list_signatures report one entry per signature in order: VALID exactly when the signature matches, no recorded file differs from its hash, and the key is trusted (listed in allowed_signers, or in the GPG keyring with at least marginal trust), VALID_UNTRUSTED when it matches but the key is not trusted, INVALID when the manifest, a recorded file or the signature was modified, ERROR when it cannot be checked. Reformatting the YAML or signing again does not invalidate signatures; any change of manifest content does. is_valid, trusted_signers, untrusted_signers and overall_status follow from the entries. Verification changes nothing and never raises; signing without a manifest, key or key file is refused and leaves the package unchanged.",
    over=["inputs", "histories", "adversary"], q="for all packages, signing histories, trust stores and tamperings",
    why="The repository has no test of signing; a verifier that accepts one tampered package voids the feature, and that depends on which byte, signer and trust file.",
    files=["src/yapcad/package/signing.py", "src/yapcad/package/validator.py"],
    mech=[("sign_package, verify_package, list_signatures", "src/yapcad/package/signing.py"), ("_verify_ssh_signature, _verify_gpg_signature", "src/yapcad/package/signing.py")],
    technique="online monitor over random sign/tamper/verify histories against a model of which signatures match and which keys are trusted, plus independent verification with gpg and ssh-keygen",
    note="Exploration with real gpg and ssh-keygen in throw-away homes. Timestamps are self-reported and not checked beyond form.",
)
RULE = "random histories of signing, trust files, reformatting and tampering; distinct by package id and operations"
REQUIRE = {"signed": 120, "verified": 300, "status:VALID": 80, "status:VALID_UNTRUSTED": 80, "status:INVALID": 80, "status:ERROR": 15, "independent": 80, "refusals": 10}
WALL_QUICK = 200


def run(*a, **k):
    return subprocess.run(a, capture_output=True, **k)


def init():
    global P, S, u, yaml, TMP, SSH, GPG
    import yaml
    from yapcad import geom3d_util as u
    import yapcad.package as P
    from yapcad.package import signing as S
    TMP = pathlib.Path(tempfile.mkdtemp(prefix="c18"))
    os.environ["HOME"] = str(TMP)
    home = TMP / "g"
    home.mkdir(mode=0o700)
    other = TMP / "o"
    other.mkdir(mode=0o700)
    os.environ["GNUPGHOME"] = str(home)
    SSH = {}
    for n, comment in (("alice", "alice@x.y"), ("bob", "bob@x.y"), ("long1", "somebody-with-a-long-name-1@corp"), ("long2", "somebody-with-a-long-name-2@corp"), ("spaced", "Eve M. Adams <e@x>"), ("bare", "")):
        run("ssh-keygen", "-q", "-t", "ed25519", "-N", "", "-C", comment, "-f", str(TMP / n), check=True)
        fp = run("ssh-keygen", "-lf", str(TMP / n)).stdout.decode().split()[1]
        SSH[n] = dict(path=TMP / n, pub=(TMP / f"{n}.pub").read_text().split()[:2], fp=fp, signer=comment)
    GPG = {}
    for n, h in (("carol", home), ("dave", home), ("mallory", other), ("unknown", other)):
        run("gpg", "--homedir", str(h), "--batch", "--passphrase", "", "--quick-gen-key", f"{n} <{n}@x.y>", "ed25519", "sign", check=True)
        out = run("gpg", "--homedir", str(h), "--list-keys", "--with-colons", f"{n}@x.y").stdout.decode().splitlines()
        GPG[n] = dict(fp=[l.split(":")[9] for l in out if l.startswith("fpr")][0], home=h, signer=f"{n} <{n}@x.y>", trusted=n in ("carol", "dave"), known=n != "unknown")
    ring = TMP / "ring.gpg"
    ring.write_bytes(run("gpg", "--homedir", str(other), "--export", "unknown@x.y").stdout)
    run("gpg", "--homedir", str(home), "--import", input=run("gpg", "--homedir", str(other), "--export", "mallory@x.y").stdout, check=True)


def fini():
    for h in ("g", "o"):
        run("gpgconf", "--homedir", str(TMP / h), "--kill", "all")
    shutil.rmtree(TMP, ignore_errors=True)


def canon(man):
    """the specification's canonical hash and signed content"""
    d = {k: v for k, v in man.items() if k != "signatures"}
    h = hashlib.sha256(json.dumps(d, sort_keys=True, separators=(",", ":"), default=str).encode()).hexdigest()
    return h, f"ycpkg-manifest-v1\n{h}\n".encode()


def snap(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file()}


def manifest(root):
    return yaml.safe_load((root / "manifest.yaml").read_text(encoding="utf-8"))


def dump(rng, root, D, style=None):
    style = rng.randrange(4) if style is None else style
    if style == 3:
        def shuffle(x):
            if isinstance(x, dict):
                ks = list(x)
                rng.shuffle(ks)
                return {k: shuffle(x[k]) for k in ks}
            return [shuffle(v) for v in x] if isinstance(x, list) else x
        D = shuffle(D)
    t = yaml.safe_dump(D, sort_keys=style == 1, default_flow_style=style == 2, width=rng.choice([20, 80, 1000]), allow_unicode=bool(rng.randrange(2)))
    (root / "manifest.yaml").write_text("# comment\n" * rng.randrange(2) + t, encoding="utf-8")


def package(rng):
    root = pathlib.Path(tempfile.mkdtemp(dir=TMP)) / rng.choice(["p.ycpkg", "my pkg", "ü"])
    man = P.create_package_from_entities([u.prism(*[rng.uniform(1, 3) for _ in range(3)])], root, name=rng.choice(["n", "ünï ✓", "a: b"]), version="1.0")
    (root / "exports/e.stl").write_bytes(b"solid x")
    man.data["exports"] = [{"id": "e", "path": "exports/e.stl", "hash": "sha256:" + hashlib.sha256(b"solid x").hexdigest()}]
    (root / "src").mkdir()
    (root / "src/m.dsl").write_bytes(b"module m")
    man.data["source"] = {"modules": [{"id": "m", "path": "src/m.dsl", "hash": "sha256:" + hashlib.sha256(b"module m").hexdigest()}]}
    if rng.random() < .4:       # an entry that records a file itself and more files below
        (root / "src/top.dsl").write_bytes(b"use m")
        man.data["source"].update(path="src/top.dsl", hash="sha256:" + hashlib.sha256(b"use m").hexdigest())
    man.data["extensions"] = {"f": rng.uniform(-5, 5), "b": True, "n": None, "l": [1, [2, "x"]], "num": 3}
    man.save()
    if rng.random() < .3:
        t = (root / "manifest.yaml").read_text()
        (root / "manifest.yaml").write_text(t + "provenance:\n  date: 2024-10-12T18:04:00Z\n  day: 2024-09-29\n")
    return root


def sign_by(ctx, rng, root, sigs, who, add, name=None):
    """sign, check the entry and independent validity; returns new model list"""
    before, mbefore = snap(root), manifest(root)
    kind, n = who
    if kind == "ssh":
        info = P.sign_package(root if rng.random() < .5 else str(root), rng.choice(["ssh", "SSH", S.SignatureMethod.SSH]), key_path=SSH[n]["path"], add=add, signer_name=name)
        want = (name or SSH[n]["signer"] or info.signer, S.SignatureMethod.SSH, SSH[n]["fp"])
    else:
        os.environ["GNUPGHOME"] = str(GPG[n]["home"])
        try:
            key = None if n == "carol" and rng.random() < .5 else rng.choice([f"{n}@x.y", GPG[n]["fp"], GPG[n]["fp"][-16:]])
            info = P.sign_package(root, rng.choice(["gpg", S.SignatureMethod.GPG]), key_id=key, add=add, signer_name=name)
        finally:
            os.environ["GNUPGHOME"] = str(TMP / "g")
        want = (name or GPG[n]["signer"], S.SignatureMethod.GPG, GPG[n]["fp"])
    ctx.ev("signed")
    ctx.check(info.signer == want[0] and info.method == want[1], "sign:signer", f"signed by {who}: {info}")
    ctx.check(info.key_id == want[2] or (kind == "gpg" and len(info.key_id) >= 8 and want[2].endswith(info.key_id)), "sign:key", f"key {info.key_id} expected {want[2]}")
    sigs = (sigs if add else []) + [dict(who=who, file=info.signature_file, name=info.signer)]
    m = manifest(root)
    ctx.check({k: v for k, v in m.items() if k != "signatures"} == {k: v for k, v in mbefore.items() if k != "signatures"}, "sign:manifest", "signing changed the manifest's content")
    ctx.check([e["signature_file"] for e in m["signatures"]] == [s["file"] for s in sigs], "sign:entries", f"{m['signatures']}")
    ctx.check(len({s["file"] for s in sigs}) == len(sigs), "sign:shared-file", f"two signatures share a file: {[s['file'] for s in sigs]}")
    ctx.check(all((root / s["file"]).resolve().is_relative_to(root.resolve()) for s in sigs), "sign:escape", f"{info.signature_file}")
    after = snap(root)
    ch = {k for k in set(before) | set(after) if before.get(k) != after.get(k)} - {"manifest.yaml", info.signature_file}
    ctx.check(not ch, "sign:touched", f"signing changed {ch}")
    L = P.list_signatures(root)
    ctx.check([(i.signer, i.signature_file, i.method.value) for i in L] == [(s["name"], s["file"], s["who"][0]) for s in sigs], "list", f"{L}")
    return sigs


def independent(ctx, root, sigs):
    """each signature file matches the specified content"""
    h, content = canon(manifest(root))
    for s in sigs:
        kind, n = s["who"]
        f = root / s["file"]
        if kind == "ssh":
            al = TMP / "al1"
            al.write_text("me " + " ".join(SSH[n]["pub"]) + "\n")
            r = run("ssh-keygen", "-Y", "verify", "-f", str(al), "-I", "me", "-n", "ycpkg", "-s", str(f), input=content)
            ok = r.returncode == 0
        else:
            c = TMP / "content"
            c.write_bytes(content)
            r = run("gpg", "--homedir", str(GPG[n]["home"]), "--status-fd", "1", "--verify", str(f), str(c))
            ok = f"VALIDSIG {GPG[n]['fp']}" in r.stdout.decode()
        ctx.check(ok, "independent", lambda: f"{s['who']} signature {s['file']} does not verify with the tool itself: {r.stderr[-200:]!r}")
        ctx.ev("independent")


def trust(rng):
    """random allowed_signers; returns (path or None, trusted ssh names)"""
    if rng.random() < .2:
        return None, set()
    names = [n for n in SSH if rng.random() < .45]
    lines = ["# trust", ""]
    for n in names:
        lines.append(rng.choice([f"{n}@x.y", "*", f"a@b,{n}", "*@corp", f'{n} namespaces="ycpkg"']) + " " + " ".join(SSH[n]["pub"]) + " c")
    p = TMP / "allowed"
    p.write_text("\n".join(lines) + "\n")
    return rng.choice([p, str(p), "~/allowed"]), set(names)


def verify(ctx, rng, root, sigs, bad=None, broken=()):
    """bad: package content tampered; broken: indexes of signatures that cannot match"""
    al, names = trust(rng)
    ring = rng.choice([None, None, TMP / "ring.gpg", "~/ring.gpg"])
    before = snap(root)
    r = P.verify_package(root if rng.random() < .5 else str(root), allowed_signers=al, gpg_keyring=ring)
    ctx.ev("verified")
    ctx.check(snap(root) == before, "verify:changed", "verification changed the package")
    ctx.check(len(r.signatures) == len(sigs), "verify:count", f"{len(sigs)} signatures, reported {len(r.signatures)}")
    for i, (s, got) in enumerate(zip(sigs, r.signatures)):
        kind, n = s["who"]
        if i in broken:
            want = {"INVALID", "ERROR"} if broken[i] == "corrupt" else {"ERROR"}
        elif kind == "gpg" and not GPG[n]["known"] and not ring:
            want = {"ERROR"} if not bad else {"ERROR", "INVALID"}
        elif bad:
            want = {"INVALID"}
        elif kind == "ssh":
            want = {"VALID" if n in names else "VALID_UNTRUSTED"}
        else:
            want = {"VALID" if GPG[n]["trusted"] else "VALID_UNTRUSTED"}
        st = got.status.value
        ctx.ev("status:" + st)
        if st not in want:
            ctx.viol(f"verify:{kind}:{'+'.join(sorted(want))}->{st}", f"{s['who']} bad={bad} broken={dict(broken) if broken else None} allowed={sorted(names)} {al} ring={ring}: {st} ({got.error_message})", s)
        ctx.check(got.signer == s["name"] and got.signature_file == s["file"], "verify:entry", f"{got} for {s}")
    v = sum(x.status.value == "VALID" for x in r.signatures)
    w = sum(x.status.value == "VALID_UNTRUSTED" for x in r.signatures)
    inv = any(x.status.value == "INVALID" for x in r.signatures)
    ctx.check((r.is_valid, r.trusted_signers, r.untrusted_signers) == (v > 0, v, w), "verify:counts", f"{r.is_valid} {r.trusted_signers} {r.untrusted_signers} for {v}/{w}")
    over = "ERROR" if r.errors else "VALID" if v else "VALID_UNTRUSTED" if w else "INVALID" if inv else "ERROR"
    ctx.check(r.overall_status.value == over, "verify:overall", f"{r.overall_status} expected {over}")
    if not sigs:
        ctx.check(not r.is_valid and r.warnings, "verify:unsigned", "an unsigned package has no warning")
    if not bad and sigs:
        ctx.check(r.manifest_hash == "sha256:" + canon(manifest(root))[0], "verify:hash", r.manifest_hash)


def tamper(rng, root):
    """one modification of the package's content; returns (what, undo)"""
    m = (root / "manifest.yaml").read_bytes()
    D = manifest(root)
    k = rng.choice([0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8])
    undo = [("manifest.yaml", m)]
    if k == 0:
        D[rng.choice(["name", "version", "description", "units"])] = "evil"
    elif k == 1:
        D["geometry"]["primary"]["hash"] = D["geometry"]["primary"]["hash"][:-1] + ("0" if D["geometry"]["primary"]["hash"][-1] != "0" else "1")
    elif k == 2:
        D["extensions"]["f"] = D["extensions"]["f"] + 1e-9
    elif k == 3:
        D["extensions"][rng.choice(["b", "n", "num"])] = rng.choice(["true", 7, [1]])
    elif k == 4:
        j = rng.choice([0, 0, 0, 0, 1, 2, 3, 4])
        if j == 0:
            D[rng.choice(["extra", "signed_by", "signature", "signature_policy", "metadata", "sig", "Signatures", "_comment", "x-note"])] = 1
        elif j == 1:
            D["extensions"][rng.choice(["signatures", "signature", "hash", "created"])] = [rng.random()]
        elif j == 2:
            D["extensions"]["l"] = rng.choice([[[2, "x"], 1], [1, ["x", 2]], [1, [2, "X"]], [1, [2, "x"], None], [1, ["2", "x"]], [1, 2, "x"]])
        elif j == 3:
            D["tags"] = (D.get("tags") or []) + ["evil"]
        else:
            D["extensions"] = {k: v for k, v in D["extensions"].items() if k != rng.choice(["n"])}
    elif k == 5:
        del D[rng.choice(["tags", "exports", "source", "created"])]
    elif k == 6:
        # file and its hash changed together
        undo.append(("exports/e.stl", (root / "exports/e.stl").read_bytes()))
        (root / "exports/e.stl").write_bytes(b"evil")
        D["exports"][0]["hash"] = "sha256:" + hashlib.sha256(b"evil").hexdigest()
    else:
        f = rng.choice(["exports/e.stl", "geometry/primary.json", "src/m.dsl"])
        b = (root / f).read_bytes()
        undo.append((f, b))
        if k == 7:
            i = rng.randrange(len(b))
            (root / f).write_bytes(b[:i] + bytes([b[i] ^ 1]) + b[i + 1:])
        else:
            (root / f).unlink()
        return f"{'modified' if k == 7 else 'deleted'} {f}", undo
    dump(rng, root, D, 0)
    return f"manifest {k}", undo


def g_history(ctx, rng):
    root = package(rng)
    sigs = []
    ops = []
    people = [("ssh", n) for n in SSH] + [("gpg", n) for n in GPG] * 2
    verify(ctx, rng, root, [])
    crowd = rng.random() < .25      # many signatures
    for step in range(rng.randint(2, 5)):
        if crowd and step == 0:
            ctx.ev("crowds")
            for _ in range(5):
                sigs = sign_by(ctx, rng, root, sigs, ("ssh", rng.choice(list(SSH))), True)
        op = rng.randrange(4) if sigs else 0
        ops.append(op)
        if op == 0:
            sigs = sign_by(ctx, rng, root, sigs, rng.choice(people), rng.random() < .75, rng.choice([None, None, "Alias: é"]))
            independent(ctx, root, sigs)
            verify(ctx, rng, root, sigs)
        elif op == 1:
            dump(rng, root, manifest(root))
            verify(ctx, rng, root, sigs)
        elif op == 2:
            what, undo = tamper(rng, root)
            verify(ctx, rng, root, sigs, bad=what)
            if rng.random() < .3 and not what.startswith(("modified", "deleted", "manifest 1")):
                # a later signature covers the changed manifest; the old ones do not
                old = sigs
                sigs2 = sign_by(ctx, rng, root, sigs, ("ssh", "alice"), True)
                r = P.verify_package(root)
                ctx.check([s.status.value for s in r.signatures[:-1]] == ["ERROR" if s["who"] == ("gpg", "unknown") else "INVALID" for s in old] and r.signatures[-1].status.value == "VALID_UNTRUSTED", "verify:mixed", f"{what}: {[s.status.value for s in r.signatures]} for {old}")
                (root / sigs2[-1]["file"]).unlink()
            for f, b in undo:
                (root / f).write_bytes(b)
            verify(ctx, rng, root, sigs)
        else:
            i = rng.randrange(len(sigs))
            f = root / sigs[i]["file"]
            b = f.read_bytes()
            k = rng.randrange(4)
            if k == 0:
                f.unlink()
                br = {i: "missing"}
            elif k == 1:
                lines = b.split(b"\n")
                j = len(lines) // 2
                lines[j] = lines[j][:5] + bytes([lines[j][5] + (1 if lines[j][5] not in b"Zz9/+" else -1)]) + lines[j][6:]
                f.write_bytes(b"\n".join(lines))
                br = {i: "corrupt"}
            elif k == 2:
                f.write_bytes(rng.choice([b"", b"\xff\xfe\x00", b"not a signature\n", b[: len(b) // 2]]))
                br = {i: "corrupt"}
            else:
                # a valid signature of other content by the same key
                kind, n = sigs[i]["who"]
                c = TMP / "other"
                c.write_bytes(b"ycpkg-manifest-v1\n" + b"0" * 64 + b"\n")
                if kind == "ssh":
                    run("ssh-keygen", "-Y", "sign", "-f", str(SSH[n]["path"]), "-n", "ycpkg", str(c), check=True)
                    shutil.move(str(c) + ".sig", f)
                else:
                    f.write_bytes(run("gpg", "--homedir", str(GPG[n]["home"]), "--armor", "--local-user", GPG[n]["fp"], "--detach-sign", input=c.read_bytes(), check=True).stdout)
                br = {i: "corrupt"}
            verify(ctx, rng, root, sigs, broken=br)
            f.write_bytes(b)
            verify(ctx, rng, root, sigs)
    ctx.case([str(root), ops])
    if sigs:
        # a signature made for another purpose does not count
        c = TMP / "ns"
        c.write_bytes(canon(manifest(root))[1])
        run("ssh-keygen", "-Y", "sign", "-f", str(SSH["alice"]["path"]), "-n", "git", str(c), check=True)
        D = manifest(root)
        (root / "signatures/other").write_bytes((TMP / "ns.sig").read_bytes())
        (TMP / "ns.sig").unlink()
        D["signatures"] = [dict(signer="a", method="ssh", key_id="k", timestamp="t", signature_file="signatures/other")]
        dump(rng, root, D)
        (TMP / "allowed").write_text("alice " + " ".join(SSH["alice"]["pub"]) + "\n")
        r = P.verify_package(root, allowed_signers=TMP / "allowed")
        ctx.check(r.signatures[0].status.value in ("INVALID", "ERROR"), "verify:namespace", f"a signature for another namespace counts as {r.signatures[0].status}")
    shutil.rmtree(root.parent)


def g_hostile(ctx, rng):
    """verification of arbitrary manifests never raises and never trusts"""
    root = package(rng)
    sigs = sign_by(ctx, rng, root, [], ("ssh", "alice"), False)
    (TMP / "allowed").write_text("* " + " ".join(SSH["alice"]["pub"]) + "\n")
    D = manifest(root)
    k = rng.randrange(7)
    ctx.case([k, str(root)])
    if k == 0:
        (root / "manifest.yaml").write_bytes(rng.choice([b"", b"- a\n", b"a: [", b"\xff\xfe", b"5", b"a: !!python/object/apply:os.getcwd []"]))
    elif k == 1:
        D["signatures"] = rng.choice(["x", 5, {"a": 1}, [5], ["x"], [None], [[1]]])
        dump(rng, root, D, 0)
    elif k == 2:
        D["signatures"][0]["method"] = rng.choice(["pgp", None, 5, ["ssh"], ""])
        dump(rng, root, D, 0)
    elif k == 3:
        D["signatures"][0]["signature_file"] = rng.choice(["", ".", "signatures", "../nope", "/nonexistent", None, 5, "geometry/primary.json"])
        dump(rng, root, D, 0)
    elif k == 4:
        D["signatures"][0]["method"] = "gpg"
        dump(rng, root, D, 0)
    elif k == 5:
        (root / "manifest.yaml").unlink()
    else:
        b = (root / "manifest.yaml").read_bytes()
        i = rng.randrange(len(b))
        (root / "manifest.yaml").write_bytes(b[:i] + bytes([rng.randrange(256)]) + b[i + 1:])
        try:
            new = manifest(root)
            if canon(new) == canon(D):
                return
        except Exception:
            pass
    r = P.verify_package(root, allowed_signers=TMP / "allowed")
    ctx.check(not r.is_valid and r.untrusted_signers == 0, f"hostile:{k}", lambda: f"{r}")
    ctx.ev("hostile")
    shutil.rmtree(root.parent)


def g_refuse(ctx, rng):
    root = package(rng)
    k = rng.randrange(5)
    ctx.case([k, str(root)])
    if k == 4:
        (root / "manifest.yaml").unlink()
    b = snap(root)
    try:
        if k == 0:
            P.sign_package(root, "ssh")
        elif k == 1:
            P.sign_package(root, "ssh", key_path=TMP / "missing")
        elif k == 2:
            P.sign_package(root, "gpg", key_id="nobody@nowhere")
        elif k == 3:
            P.sign_package(root, rng.choice(["pgp", "", "x509"]))
        else:
            P.sign_package(root, "ssh", key_path=SSH["alice"]["path"])
    except (P.SigningError, ValueError):
        ctx.check(snap(root) == b, "refuse:effect", f"refused signing changed the package ({k})")
        ctx.ev("refusals")
    else:
        ctx.viol(f"refuse:{k}", "signing was not refused", k)
    if k == 4:
        r = P.verify_package(root)
        ctx.check(r.errors and r.overall_status.value == "ERROR" and P.list_signatures(root) == [], "verify:nomanifest", f"{r}")
    shutil.rmtree(root.parent)


GROUPS = {"history": (g_history, 110, 900), "hostile": (g_hostile, 50, 400), "refuse": (g_refuse, 20, 60)}
if __name__ == "__main__":
    vf.main(globals())
