#!/usr/bin/env python3
"""Lays out seeded/<id> from seeds_*.py definitions: mkseeds.py [ID...]"""
import glob, importlib, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
SEEDS = []
for f in sorted(glob.glob(here + "/seeds_*.py")):
    SEEDS += importlib.import_module(os.path.basename(f)[:-3]).SEEDS
want = set(sys.argv[1:])
for s in SEEDS:
    if want and s["id"] not in want: continue
    d = os.path.join(root, "seeded", s["id"]); os.makedirs(d + "/vf", exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    for side in "ab":
        for f, old, new in s["edits"]:
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p): shutil.copy("/repo/" + f, p)
            if side == "b":
                x = open(p).read()
                assert x.count(old) == 1, (s["id"], f, old, x.count(old))
                open(p, "w").write(x.replace(old, new))
    subprocess.run(["gofmt", "-l", t + "/b"], check=True)
    r = subprocess.run(["diff", "-ru", "a", "b"], cwd=t, capture_output=True, text=True)
    out = "".join(l if not l.startswith(("--- ", "+++ ")) else l.split("\t")[0] + "\n" for l in r.stdout.splitlines(True) if not l.startswith("diff "))
    open(d + "/patch.diff", "w").write(out)
    shutil.rmtree(t)
    shutil.copy(here + "/demo/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/pkg", "w").write(s["pkg"] + "\n")
    for g in glob.glob(root + "/harness/internal/vf/*.go"): shutil.copy(g, d + "/vf/")
    pk = {"signingblock": "signingblock", ".": "apkverifier", "internal/asn1andr": "asn1andr", "internal/x509andr": "x509andr", "fullsailor/pkcs7": "pkcs7"}.get(s["pkg"])
    demo = s["demo"]
    if "package " not in demo.split("\n")[0]:
        imps = s.get("imports", ["bytes", "testing"]) + (["github.com/avast/apkparser"] if s["pkg"] == "signingblock" else [])
        hdr = "package %s\n\nimport (\n" % pk + "".join('\t"%s"\n' % i for i in imps)
        if "vf." in demo or s["pkg"] == "signingblock": hdr += '\tvf "github.com/avast/apkverifier/internal/zzdemovf"\n'
        hdr += ")\n\n"
        if s["pkg"] == "signingblock":
            hdr += '''func demoVerify(f []byte, min, max int32) (*VerificationResult, error) {
	res, _, err := VerifySigningBlockReaderWithZip(bytes.NewReader(f), min, max, &apkparser.ZipReader{})
	return res, err
}

var _ = vf.Cat

'''
        demo = hdr + s.get("helpers", "") + "func TestZZDemo(t *testing.T) {\n" + demo + "}\n"
    open(d + "/demo_test.go", "w").write(demo)
    subprocess.run(["gofmt", "-w", d + "/demo_test.go"], check=True)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
