#!/usr/bin/env python3
"""Writes build/overlay.json: GOROOT's net package plus two hook variables."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
out = sys.argv[1]
goroot = subprocess.check_output([sys.argv[2] if len(sys.argv) > 2 else "go", "env", "GOROOT"], text=True).strip()
dial = f"{goroot}/src/net/dial.go"
src = open(dial).read()
def ins(src, sig, code):
    assert src.count(sig) == 1, sig
    return src.replace(sig, sig + "\n" + code)
src = ins(src, "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {",
 "\tif VerifDialHook != nil {\n\t\thctx, hcancel := d.dialCtx(ctx)\n\t\tc, err, ok := VerifDialHook(hctx, network, address)\n\t\thcancel()\n\t\tif ok {\n\t\t\treturn c, err\n\t\t}\n\t}")
src = ins(src, "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {",
 "\tif VerifListenHook != nil {\n\t\tif l, err, ok := VerifListenHook(ctx, network, address); ok {\n\t\t\treturn l, err\n\t\t}\n\t}")
os.makedirs(out, exist_ok=True)
def put(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        tmp = f"{path}.{os.getpid()}"
        open(tmp, "w").write(text)
        os.replace(tmp, path)
put(f"{out}/net_dial.go", src)
put(f"{out}/overlay.json", json.dumps({"Replace": {
    dial: f"{out}/net_dial.go",
    f"{goroot}/src/net/zz_verif_hook.go": f"{here}/simstd/zz_verif_hook.go"}}, indent=1))
