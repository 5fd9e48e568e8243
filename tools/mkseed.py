#!/usr/bin/env python3
"""mkseed.py <plants.py> <ok-dir> <rep-dir> <id>...: write /verif/seeded/<id>/.

plants.py defines P = {id: {prop, needs, breaks, ...}}; ok-dir holds <id>.diff
against /repo's HEAD, rep-dir <id>.json the shrunk failing input. Each
directory carries a frozen copy of the harness, so that its demonstration does
not depend on /verif.
"""
import io, json, os, subprocess, sys, tarfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Replays case.json (one input, shrunk) against the library in the current
# directory with the harness packed in rv.tgz: exit 0 when the property holds
# on it, 1 when it does not, 2 when that could not be decided.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export CARGO_PROFILE_RELEASE_OPT_LEVEL=0 CARGO_PROFILE_PLAIN_OPT_LEVEL=0
tar -C "$work" -xzf "$here/rv.tgz" || exit 2
sed -i "s|path = \"/repo\"|path = \"$repo\"|" "$work/rv/Cargo.toml"
flavor=$(grep -o '"flavor": *"[a-z]*"' "$here/case.json" | grep -o '[a-z]*"$' | tr -d '"')
if [ "$flavor" = checked ]; then profile=release; else profile=plain; fi
(cd "$work/rv" && cargo build --offline --profile $profile --bin check --target-dir "$work/target" >"$work/log" 2>&1) || { tail -n 30 "$work/log"; exit 2; }
export RV_PLAIN="$work/target/$profile/check" RV_CHECKED="$work/target/$profile/check"
timeout 200 "$work/target/$profile/check" one @ID@ "$here/case.json"
rc=$?
[ $rc = 0 ] && exit 0
[ $rc = 3 ] && exit 1
[ $rc = 2 ] && exit 2
# a crash, or no answer in time
echo "ended with $rc"
exit 1
'''

def harness():
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode='w:gz') as t:
        for p in ('Cargo.toml', 'Cargo.lock', '.cargo', 'src'):
            t.add(os.path.join(ROOT, 'harness', p), 'rv/' + p)
    return buf.getvalue()

def main():
    env = {}
    exec(open(sys.argv[1]).read(), env)
    plants, ok, rep = env['P'], sys.argv[2], sys.argv[3]
    tgz = harness()
    for k in sys.argv[4:]:
        d = plants[k]
        out = os.path.join(ROOT, 'seeded', k)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(open('%s/%s.diff' % (ok, k)).read())
        open(out + '/case.json', 'w').write(open('%s/%s.json' % (rep, k)).read())
        open(out + '/rv.tgz', 'wb').write(tgz)
        open(out + '/demo.sh', 'w').write(DEMO.replace('@ID@', d['prop']))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        print(k)

main()
