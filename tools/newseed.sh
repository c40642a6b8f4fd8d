#!/bin/bash
# newseed.sh ID PROP PKG: makes a seeded/ID folder from the diff of the scratch copy in
# /tmp/bugwork, /tmp/demo.go (test body) and the texts in $NEEDS and $BREAKS.
cd "$(dirname "$0")/.." || exit 2
s=$PWD/seeded/$1
mkdir -p "$s"
git -C /tmp/bugwork diff -- bip32 bip39 bip44 util > "$s/patch.diff"
git -C /tmp/bugwork checkout -q -- bip32 bip39 bip44 util
cp /tmp/demo.go "$s/demo_test.go"
cat > "$s/demo.sh" <<X
#!/bin/bash
# Runs demo_test.go inside package $3 of the tree in the current directory.
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
d=\$(cd "\$(dirname "\$0")" && pwd)
exec go test -overlay <(printf '{"Replace":{"%s":"%s"}}' "\$PWD/$3/zz_demo_test.go" "\$d/demo_test.go") -vet=off -count=1 -run '^TestDemo\$' ./$3
X
python3 - "$s/meta.json" "$2" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
