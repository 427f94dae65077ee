#!/bin/bash
# emutests.sh : runs the repository's own test programs through the Batch
# converter and the cmd.exe model (calibration of mc/cmdemu).
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
(cd mc && go build -o "$T/emu" .) || exit 1
python3 - "$T" <<'P'
import sys, json
t = sys.argv[1]
s = open('/repo/tests/helpers.go').read()
s = s.replace('"test.sh", bash.New()', '"test.bat", batch.New()').replace('exec.Command(targetFile)', 'exec.Command("%s/emu", "bat", targetFile)' % t)
s = s.replace('\t"github.com/monstermichl/typeshell/converters/bash"\n', '')
open(t + '/helpers.go', 'w').write(s)
json.dump({"Replace": {"/repo/tests/helpers.go": t + "/helpers.go"}}, open(t + '/o.json', 'w'))
P
cd /repo && GOFLAGS= go test -overlay "$T/o.json" ./tests "$@"
