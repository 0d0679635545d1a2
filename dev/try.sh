#!/bin/bash
# try.sh file 'old' 'new' [spec pattern]: verdicts with one textual change
rm -rf /tmp/try; mkdir -p /tmp/try
(cd /repo && find marxs -name '*.py' -not -path '*/tests/*' -print0 | xargs -0 cp --parents -t /tmp/try)
python3 - "$@" <<'P'
import sys
p='/tmp/try/marxs/'+sys.argv[1]; s=open(p).read(); assert s.count(sys.argv[2])>=1, 'text not found'
open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
MARXS_SRC=/tmp/try python3 -W ignore "$(dirname $0)/spec.py" "$4" | cut -c1-${W:-1500}
