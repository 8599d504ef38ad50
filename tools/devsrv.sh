#!/bin/bash
# devsrv.sh PATCH SCRIPT: solve the patched tree, run the script on it (development aid)
w=/tmp/devw; rm -rf /tmp/devw; cp -a /repo /tmp/devw; git -C /tmp/devw apply "$1" || exit 1
JBV_TREE=/tmp/devw python3 - "$2" <<'X'
import sys; sys.path.insert(0,'/verif/engine')
import mir, session
se=session.Session(mir.extract([], '/tmp/devw')); ps=se.parse_system()
exec(compile(open(sys.argv[1]).read(),sys.argv[1],'exec'),dict(se=se,ps=ps,__name__='x'))
X
rm -rf /tmp/devw
