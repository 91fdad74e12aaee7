#!/bin/bash
# commitfix.sh PROP "message" : commits all in /repo as fix
cd /repo && git add -u && git commit -qm "fix: $2" && echo "$1|$(git rev-parse --short HEAD)|$2" >> /verif/tools/fixes.txt && tail -1 /verif/tools/fixes.txt
