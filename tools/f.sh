#!/bin/bash
# usage: f.sh PROP "msg"  (python edit script on stdin)
cd /repo && PYTHONPATH=/verif/tools python3 - && bash /verif/tools/commitfix.sh "$1" "$2"
