#!/bin/bash
# vlist.sh ID: one line per reported violation
cd /verif/engine && BONVERIF_EVIDENCE=/tmp/vlist.ev python3 check.py $1 quick 2>&1 | grep -E "^(src|[A-Z]).*(in |BROKEN|obligations|KNOWN|Error)|Traceback|File" | sed -E 's/^src\/([^ ]*\/)?//; s/Bonmin:://g' | cut -c1-${2:-230}; rm -rf /tmp/vlist.ev
