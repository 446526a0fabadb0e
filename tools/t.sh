#!/bin/bash
# triage: t.sh C0x [args]
cd /verif; ./check.sh "$@" -v 2>&1 | grep -E "^(ERROR|Traceback|  File|[A-Z][A-Za-z]*Error|no scen|C[0-9][0-9] |.*(VIOL=|INC=|UNS=|MIS=|unf=[1-9]))" | cut -c1-${W:-420} | tail -${L:-25}
