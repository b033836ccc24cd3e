#!/bin/bash
# mkcfg.sh NAME SPEC "consts" [invariants] [properties]   writes specs/NAME.cfg (Gen when NAME contains Gen)
cd "$(dirname "$0")/../specs"
{ case $1 in *Gen*) echo "SPECIFICATION GenSpec";; *) echo "SPECIFICATION ${SPECNAME:-Spec}";; esac
  echo CONSTANTS; tr ';' '\n' <<<"$2" | sed 's/^ */  /'
  echo "CONSTRAINT Bound"
  case $1 in *Gen*) echo "ACTION_CONSTRAINT Emit"; echo "VIEW GenView";; esac
  [ -n "$3" ] && echo "INVARIANT $3"; [ -n "$4" ] && echo "PROPERTIES $4"
  echo "CHECK_DEADLOCK FALSE"; } > $1.cfg
