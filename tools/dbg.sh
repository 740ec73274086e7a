#!/bin/bash
# dbg.sh PROP INDEX: print the violations and the steps around them
/verif/target/debug/psim one --prop $1 --index $2 -v 2>&1 >/dev/null | cut -c1-1500 | grep -B${3:-4} VIOL | head -${4:-60}
