#!/bin/bash
/verif/target/debug/psim replay /verif/scratch/replays/$1.json -v 2>&1 >/dev/null| cut -c1-${2:-900}
