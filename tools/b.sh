#!/bin/bash
. /verif/build.sh
