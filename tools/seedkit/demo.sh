#!/bin/bash
# Builds a scratch package from the sources in the working directory, with demo.rs (beside this file) compiled into it
# through the `verif_hooks` cfg of the crate, and runs it. Exit 0: the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
exec python3 "$HERE/run_demo.py" "$HERE"
