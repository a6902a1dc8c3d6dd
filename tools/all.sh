#!/bin/bash
# run every claimed check in parallel (7 jobs); usage: all.sh [outdir]   (MSA_REPO is honoured)
cd "$(dirname "$0")/.."
out=${1:-/tmp/msa_out}; mkdir -p "$out"
cat tools/claimed.txt | tr ' ' '\n' | grep . | xargs -P 7 -I{} sh -c 'timeout 900 /opt/venv/bin/python check.py {} > '"$out"'/{}.txt 2>&1; echo "{} rc=$? $(grep -c ^undecided '"$out"'/{}.txt) und $(tail -1 '"$out"'/{}.txt | cut -c1-120)"' | sort
