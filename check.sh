#!/bin/bash
# check.sh TIER PROPERTY
cd "$(dirname "$0")" || exit 2
bash setup.sh >/dev/null || { echo "cannot build gosym"; exit 2; }
exec ./bin/gosym check -tier "$1" -root "$PWD" "$2"
