#!/bin/bash
# fresh scratch copy of /repo for experiments: tools/copy.sh DIR
rm -rf "$1"; cp -a /repo "$1"
