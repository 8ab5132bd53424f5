#!/bin/sh
# kf.sh PROP what  : record the last /repo commit as fixed
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> /verif/known_findings.txt
