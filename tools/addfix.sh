#!/bin/bash
# addfix.sh <property> <text>: record the last /repo commit as a fix
echo "fixed: property=$1 $(git -C /repo rev-parse --short=12 HEAD) $2" >> /verif/known_findings.txt
