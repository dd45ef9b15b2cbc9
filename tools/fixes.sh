#!/bin/bash
# lists the fix commits of /repo (input for known-findings.txt)
git -C ${1:-/repo} log --reverse --format='%h %s' | grep ' fix:'
