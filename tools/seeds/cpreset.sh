#!/bin/bash
# bring /tmp/w/cp to /repo's HEAD
[ -d /tmp/w/cp/.git ] || { rm -rf /tmp/w/cp; cp -a /repo /tmp/w/cp; }
cd /tmp/w/cp && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git log --oneline | head -1
