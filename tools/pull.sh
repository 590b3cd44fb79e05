#!/bin/bash
# tools/pull.sh: take the commits of the scratch clone /tmp/wk into /repo
B=$(git -C /repo branch --show-current)
git -C /repo pull -q --ff-only /tmp/wk "$(git -C /tmp/wk branch --show-current):$B" 2>&1 || git -C /repo pull -q --ff-only /tmp/wk "$(git -C /tmp/wk branch --show-current)"
git -C /repo log --oneline -1
