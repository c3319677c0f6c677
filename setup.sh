#!/bin/bash
# builds the harness in all variants from /repo's current tree
cd "$(dirname "$0")" && bash build.sh plain >/dev/null && bash build.sh asan >/dev/null && bash build.sh tsan >/dev/null
