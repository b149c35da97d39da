#!/bin/bash
# Offline; everything is built by the checks themselves from /repo's working tree. Only verify the tools are there.
cd "$(dirname "$0")" && . tools/env.sh && cargo --version && mkdir -p evidence target
