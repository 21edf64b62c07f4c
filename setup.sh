#!/bin/bash
# Builds everything once, offline
cd "$(dirname "$0")" && ./build.sh mc mcapi dinero
