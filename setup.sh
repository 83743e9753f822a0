#!/bin/bash
# Builds the executor once, to see that it builds.
cd "$(dirname "$0")/symgo" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null . 
