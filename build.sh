#!/bin/bash
# builds the contract verifier (offline)
cd "$(dirname "$0")/tool" && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -o ../bin/govc .
