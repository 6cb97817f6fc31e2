#!/bin/bash
# builds the verifier (offline) into /verif/bin
. /opt/vp/env.sh
cd "$(dirname "$0")/govc" && mkdir -p ../bin && GOFLAGS=-mod=mod go build -o ../bin/govc .
