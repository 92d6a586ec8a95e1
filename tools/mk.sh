#!/bin/bash
# builds the engine
cd /verif/engine && GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS=-mod=vendor go build -o /verif/bin/verif .
