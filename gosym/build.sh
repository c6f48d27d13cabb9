#!/bin/bash
cd "$(dirname "$0")" && GOFLAGS=-mod=vendor GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/gosym .
