#!/bin/bash
# Compiles the harness once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cd harness && go build -o /dev/null ./cmd/vh && go build -race -o /dev/null ./cmd/vh && go build -o /dev/null github.com/vito/booklit/cmd/booklit
