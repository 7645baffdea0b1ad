#!/bin/sh
# lists every harness function for the native runner
cd "$(dirname "$0")/h" || exit 1
{
	echo "// Code generated by gen_registry.sh; DO NOT EDIT."
	echo
	echo "package h"
	echo
	echo "// Registry maps harness names to functions for native replay."
	echo "var Registry = map[string]func(){"
	grep -hoE '^func C[0-9][0-9]_[A-Za-z0-9_]+\(\)' *.go | sed -E 's/^func (C[0-9A-Za-z_]+)\(\)/	"\1": \1,/' | sort
	echo "}"
} >registry.go
gofmt -w registry.go
