#!/bin/bash
# gen.sh: regenerates the registry of harnesses from their declarations.
cd "$(dirname "$0")/harness/hs" || exit 2
{
echo "// Code generated by gen.sh. DO NOT EDIT."
echo
echo "// Package hs holds the property harnesses. Every function H_<property>_<name> is one harness."
echo "package hs"
echo
echo "// Harnesses is the registry used by the native replay binary."
echo "var Harnesses = map[string]func(){"
grep -ho '^func H_[A-Za-z0-9_]*()' *.go | sed 's/^func //; s/()$//' | sort | sed 's/.*/\t"&": &,/'
echo "}"
} > reg.go.new && mv reg.go.new reg.go && gofmt -w reg.go
