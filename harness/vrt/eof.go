package vrt

import "io"

var errEOF = io.EOF
