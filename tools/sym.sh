#!/bin/bash
# usage: sym.sh BINARY pc...   symbolise program counters of a report
b=$1; shift; addr2line -Cfpie "$b" "$@"
