#!/bin/bash
# proc-macro2's build script enables nightly-only APIs (removed since) when DOCS_RS is set and
# `rustc --version` says nightly. Answer that one question as a stable compiler would.
R=$(rustc +nightly --print sysroot)/bin/rustc
if [ "$*" = "--version" ]; then echo "rustc 1.101.0"; exit 0; fi
exec "$R" "$@"
