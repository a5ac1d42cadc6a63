#!/usr/bin/env python3
"""Builds the executor once, to fail early if the sandbox cannot (each check builds its own copy of everything)."""
import os, subprocess, sys
h = os.path.dirname(os.path.abspath(__file__))
e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(h, "work", "setup"), RUSTFLAGS="")
sys.exit(subprocess.call(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(h, "engine"), env=e))
