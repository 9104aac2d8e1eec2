#!/usr/bin/env python3
"""Builds the harness, so that the checks only have to build what changed."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine  # noqa: E402

engine.build_harness()

engine.build_crate("macros", os.path.join(engine.ROOT, "macros"))
