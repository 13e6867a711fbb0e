#!/usr/bin/env python3
"""Runs the check of one property: check.py C01."""
import capset
import classifier
import command
import core
import determ
import flow
import gitdiff
import helpers
import scan
import vlib

PLANS = {}
for module in (core, capset, classifier, gitdiff, command, scan, helpers, flow, determ):
    PLANS.update(module.PLANS)

if __name__ == "__main__":
    vlib.main(PLANS)
