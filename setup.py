#!/usr/bin/env python3
"""Build the generator, and the dependencies that all checks share."""
import sys

sys.dont_write_bytecode = True
import check

check.build_gen()
check.check_repo_builds()
