#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   (see DESIGN.md)
Builds /repo's current working tree with sanitizers together with the property's monitor harness,
drives it, judges the executions and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver
sys.exit(driver.main(sys.argv[1:]))
