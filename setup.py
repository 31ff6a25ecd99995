#!/usr/bin/env python3
"""setup_cmd: builds the explorers once, to show that they build. Every check builds what it needs again."""
import sys

from runner import mcpart, pypart, schedpart
from runner.common import NoVerdict

try:
    mcpart.build("C23", "release")
    schedpart.build()
    pypart.build()
except NoVerdict as e:
    print(e)
    sys.exit(1)
