#!/bin/bash
# builds the MIR extraction driver and warms the dependency cache (checks do this themselves when it is missing)
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0, "."); from ajv import extract; print("dump in %.1f s" % extract.extract()[1])'
