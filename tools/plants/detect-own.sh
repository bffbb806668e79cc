#!/bin/bash
# every planted bug against its own property's check
cd "$(dirname "$0")" && exec ./detect.sh $(cd /verif/seeded && ls)
