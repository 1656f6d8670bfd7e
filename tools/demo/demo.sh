#!/bin/bash
# Run in /repo: exit 0 if what is demonstrated holds, 1 if not.
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
