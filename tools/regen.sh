#!/bin/sh
# regenerate properties.jsonl, MANIFEST.json, known_findings.jsonl and DESIGN.md
cd "$(dirname "$0")/.." && python3 tools/props.py && python3 tools/findings.py && python3 tools/design.py
