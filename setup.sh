#!/bin/bash
# builds the rustc driver and the facts of the current tree (every check does so itself when they are missing)
cd "$(dirname "$0")" && python3 sa/facts.py
