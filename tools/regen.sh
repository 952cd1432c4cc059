#!/bin/bash
cd /verif && python3 tools/props.py && python3 tools/manifest.py
