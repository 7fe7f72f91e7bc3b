#!/usr/bin/env python3
"""nothing to install: drivers are built from the working tree by each check. prepares the scratch folder"""
import os
V = os.path.dirname(os.path.abspath(__file__))
for d in (".work", "evidence"): os.makedirs(os.path.join(V, d), exist_ok=True)
