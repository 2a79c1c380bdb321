#!/usr/bin/env python3
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import args
open(os.path.join(V, "spec", "ArgTokens.tla"), "w").write(args.tokens_module())
