#!/usr/bin/env python3
"""Everything needed is there: the toolchains, and specifications that parse."""
import sys
from lib import *

def main():
    subprocess.run(["go", "version"], env=GOENV, check=True)
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", TLA_CP, "tla2sany.SANY", f], cwd=SPEC, capture_output=True, text=True)
            if p.returncode != 0:
                sys.exit(f + ":\n" + p.stdout[-2000:])
            print(f, "parses")

main()
