"""setup_cmd: nothing to build; fails early if a tool is missing or the specification does not parse."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def main():
    subprocess.run(["/opt/venv/bin/python", "-c", "import torch"], check=True)
    mods = sorted(f for f in os.listdir(os.path.join(ROOT, "spec")) if f.endswith(".tla"))
    r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY"] + mods, cwd=os.path.join(ROOT, "spec"), capture_output=True, text=True)
    if r.returncode or "*** Errors" in r.stdout or "Could not parse" in r.stdout:
        print(r.stdout + r.stderr)
        return 1
    print("specification parses:", " ".join(mods))
    return 0


if __name__ == "__main__":
    sys.exit(main())
