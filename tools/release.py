"""Make the single-header release of the tree under test: REPO BUILD."""
import os, subprocess, sys
repo, build = sys.argv[1:3]
os.makedirs(build + "/release", exist_ok=True)
r = subprocess.run([sys.executable, "-B", "generate_release.py", build + "/release/pigo.hpp"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(r.stdout[-2000:])
sys.exit(1 if r.returncode or not os.path.exists(build + "/release/pigo.hpp") else 0)
