"""fail early when the toolchain the analysis reads MIR with is missing"""
import subprocess, sys
r = subprocess.run(['cargo', '+nightly', '--version'], capture_output=True, text=True)
print(r.stdout.strip(), 'python', sys.version.split()[0])
sys.exit(r.returncode)
