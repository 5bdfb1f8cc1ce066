"""Checks that the tools the checks call are here; every check builds what it needs itself."""
import shutil, subprocess, sys, os
bad = [t for t in ('cargo', 'goto-instrument', 'cbmc') if not shutil.which(t)]
env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2026-08-21')
r = subprocess.run(['cargo', 'kani', '--version'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(r.stdout.decode().strip())
if bad or r.returncode:
    sys.exit('missing: ' + ', '.join(bad or ['cargo kani']))
z = subprocess.run(['python3-vt', '-c', 'import z3, mpmath; print("z3", z3.get_version_string())'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
n = subprocess.run(['cargo', '+nightly', '--version'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(z.stdout.decode().strip(), n.stdout.decode().strip())
if z.returncode or n.returncode: sys.exit('missing: python3-vt with z3 and mpmath, or the nightly toolchain')
