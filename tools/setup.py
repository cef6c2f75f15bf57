"""checks that the tools are there and the specifications parse; builds nothing that lasts"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine
rc = 0
for f in sorted(os.listdir(engine.SPEC)):
    if f.endswith('.tla'):
        p = subprocess.run(['java', '-cp', engine.JAR + ':' + engine.CM, 'tla2sany.SANY', f], cwd=engine.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = p.returncode == 0 and b'*** Errors' not in p.stdout
        print(f, 'ok' if ok else 'FAILED\n' + p.stdout.decode(errors='replace')[-2000:])
        rc |= not ok
build.harness('seq.cpp')
print('harness ok')
sys.exit(rc)
