#!/usr/bin/env python3
"""Setup: nothing has to be prepared (each check builds what it needs from /repo); verifies the toolchain is usable."""
import os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
d = tempfile.mkdtemp(prefix='verif-setup-')
try:
    src = os.path.join(d, 'a.cpp')
    open(src, 'w').write('#include <boost/multiprecision/cpp_int.hpp>\nint main() { return boost::multiprecision::cpp_int(7) == 7 ? 0 : 1; }\n')
    subprocess.check_call(['g++', '-std=c++17', src, '-o', os.path.join(d, 'a')])
    sys.exit(subprocess.call([os.path.join(d, 'a')]))
finally:
    shutil.rmtree(d, ignore_errors=True)
