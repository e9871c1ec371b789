"""Nothing is built ahead of time: checks that the tools are there and the specs parse."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert shutil.which('java'), 'no java'
import arroba  # noqa
for f in sorted(glob.glob(f'{V}/spec/*.tla')):
    p = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
                        'tla2sany.SANY', f], capture_output=True, text=True, cwd=f'{V}/spec')
    if p.returncode:
        print(p.stdout)
        sys.exit(1)
print('ok')
