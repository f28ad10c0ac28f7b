"""Build the explorers of a check from /repo's current tree (scratch output only)."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor

class BuildError(Exception):
    pass

BASE = ['-std=c++17', '-O2', '-g0', '-Wall', '-Wno-missing-braces', '-Wno-unused-variable', '-Wno-unused-but-set-variable']

def sh(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout.decode(errors='replace')

def build_host(e, repo, verif, work):
    out = os.path.join(work, e['name'])
    cmd = [e.get('cxx', 'g++')] + BASE + e.get('flags', []) + ['-I', os.path.join(repo, 'include'), '-I', os.path.join(verif, 'harness'),
          '-o', out] + [os.path.join(verif, 'harness', s) for s in e['src']] + e.get('libs', [])
    try:
        sh(cmd)
    except BuildError:
        if 'fallback' not in e:
            raise
        # a behaviour-preserving edit may stop the code from compiling with the harness's own number type
        plain = [c for c in cmd if c not in e.get('flags', [])]
        for i, f in enumerate(e['fallback']):
            try:
                sh(plain + f)
                break
            except BuildError:
                if i + 1 == len(e['fallback']):
                    raise
    return e['name'], out

def build(spec, repo, verif, work):
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda e: (build_avr if e.get('kind') == 'avr' else build_host)(e, repo, verif, work), spec['explorers']))
    return res

AVR = ['avr-g++', '-std=c++17', '-Wall', '-mmcu=atmega328p', '-DF_CPU_HZ=16000000L', '-fno-exceptions', '-ffunction-sections',
       '-fdata-sections', '-fno-threadsafe-statics', '-Wno-unused-variable', '-Wl,--defsym=__TEXT_REGION_LENGTH__=128K']

def build_avr(e, repo, verif, work):
    """firmware images for the simulated ATmega328P (flags of the project's own AVR tool chain file), then the explorer"""
    for fw in e['firmware']:
        name, opts = (fw, []) if isinstance(fw, str) else fw
        sh(AVR + ['-O2'] + opts + ['-I', os.path.join(repo, 'include'), '-I', os.path.join(verif, 'harness', 'avr'), '-o', os.path.join(work, name + '.elf'),
                  os.path.join(verif, 'harness', 'avr', e.get('fwsrc', {}).get(name, name) + '.cpp')])
    return build_host(dict(e, flags=e.get('flags', []) + ['-DFIRMWARE="%s"' % work]), repo, verif, work)
