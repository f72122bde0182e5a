"""Compile /repo's sources and a contract harness to one LLVM module."""
import os, subprocess, glob, re, sys, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
MODELS = os.path.join(VERIF, 'models')
CXX = 'clang++'
INC = ['-I' + MODELS, '-I' + SRC, '-I' + os.path.join(SRC, 'common')]
IRINC = ['-I' + os.path.join(MODELS, 'ir'), '-include', os.path.join(MODELS, 'ir', 'prefix.h'), '-include', os.path.join(MODELS, 'gccsel.h')]      # format-library stand-in and stream templates from the headers, verification builds only
CFLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fwrapv', '-fno-strict-aliasing', '-fno-builtin',
          '-D_GLIBCXX_ASSERTIONS', '-DLOG_LEVEL=0', '-U_FORTIFY_SOURCE', '-w', '-fno-exceptions-dummy']
CFLAGS.remove('-fno-exceptions-dummy')
GROUPS = {
    't86': ['t86/**/*.cpp', 't86/*.cpp'],
    'parser': ['t86-parser/*.cpp'],
    'debugger': ['debugger/**/*.cpp', 'debugger/*.cpp'],
    'common': ['common/*.cpp'],
}

# statistics gathering is dropped: nothing flows back from it (its calls become no-ops)
EXCLUDE = {'stats_logger.cpp'}
NOINLINE = ['_ZNK4tiny3t8611Instruction8toStringB5cxx11Ev', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', '_ZNSolsEPFRSoS_E', '_ZNSo3putEc', '_ZNSi3getERc', '_ZNSi3getEv',
            '_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_', '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'] + ['_ZNSolsE' + c for c in 'ijlmstxy']

NOINLINE += ['_ZNSt7__cxx119to_stringE' + c for c in 'ijlmxyd'] + ['_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale', '_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc', '_ZNKSt9basic_iosIcSt11char_traitsIcEE6narrowEcc']
NOINLINE += ['_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZNSo5flushEv'] + ['_ZNSo9_M_insertI%sEERSoT_' % c for c in ('b', 'l', 'm', 'x', 'y', 'd', 'e', 'PKv')]
NOINLINE_RX = re.compile(r'^define .*?@(_ZSt10from_charsI\w+)\(', re.M)

class BuildError(Exception): pass

def sources(groups):
    out = []
    for g in groups:
        if g.endswith('.cpp'): out.append(os.path.join(SRC, g)); continue
        for p in GROUPS[g]:
            out += glob.glob(os.path.join(SRC, p), recursive=True)
    return sorted(set(out))

def sh(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout

def compile_ir(src, out, extra=()):
    sh([CXX] + CFLAGS + IRINC + INC + list(extra) + ['-S', '-emit-llvm', src, '-o', out])
    return out

def directives(path, tier='quick'):
    """// VF-SRC: source groups; // VF-COVER: labels that must be reached; entries VF name(int k) { // CASES quick [thorough]; // VF-OPT: k=v"""
    d = {'src': [], 'cover': [], 'opts': {}, 'flags': [], 'entries': []}
    txt = open(path).read()
    for m in re.finditer(r'^// VF-SRC:(.*)$', txt, re.M): d['src'] += m.group(1).split()
    for m in re.finditer(r'^// VF-COVER:(.*)$', txt, re.M): d['cover'] += [x.strip() for x in m.group(1).split(',') if x.strip()]
    for m in re.finditer(r'^// VF-OPT:(.*)$', txt, re.M):
        for kv in m.group(1).split():
            k, v = kv.split('='); d['opts'][k] = int(v)
    for m in re.finditer(r'^// VF-FLAGS:(.*)$', txt, re.M): d['flags'] += m.group(1).split()
    for m in re.finditer(r'^VF\s+((?:prove|bounded|known)_\w+)\s*\(int\s*(\w*)\)\s*\{?\s*(?://\s*CASES\s+(\w+))?(?:\s+(\w+))?', txt, re.M):
        n = 1
        if m.group(3): n = int(m.group(3))
        if tier == 'thorough' and m.group(4) and m.group(4).isdigit(): n = int(m.group(4))
        d['entries'].append((m.group(1), n))
    return d

PIPE = 'forceattrs,internalize,globaldce,function(sroa),cgscc(inline),globaldce,function(sroa)'
LIBC = ['isspace', 'isdigit', 'isalpha', 'isalnum', 'strtol', 'strcmp', 'tolower', 'toupper']

def plan(harness_files, tier):
    ds = [directives(h, tier) for h in harness_files]
    groups = ['common']
    for d in ds:
        for g in d['src']:
            if g not in groups: groups.append(g)
    flags = sum([d['flags'] for d in ds], [])
    if tier == 'thorough': flags = flags + ['-DVF_THOROUGH']
    return ds, groups, flags

def build_module(harness_files, work, tier='quick'):
    ds, groups, flags = plan(harness_files, tier)
    srcs = [f for f in sources(groups) if os.path.basename(f) not in EXCLUDE]
    jobs = []
    for h in harness_files: jobs.append((h, ['-fno-access-control'] + flags))
    jobs.append((os.path.join(MODELS, 'stl_models.cpp'), []))
    for f in srcs: jobs.append((f, []))
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(compile_ir, f, os.path.join(work, '%03d_%s.ll' % (i, os.path.basename(f))), fl) for i, (f, fl) in enumerate(jobs)]
        outs = [f.result() for f in fs]
    linked = os.path.join(work, 'linked.ll')
    sh(['llvm-link', '-S', '-o', linked] + outs)
    entries = [n for d in ds for n, k in d['entries']]
    final = os.path.join(work, 'final.ll')
    keep = entries + LIBC
    noinline = NOINLINE + sorted(set(NOINLINE_RX.findall(open(linked).read())))
    sh(['opt', '-S'] + ['-force-attribute=%s:noinline' % n for n in noinline] +
       ['-internalize-public-api-list=' + ','.join(keep), '-passes=' + PIPE, linked, '-o', final])
    for o in outs: os.unlink(o)
    os.unlink(linked)
    return final, ds, srcs

NFLAGS = ['-std=c++20', '-O0', '-g1', '-fwrapv', '-fno-strict-aliasing', '-ffunction-sections', '-fsanitize=address', '-fsanitize=shift,integer-divide-by-zero,bounds,null,unreachable,return',
          '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DLOG_LEVEL=0', '-w']

def build_native(harness_files, work, tier='quick'):
    """the same harnesses against the same sources as an ordinary sanitised program"""
    ds, groups, flags = plan(harness_files, tier)
    srcs = sources(groups)
    table = os.path.join(work, 'table.cpp')
    ents = [n for d in ds for n, k in d['entries']]
    with open(table, 'w') as fh:
        fh.write('struct Entry { const char* name; int k; void (*f)(int); };\n')
        for n in ents: fh.write('extern "C" void %s(int);\n' % n)
        fh.write('extern Entry vf_entries[]; extern int vf_nentries;\nEntry vf_entries[] = {%s};\nint vf_nentries = %d;\n' % (', '.join('{"%s", 0, %s}' % (n, n) for n in ents), len(ents)))
    jobs = [(h, ['-fno-access-control'] + flags) for h in harness_files] + [(table, []), (os.path.join(MODELS, 'vf_native.cpp'), [])] + [(f, []) for f in srcs]
    def one(i, f, fl):
        o = os.path.join(work, 'n%03d.o' % i)
        sh([CXX] + NFLAGS + INC + ['-include', os.path.join(MODELS, 'gccsel.h')] + fl + ['-c', f, '-o', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = [x.result() for x in [ex.submit(one, i, f, fl) for i, (f, fl) in enumerate(jobs)]]
    exe = os.path.join(work, 'native')
    sh([CXX] + NFLAGS + outs + ['-o', exe, '-lfmt', '-lpthread', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'])
    return exe
