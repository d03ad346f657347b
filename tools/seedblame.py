"""which planted bugs change lines of the original repository"""
import glob, re, subprocess
BASE = '5a4ef25'
for d in sorted(glob.glob('/verif/seeded/*')):
    own = orig = add = 0
    f = None
    for l in open(d + '/patch.diff'):
        m = re.match(r'--- a/(.*)', l)
        if m:
            f = m.group(1).strip()
            bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f], capture_output=True, text=True).stdout.split('\n')
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'):
            continue
        if l.startswith('-'):
            if bl[n - 1].startswith('^' + BASE[:7]) or BASE[:7] in bl[n - 1][:10]:
                orig += 1
            else:
                own += 1
            n += 1
        elif l.startswith('+'):
            add += 1
        else:
            n += 1
    print(d.split('/')[-1], 'original', orig, 'own', own, 'added', add)
