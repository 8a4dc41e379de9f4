"""append 'fixed' entries for the fix commits of /repo that are not listed yet: addfix.py <property> <n last commits>"""
import json, subprocess, sys
pid, n = sys.argv[1], int(sys.argv[2])
log = subprocess.run(['git', '-C', '/repo', 'log', '-%d' % n, '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
f = open('/verif/known_findings.jsonl').read()
with open('/verif/known_findings.jsonl', 'a') as out:
    for l in reversed(log):
        h, s = l.split(' ', 1)
        if h not in f and s.startswith('fix: '):
            out.write(json.dumps({'property': pid, 'status': 'fixed', 'commit': h, 'what': s[5:], 'entry': 'fixed: property=%s %s %s' % (pid, h, s[5:])}) + '\n')
