import subprocess, re
MAP = '''e7ab466 C02;646134c C02;1b257f5 C02;d6c8973 C01;ec97c4e C02;c4a050b C05;fcc6efd C02;707621d C05;7889c75 C10;42419c4 C08;86b8555 C07;4fc480d C09;ef5f099 C06;faedac3 C08;2eb1397 C31;547398e C13;754b908 C17;b61c7f8 C16;5254eb3 C16;f8e7f07 C15;4a1ec19 C11;a031571 C11;a81d026 C11;f9c949b C11;f59498d C11;add977d C12;8cc1582 C27;1d13fb1 C27;8fb806f C30;63d5813 C26;761afd4 C24;82df8fa C23;329bfdb C23;5826dc5 C23;b6fe1a5 C23;8882cb0 C25;3e48694 C25;4a4dd27 C28;433f7bf C19;859e5ac C19;d36e638 C18;b5c7932 C19;c663b2a C18;db70bc2 C24;ab0c1de C18;588ed63 C19;a072c12 C29;1d06db4 C29'''
m = dict(x.split() for x in MAP.split(';'))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
with open('/verif/known_findings.txt', 'w') as f:
    f.write('# Genuine defects found in the library.  fixed: repaired in /repo (suppresses nothing).\n'
            '# known: property=<id> key=<rule @ construct> :: <text>  (recorded, reported as KNOWN-FINDING)\n')
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if s.startswith('fix:'):
            f.write('fixed: property=%s %s %s\n' % (m[h], h, s[4:].strip()))
